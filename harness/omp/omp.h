// clang here comes without omp.h; the library calls none of its functions (its parallel loops are verified as sequential loops)
