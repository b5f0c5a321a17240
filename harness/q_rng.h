// a generator that hands out the numbers of an array in order
struct ArrRng
{
    const R* p;
    R unf(R a, R b) { return a + (b - a) * *p++; }
    R exp(R l) { return *p++ / l; }
};
