// Verification harness: thin extern "C" entry points around the library's own templates (nothing of the library is copied).
#include "qed_commons.h"
#ifdef DV_SYMBOLIC
// while generating obligations the physical constants are free symbols (their values are the subject of a contract of their own)
extern "C" { extern const double k_c, k_m, k_schw, k_pair, k_qs, k_spair, k_ea, k_eb; }
#define __c k_c
#define __emass k_m
#define __schwinger k_schw
#define __pair_prod_coeff k_pair
#define __quantum_synchrotron_rate_coeff k_qs
#define __schwinger_coeff k_spair
#define __erber_Tfunc_asynt_a k_ea
#define __erber_Tfunc_asynt_b k_eb
#else
// replay build: real constants; heap blocks end at an inaccessible page, double releases abort, live blocks are counted
#include <sys/mman.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <new>
#include <map>
using namespace picsar::multi_physics;
extern "C" {
double q_const(int i)
{
    switch (i) {
        case 0: return __c;
        case 1: return __emass;
        case 2: return __schwinger;
        case 3: return __pair_prod_coeff;
        case 4: return __quantum_synchrotron_rate_coeff;
        case 5: return __schwinger_coeff;
        case 6: return __erber_Tfunc_asynt_a;
        case 7: return __erber_Tfunc_asynt_b;
    }
    return 0;
}
static const unsigned long dv_pg = 4096;
struct dv_blk { void* base; unsigned long len; void* usr; };
static dv_blk dv_tab[65536];
static long dv_n = 0, dv_live = 0;
long q_live() { return dv_live; }
void q_reset() { for (long i = 0; i < dv_n; i++) if (dv_tab[i].base) munmap(dv_tab[i].base, dv_tab[i].len); dv_n = 0; dv_live = 0; }
static void* dv_new(unsigned long n)
{
    if (n > (1UL << 32) || dv_n >= 65536) abort();
    const unsigned long len = ((n + dv_pg - 1) / dv_pg + 1) * dv_pg;
    char* b = (char*) mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) abort();
    memset(b, 0x7f, len - dv_pg);
    mprotect(b + len - dv_pg, dv_pg, PROT_NONE);
    dv_blk k = {b, len, b + len - dv_pg - (n + 7) / 8 * 8};
    dv_tab[dv_n++] = k;
    dv_live++;
    return k.usr;
}
static void dv_free(void* p)
{
    if (!p) return;
    for (long i = dv_n - 1; i >= 0; i--)
        if (dv_tab[i].usr == p && dv_tab[i].base) {
            mprotect(dv_tab[i].base, dv_tab[i].len, PROT_NONE);   // any later use faults
            dv_tab[i].usr = 0;
            dv_live--;
            return;
        }
    abort();   // not a live block: double or foreign release
}
}
void* operator new[](std::size_t n) { return dv_new(n); }
void operator delete[](void* p) noexcept { dv_free(p); }
void operator delete[](void* p, std::size_t) noexcept { dv_free(p); }
#endif
typedef double R;
typedef unsigned long U;
