#include <cmath>
#include <vector>
#include <algorithm>
#include "q_common.h"
#include "q_throw.h"
#ifndef DV_HOST
#define PXRMP_CORE_ONLY
#endif
#include "lookup_tables.hpp"
#include "utilities.hpp"
using namespace picsar::multi_physics;
typedef picsar_vector<R> PV;
typedef lookup_1d<R> L1;
typedef lookup_2d<R> L2;
extern "C" {
R q_l1_eq(U n, R* xs, R* ys, R where) { const L1 t(n, xs, ys); return t.interp_linear_equispaced(where); }
R q_l1_gen(U n, R* xs, R* ys, R where) { const L1 t(n, xs, ys); return t.interp_linear(where); }
R q_l2_eq(U n, R* xs, U m, R* ys, R* zs, R wx, R wy) { const L2 t(n, xs, m, ys, zs); return t.interp_linear_equispaced(wx, wy); }
R q_l2_gen(U n, R* xs, U m, R* ys, R* zs, R wx, R wy) { const L2 t(n, xs, m, ys, zs); return t.interp_linear(wx, wy); }
R q_l2_first(U n, R* xs, U m, R* ys, R* zs, R wx, U j) { const L2 t(n, xs, m, ys, zs); return t.interp_linear_first(wx, j); }
R q_l2_firsteq(U n, R* xs, U m, R* ys, R* zs, R wx, U j) { const L2 t(n, xs, m, ys, zs); return t.interp_linear_first_equispaced(wx, j); }
R q_l2_at(U n, R* xs, U m, R* ys, R* zs, U i, U j) { const L2 t(n, xs, m, ys, zs); return t.data_at_coords(i, j); }
static void dump(const PV& v, R* o) { for (U i = 0; i < v.size(); ++i) o[i] = v[i]; }
// how: 0 build, 1 copy, 2 move, 3 assign over another table
void q_l1_build(U n, R* xs, R* ys, R* oc, R* od, U* meta)
{
    PV c(n, xs), d(n, ys);
    L1 t{PV(c), PV(d)};
    meta[0] = t.is_init();
    meta[1] = t.ref_coords().size();
    meta[2] = t.ref_data().size();
    dump(t.get_coords(), oc);
    dump(t.ref_data(), od);
}
void q_l1_copy(U n, R* xs, R* ys, U k, R v, R* oc, R* od, U* meta)
{
    L1 s(n, xs, ys);
    L1 t(s);
    t.ref_coords()[k] = v;
    t.ref_data()[k] = v;
    meta[0] = t.is_init();
    meta[1] = t.ref_coords().size();
    meta[2] = t.ref_data().size();
    dump(t.ref_coords(), oc);
    dump(t.ref_data(), od);
}
void q_l1_assign(U n, R* xs, R* ys, U k, R v, R* oc, R* od, U* meta)
{
    L1 s(n, xs, ys);
    L1 t, z(s);
    meta[0] = t.is_init();
    t = z;
    t = t;
    z.ref_coords()[k] = v;
    z.ref_data()[k] = v;
    meta[1] = t.is_init();
    meta[2] = t.ref_coords().size();
    meta[3] = t.ref_data().size();
    dump(t.ref_coords(), oc);
    dump(t.ref_data(), od);
}
void q_l1_move(U n, R* xs, R* ys, R* oc, R* od, U* meta)
{
    L1 s(n, xs, ys);
    L1 z(s);
    L1 t(std::move(z));
    meta[0] = t.is_init();
    meta[1] = t.ref_coords().size();
    meta[2] = t.ref_data().size();
    dump(t.ref_coords(), oc);
    dump(t.ref_data(), od);
}
void q_l2_build(U n, R* xs, U m, R* ys, R* zs, R* o1, R* o2, R* od, U* meta)
{
    PV c1(n, xs), c2(m, ys), d(n * m, zs);
    const PV e1(c1), e2(c2);
    picsar_array<PV, 2> c;
    c[0] = e1;
    c[1] = e2;
    L2 t{c, PV(d)};
    meta[0] = t.is_init();
    meta[1] = t.ref_coords()[0].size();
    meta[2] = t.ref_coords()[1].size();
    meta[3] = t.ref_data().size();
    picsar_array<PV, 2> g = t.get_coords();
    dump(g[0], o1);
    dump(g[1], o2);
    dump(t.ref_data(), od);
}
void q_l2_copy(U n, R* xs, U m, R* ys, R* zs, U k, R v, R* o1, R* o2, R* od, U* meta)
{
    L2 s(n, xs, m, ys, zs);
    L2 t(s);
    t.ref_coords()[0][k] = v;
    t.ref_data()[k] = v;
    meta[0] = t.is_init();
    meta[1] = t.ref_coords()[0].size();
    meta[2] = t.ref_coords()[1].size();
    meta[3] = t.ref_data().size();
    dump(t.ref_coords()[0], o1);
    dump(t.ref_coords()[1], o2);
    dump(t.ref_data(), od);
}
void q_l2_assign(U n, R* xs, U m, R* ys, R* zs, U k, R v, R* o1, R* o2, R* od, U* meta)
{
    L2 s(n, xs, m, ys, zs);
    L2 t, z(s);
    meta[0] = t.is_init();
    t = z;
    t = t;
    z.ref_coords()[0][k] = v;
    z.ref_data()[k] = v;
    meta[1] = t.is_init();
    meta[2] = t.ref_coords()[0].size();
    meta[3] = t.ref_coords()[1].size();
    meta[4] = t.ref_data().size();
    dump(t.ref_coords()[0], o1);
    dump(t.ref_coords()[1], o2);
    dump(t.ref_data(), od);
}
void q_l2_move(U n, R* xs, U m, R* ys, R* zs, R* o1, R* o2, R* od, U* meta)
{
    L2 s(n, xs, m, ys, zs);
    L2 z(s);
    L2 t(std::move(z));
    meta[0] = t.is_init();
    meta[1] = t.ref_coords()[0].size();
    meta[2] = t.ref_coords()[1].size();
    meta[3] = t.ref_data().size();
    dump(t.ref_coords()[0], o1);
    dump(t.ref_coords()[1], o2);
    dump(t.ref_data(), od);
}
// ---- utilities
U q_ub(U n, R* xs, R val) { return picsar_upper_bound(xs, xs + n, val) - xs; }
U q_poisson(R lambda, R u) { return poisson_distrib(lambda, u); }
U q_logsp(R lo, R hi, U n, R* o) { std::vector<R> v = generate_log_spaced_vec(lo, hi, n); U k = v.size(); for (U i = 0; i < k; ++i) o[i] = v[i]; return k; }
U q_linsp(R lo, R hi, U n, R* o) { std::vector<R> v = generate_lin_spaced_vec(lo, hi, n); U k = v.size(); for (U i = 0; i < k; ++i) o[i] = v[i]; return k; }
U q_llsp(R lo, R hi, U n, R* o) { std::vector<R> v = generate_log_lin_log_spaced_vec(lo, hi, n); U k = v.size(); for (U i = 0; i < k; ++i) o[i] = v[i]; return k; }
}
