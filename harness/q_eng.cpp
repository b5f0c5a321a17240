// host side of the engines: construction, copies, state export, files, wrappers around the device functions, rates and tables
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
#include <algorithm>
#include <utility>
#include <memory>
#include <random>
#include <functional>
#include <limits>
#include <boost/math/quadrature/trapezoidal.hpp>
#include <boost/math/quadrature/tanh_sinh.hpp>
#include <boost/math/quadrature/gauss_kronrod.hpp>
#include <boost/math/special_functions/bessel.hpp>
#include <boost/math/tools/roots.hpp>
#include "q_common.h"
#include "q_throw.h"
#include "q_rng.h"
// the entry points look at the engine's tables and call its internal functions: private members are made visible here, the code is unchanged
#include "q_quad.h"
#define private public
#ifdef ENG_QS
#include "quantum_sync_engine.hpp"
#else
#include "breit_wheeler_engine.hpp"
#endif
#undef private
using namespace picsar::multi_physics;
typedef picsar_vector<R> PV;
typedef lookup_1d<R> L1;
typedef lookup_2d<R> L2;
#ifdef ENG_QS
typedef quantum_synchrotron_engine<R, ArrRng> E;
typedef quantum_synchrotron_engine_ctrl<R> CTL;
#define T1 KKfunc_table
#define IT1(x) KKfunc_table_##x
#define CT qs_ctrl
#define WCUM write_cumulative_phot_em_table
#define RCUM read_cumulative_phot_em_table
static CTL mk(const R* c, const U* s)
{
    CTL r;
    r.chi_part_min = c[0]; r.chi_part_tdndt_min = c[1]; r.chi_part_tdndt_max = c[2]; r.chi_part_tem_min = c[3]; r.chi_part_tem_max = c[4];
    r.chi_part_tdndt_how_many = s[0]; r.chi_part_tem_how_many = s[1]; r.prob_tem_how_many = s[2];
    return r;
}
static void rd(const CTL& r, R* c, U* s)
{
    c[0] = r.chi_part_min; c[1] = r.chi_part_tdndt_min; c[2] = r.chi_part_tdndt_max; c[3] = r.chi_part_tem_min; c[4] = r.chi_part_tem_max;
    s[0] = r.chi_part_tdndt_how_many; s[1] = r.chi_part_tem_how_many; s[2] = r.prob_tem_how_many;
}
#else
typedef breit_wheeler_engine<R, ArrRng> E;
typedef breit_wheeler_engine_ctrl<R> CTL;
#define T1 TTfunc_table
#define IT1(x) TTfunc_table_##x
#define CT bw_ctrl
#define WCUM write_cumulative_pair_table
#define RCUM read_cumulative_pair_table
static CTL mk(const R* c, const U* s)
{
    CTL r;
    r.chi_phot_min = c[0]; r.chi_phot_tdndt_min = c[1]; r.chi_phot_tdndt_max = c[2]; r.chi_phot_tpair_min = c[3]; r.chi_phot_tpair_max = c[4];
    r.chi_phot_tdndt_how_many = s[0]; r.chi_phot_tpair_how_many = s[1]; r.chi_frac_tpair_how_many = s[2];
    return r;
}
static void rd(const CTL& r, R* c, U* s)
{
    c[0] = r.chi_phot_min; c[1] = r.chi_phot_tdndt_min; c[2] = r.chi_phot_tdndt_max; c[3] = r.chi_phot_tpair_min; c[4] = r.chi_phot_tpair_max;
    s[0] = r.chi_phot_tdndt_how_many; s[1] = r.chi_phot_tpair_how_many; s[2] = r.chi_frac_tpair_how_many;
}
#endif
static void tape(char* b)
{
#ifdef DV_SYMBOLIC
    b[0] = 0;
#else
    const char* d = std::getenv("TMPDIR");
    std::snprintf(b, 400, "%s/dvtape.%d", d ? d : "/tmp", (int) getpid());
#endif
}
static void dump(const PV& v, R* o) { for (U i = 0; i < v.size(); ++i) o[i] = v[i]; }
// gives the engine tables of its own with the given contents
static void fill(E& e, U n, R* xs, R* ys, U m, R* us, U p, R* vs, R* zs, U skip = 0)
{
    if (skip != 1) {
        const L1 a(n, xs, ys);
        e.T1 = a;
    }
    if (skip != 2) {
        const L2 b(m, us, p, vs, zs);
        e.cum_distrib_table = b;
    }
}
static void tabs(E& e, R* oc, R* od, R* o1, R* o2, R* oz, U* meta)
{
    meta[0] = e.T1.is_init();
    meta[1] = e.T1.ref_coords().size();
    meta[2] = e.T1.ref_data().size();
    meta[3] = e.cum_distrib_table.is_init();
    meta[4] = e.cum_distrib_table.ref_coords()[0].size();
    meta[5] = e.cum_distrib_table.ref_coords()[1].size();
    meta[6] = e.cum_distrib_table.ref_data().size();
    dump(e.T1.ref_coords(), oc);
    dump(e.T1.ref_data(), od);
    dump(e.cum_distrib_table.ref_coords()[0], o1);
    dump(e.cum_distrib_table.ref_coords()[1], o2);
    dump(e.cum_distrib_table.ref_data(), oz);
}
static void scal(E& e, R* os, R* octl, U* oct)
{
    os[0] = e.get_lambda();
    os[1] = e.rng.unf(0., 1.);
    os[2] = e.rng.unf(0., 1.);
    rd(e.CT, octl, oct);
}
extern "C" {
R q_chi(R px, R py, R pz, R ex, R ey, R ez, R bx, R by, R bz, R lam)
{
#ifdef ENG_QS
    return chi_lepton(px, py, pz, ex, ey, ez, bx, by, bz, lam);
#else
    return chi_photon(px, py, pz, ex, ey, ez, bx, by, bz, lam);
#endif
}
// a new engine
void q_e_new(R lam, R* ctl, U* ct, R* u, R* os, R* octl, U* oct, U* meta)
{
    E e(ArrRng{u}, lam, mk(ctl, ct));
    meta[0] = e.T1.is_init();
    meta[1] = e.cum_distrib_table.is_init();
    scal(e, os, octl, oct);
}
void q_e_default(R* u, R* os, R* octl, U* oct)
{
    E e(ArrRng{u});
    scal(e, os, octl, oct);
}
// how: 0 copy, 1 move, 2 assign over an engine with other contents, 3 assign to itself; +16: the source has no first table, +32: no second one
void q_e_copy(U how, R lam, R* ctl, U* ct, R* u, U n, R* xs, R* ys, U m, R* us, U p, R* vs, R* zs, R lam2, R* ctl2, U* ct2, R* w, U k, R v,
    R* os, R* octl, U* oct, R* oc, R* od, R* o1, R* o2, R* oz, U* meta)
{
    const U skip = how / 16;
    how = how % 16;
    E a(ArrRng{u}, lam, mk(ctl, ct));
    fill(a, n, xs, ys, m, us, p, vs, zs, skip);
    if (how == 0) {
        E b(a);
        if (skip != 1) a.T1.ref_data()[k] = v;
        if (skip != 2) a.cum_distrib_table.ref_data()[k] = v;
        scal(b, os, octl, oct);
        tabs(b, oc, od, o1, o2, oz, meta);
    }
    else if (how == 1) {
        E b(std::move(a));
        scal(b, os, octl, oct);
        tabs(b, oc, od, o1, o2, oz, meta);
    }
#ifndef ENG_QS
    else {
        E b(ArrRng{w}, lam2, mk(ctl2, ct2));
        if (how == 2) {
            fill(b, 2, w, w, 1, w, 2, w, w, 0);
            b = a;
            if (skip != 1) a.T1.ref_data()[k] = v;
            if (skip != 2) a.cum_distrib_table.ref_data()[k] = v;
        }
        else {
            fill(b, n, xs, ys, m, us, p, vs, zs, skip);
            b = b;
        }
        scal(b, os, octl, oct);
        tabs(b, oc, od, o1, o2, oz, meta);
    }
#endif
}
// state exported and an engine rebuilt from it
void q_e_innards(R lam, R* ctl, U* ct, R* u, U n, R* xs, R* ys, U m, R* us, U p, R* vs, R* zs, R* os, R* octl, U* oct, R* oc, R* od, R* o1, R* o2, R* oz, U* meta, U* same)
{
    E a(ArrRng{u}, lam, mk(ctl, ct));
    fill(a, n, xs, ys, m, us, p, vs, zs);
    auto in = a.export_innards();
    same[0] = in.IT1(coords_ptr) == a.T1.ref_coords().data() && in.IT1(data_ptr) == a.T1.ref_data().data();
    same[1] = in.cum_distrib_table_coords_1_ptr == a.cum_distrib_table.ref_coords()[0].data() && in.cum_distrib_table_coords_2_ptr == a.cum_distrib_table.ref_coords()[1].data();
    same[2] = in.cum_distrib_table_data_ptr == a.cum_distrib_table.ref_data().data();
    same[3] = in.IT1(coords_how_many);
    same[4] = in.IT1(data_how_many);
    same[5] = in.cum_distrib_table_coords_1_how_many;
    same[6] = in.cum_distrib_table_coords_2_how_many;
    same[7] = in.cum_distrib_table_data_how_many;
    E b(in);
    scal(b, os, octl, oct);
    tabs(b, oc, od, o1, o2, oz, meta);
}
R q_e_lambda(R lam, R v, R* u)
{
    E a(ArrRng{u}, lam);
    a.set_lambda(v);
    return a.get_lambda();
}
R q_e_depth(R* u)
{
    E a(ArrRng{u});
    return a.get_optical_depth();
}
// engine tables to files and back into another engine
void q_e_io(U n, R* xs, R* ys, U m, R* us, U p, R* vs, R* zs, R* u, R* oc, R* od, R* o1, R* o2, R* oz, U* meta)
{
    char f[512];
    tape(f);
    E a(ArrRng{u}), b(ArrRng{u});
    fill(a, n, xs, ys, m, us, p, vs, zs);
    a.write_dN_dt_table(f);
    b.read_dN_dt_table(f);
    a.WCUM(f);
    b.RCUM(f);
    tabs(b, oc, od, o1, o2, oz, meta);
}
// event generation through the host method and through the device function on the same numbers
void q_e_gen(R px, R py, R pz, R ex, R ey, R ez, R bx, R by, R bz, R wt, U ns, R lam, R* ctl, U* ct, U m, R* us, U p, R* vs, R* zs, R* u, R* h, R* d, U* meta, R* hp, R* dp)
{
    E a(ArrRng{u}, lam, mk(ctl, ct));
    const L2 t(m, us, p, vs, zs);
    a.cum_distrib_table = t;
    R qx = px, qy = py, qz = pz;
#ifdef ENG_QS
    auto g = a.generate_photons_and_update_momentum(qx, qy, qz, ex, ey, ez, bx, by, bz, wt, ns);
    hp[0] = qx; hp[1] = qy; hp[2] = qz;
    for (U i = 0; i < ns; ++i) { h[i] = g[i].first[0]; h[ns + i] = g[i].first[1]; h[2*ns + i] = g[i].first[2]; h[3*ns + i] = g[i].second; }
    meta[0] = g.size();
    meta[1] = g.size();
    dp[0] = px; dp[1] = py; dp[2] = pz;
    E::internal_generate_photons_and_update_momentum(dp[0], dp[1], dp[2], ex, ey, ez, bx, by, bz, wt, ns, d, d + ns, d + 2*ns, d + 3*ns, a.lambda, a.cum_distrib_table, a.CT, u);
#else
    auto g = a.generate_breit_wheeler_pairs(qx, qy, qz, ex, ey, ez, bx, by, bz, wt, ns);
    hp[0] = dp[0] = 0; hp[1] = dp[1] = 0; hp[2] = dp[2] = 0;
    for (U i = 0; i < ns; ++i) { h[i] = g[0][i].first[0]; h[ns + i] = g[0][i].first[1]; h[2*ns + i] = g[0][i].first[2]; h[3*ns + i] = g[0][i].second; }
    for (U i = 0; i < ns; ++i) { h[4*ns + i] = g[1][i].first[0]; h[5*ns + i] = g[1][i].first[1]; h[6*ns + i] = g[1][i].first[2]; h[7*ns + i] = g[1][i].second; }
    meta[0] = g[0].size();
    meta[1] = g[1].size();
    E::internal_generate_breit_wheeler_pairs(px, py, pz, ex, ey, ez, bx, by, bz, wt, ns, d, d + ns, d + 2*ns, d + 4*ns, d + 5*ns, d + 6*ns, d + 3*ns, d + 7*ns, a.lambda, a.cum_distrib_table, a.CT, u);
#endif
}
// optical depth without a table: the rate is computed
R q_e_event(R px, R py, R pz, R ex, R ey, R ez, R bx, R by, R bz, R dt, R od, R lam, R* ctl, U* ct, R* u, R* o, U* meta)
{
    E a(ArrRng{u}, lam, mk(ctl, ct));
    o[0] = od;
    auto r = a.evolve_opt_depth_and_determine_event(px, py, pz, ex, ey, ez, bx, by, bz, dt, o[0]);
    meta[0] = r.first;
    return r.second;
}
// rates and integrands
#ifdef ENG_QS
R q_e_xy(R a, R b, R* u) { const E e(ArrRng{u}); return e.compute_y(a, b); }
R q_e_inner(R a, R* u) { const E e(ArrRng{u}); return e.compute_inner_integral(a); }
R q_e_integrand(R chi, R c2, R* u) { const E e(ArrRng{u}); return e.compute_KK_integrand(chi, c2); }
R q_e_total(R chi, R* u) { const E e(ArrRng{u}); return e.compute_KK_function(chi); }
R q_e_cum(R chi, R c2, R* u) { const E e(ArrRng{u}); return e.compute_cumulative_phot_em(c2, chi); }
#else
R q_e_xy(R a, R b, R* u) { const E e(ArrRng{u}); return e.compute_x(a, b); }
R q_e_inner(R a, R* u) { const E e(ArrRng{u}); return e.compute_inner_integral(a); }
R q_e_integrand(R chi, R c2, R* u) { const E e(ArrRng{u}); return e.compute_TT_integrand(chi, c2); }
R q_e_total(R chi, R* u) { const E e(ArrRng{u}); return e.compute_TT_function(chi); }
R q_e_cum(R chi, R c2, R* u) { const E e(ArrRng{u}); return e.compute_cumulative_pair(chi, c2); }
#endif
R q_e_rate(R en, R chi, R lam, R* u) { const E e(ArrRng{u}, lam); return e.compute_dN_dt(en, chi); }
void q_e_tab1(R* ctl, U* ct, R* u, R* oc, R* od, U* meta)
{
    E e(ArrRng{u}, 1., mk(ctl, ct));
    e.compute_dN_dt_lookup_table();
    meta[0] = e.T1.is_init();
    meta[1] = e.T1.ref_coords().size();
    meta[2] = e.T1.ref_data().size();
    dump(e.T1.ref_coords(), oc);
    dump(e.T1.ref_data(), od);
}
void q_e_tab2(R* ctl, U* ct, R* u, R* o1, R* o2, R* oz, U* meta)
{
    E e(ArrRng{u}, 1., mk(ctl, ct));
#ifdef ENG_QS
    e.compute_cumulative_phot_em_table();
#else
    e.compute_cumulative_pair_table();
#endif
    meta[0] = e.cum_distrib_table.is_init();
    meta[1] = e.cum_distrib_table.ref_coords()[0].size();
    meta[2] = e.cum_distrib_table.ref_coords()[1].size();
    meta[3] = e.cum_distrib_table.ref_data().size();
    dump(e.cum_distrib_table.ref_coords()[0], o1);
    dump(e.cum_distrib_table.ref_coords()[1], o2);
    dump(e.cum_distrib_table.ref_data(), oz);
}
}
