#include <cmath>
#include "q_common.h"
#include "q_throw.h"
#ifndef DV_HOST
#define PXRMP_CORE_ONLY
#endif
#include "breit_wheeler_engine.hpp"
using namespace picsar::multi_physics;
struct NoRng {};
typedef breit_wheeler_engine<R, NoRng> BW;
typedef breit_wheeler_engine_ctrl<R> BWC;
typedef lookup_1d<R> L1;
typedef lookup_2d<R> L2;
extern "C" {
R q_chi(R px, R py, R pz, R ex, R ey, R ez, R bx, R by, R bz, R lam) { return chi_photon<R>(px, py, pz, ex, ey, ez, bx, by, bz, lam); }
R q_bw_od(R u) { return BW::internal_get_optical_depth(u); }
R q_bw_dndt(U n, R* xs, R* ys, R E, R chi, R lam, R tmin, R tmax)
{
    const L1 t(n, xs, ys);
    BWC c;
    c.chi_phot_tdndt_min = tmin;
    c.chi_phot_tdndt_max = tmax;
    return BW::internal_interp_dN_dt(E, chi, t, c, lam);
}
bool q_bw_event(R px, R py, R pz, R ex, R ey, R ez, R bx, R by, R bz, R dt, U init, U n, R* xs, R* ys, R lam, R cmin, R tmin, R tmax, R* od, R* evdt, U* happened)
{
    const L1 t = init ? L1(n, xs, ys) : L1();
    BWC c;
    c.chi_phot_min = cmin;
    c.chi_phot_tdndt_min = tmin;
    c.chi_phot_tdndt_max = tmax;
    bool h = true;
    bool ok = BW::internal_evolve_opt_depth_and_determine_event(px, py, pz, ex, ey, ez, bx, by, bz, dt, *od, h, *evdt, lam, t, c);
    *happened = h;
    return ok;
}
bool q_bw_gen(R px, R py, R pz, R ex, R ey, R ez, R bx, R by, R bz, R weight, U k, R* epx, R* epy, R* epz, R* ppx, R* ppy, R* ppz, R* ew, R* pw, R lam,
              U n, R* xs, U m, R* ys, R* zs, R tmin, R tmax, R* u)
{
    const L2 t(n, xs, m, ys, zs);
    BWC c;
    c.chi_phot_tpair_min = tmin;
    c.chi_phot_tpair_max = tmax;
    return BW::internal_generate_breit_wheeler_pairs(px, py, pz, ex, ey, ez, bx, by, bz, weight, k, epx, epy, epz, ppx, ppy, ppz, ew, pw, lam, t, c, u);
}
}
