#include <cmath>
#include "q_common.h"
#include "q_throw.h"
#ifndef DV_HOST
#define PXRMP_CORE_ONLY
#endif
#include "quantum_sync_engine.hpp"
using namespace picsar::multi_physics;
struct NoRng {};
typedef quantum_synchrotron_engine<R, NoRng> QS;
typedef quantum_synchrotron_engine_ctrl<R> QSC;
typedef lookup_1d<R> L1;
typedef lookup_2d<R> L2;
extern "C" {
R q_chi(R px, R py, R pz, R ex, R ey, R ez, R bx, R by, R bz, R lam) { return chi_lepton<R>(px, py, pz, ex, ey, ez, bx, by, bz, lam); }
R q_qs_od(R u) { return QS::internal_get_optical_depth(u); }
R q_qs_dndt(U n, R* xs, R* ys, R E, R chi, R lam, R tmin, R tmax)
{
    const L1 t(n, xs, ys);
    QSC c;
    c.chi_part_tdndt_min = tmin;
    c.chi_part_tdndt_max = tmax;
    return QS::internal_interp_dN_dt(E, chi, t, c, lam);
}
bool q_qs_event(R px, R py, R pz, R ex, R ey, R ez, R bx, R by, R bz, R dt, U init, U n, R* xs, R* ys, R lam, R cmin, R tmin, R tmax, R* od, R* evdt, U* happened)
{
    const L1 t = init ? L1(n, xs, ys) : L1();
    QSC c;
    c.chi_part_min = cmin;
    c.chi_part_tdndt_min = tmin;
    c.chi_part_tdndt_max = tmax;
    bool h = true;
    bool ok = QS::internal_evolve_opt_depth_and_determine_event(px, py, pz, ex, ey, ez, bx, by, bz, dt, *od, h, *evdt, lam, t, c);
    *happened = h;
    return ok;
}
bool q_qs_gen(R px, R py, R pz, R ex, R ey, R ez, R bx, R by, R bz, R weight, U k, R* gpx, R* gpy, R* gpz, R* gw, R lam,
              U n, R* xs, U m, R* ys, R* zs, R tmin, R tmax, R* u, R* p)
{
    const L2 t(n, xs, m, ys, zs);
    QSC c;
    c.chi_part_tem_min = tmin;
    c.chi_part_tem_max = tmax;
    bool ok = QS::internal_generate_photons_and_update_momentum(px, py, pz, ex, ey, ez, bx, by, bz, weight, k, gpx, gpy, gpz, gw, lam, t, c, u);
    p[0] = px;
    p[1] = py;
    p[2] = pz;
    return ok;
}
}
