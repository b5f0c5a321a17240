#include <cmath>
#include "q_common.h"
#include "q_throw.h"
#ifndef DV_HOST
#define PXRMP_CORE_ONLY
#endif
#include "schwinger_pair_engine.hpp"
#include "q_rng.h"
using namespace picsar::multi_physics;
typedef schwinger_pair_engine<R, ArrRng> SC;
extern "C" {
U q_pois(R l, R u) { return poisson_distrib<R>(l, u); }
R q_sc_rate(R ex, R ey, R ez, R bx, R by, R bz, R lam) { return SC::internal_compute_schwinger_pair_production_rate(ex, ey, ez, bx, by, bz, lam); }
R q_sc_erate(R ex, R ey, R ez, R bx, R by, R bz, R lam, R* rnd)
{
    ArrRng g = {rnd};
    SC e(std::move(g), lam);
    return e.compute_schwinger_pair_production_rate(ex, ey, ez, bx, by, bz);
}
void q_sc_single(R ex, R ey, R ez, R bx, R by, R bz, R dx, R dy, R dz, R dt, R lam, R u, U* ev, R* w)
{
    bool h = true;
    SC::internal_generate_pairs_single(ex, ey, ez, bx, by, bz, dx, dy, dz, dt, &h, w, lam, u);
    *ev = h;
}
void q_sc_multi(R ex, R ey, R ez, R bx, R by, R bz, R dx, R dy, R dz, R dt, R lam, R u, U* ev, R* w)
{
    U h = 99;
    SC::internal_generate_pairs_multiple(ex, ey, ez, bx, by, bz, dx, dy, dz, dt, &h, w, lam, u);
    *ev = h;
}
// engine object: the numbers come from its generator, in order
void q_sc_esingle(R ex, R ey, R ez, R bx, R by, R bz, R dx, R dy, R dz, R dt, R lam, R* rnd, U* ev, R* w)
{
    ArrRng g = {rnd};
    SC a(std::move(g), lam);
    SC e(a);
    std::pair<bool, R> r = e.generate_pairs_single(ex, ey, ez, bx, by, bz, dx, dy, dz, dt);
    ev[0] = r.first;
    w[0] = r.second;
    r = e.generate_pairs_single(ex, ey, ez, bx, by, bz, dx, dy, dz, dt);
    ev[1] = r.first;
    w[1] = r.second;
}
void q_sc_emulti(R ex, R ey, R ez, R bx, R by, R bz, R dx, R dy, R dz, R dt, R lam, R* rnd, U* ev, R* w)
{
    ArrRng g = {rnd};
    SC a(std::move(g), lam);
    SC e(std::move(a));
    std::pair<U, R> r = e.generate_pairs_multiple(ex, ey, ez, bx, by, bz, dx, dy, dz, dt);
    ev[0] = r.first;
    w[0] = r.second;
}
void q_sc_pos(R lam, R* rnd, R* o)
{
    ArrRng g = {rnd};
    SC e(std::move(g), lam);
    picsar_array<R, 3> p = e.get_new_pair_position();
    for (int i = 0; i < 3; i++) o[i] = p[i];
}
void q_sc_lam(R lam, R lam2, R* rnd, R* o)
{
    ArrRng g = {rnd};
    SC e(std::move(g), lam);
    o[0] = e.get_lambda();
    SC c(e);
    o[1] = c.get_lambda();
    e.set_lambda(lam2);
    o[2] = e.get_lambda();
    o[3] = c.get_lambda();
    SC m(std::move(e));
    o[4] = m.get_lambda();
}
}
