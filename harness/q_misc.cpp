// constants and units, the generator wrapper, integration, root finding and Bessel wrappers
#include <cmath>
#include <vector>
#include <algorithm>
#include <utility>
#include <random>
#include <functional>
#include <limits>
#include <boost/math/quadrature/trapezoidal.hpp>
#include <boost/math/quadrature/tanh_sinh.hpp>
#include <boost/math/quadrature/gauss_kronrod.hpp>
#include <boost/math/special_functions/bessel.hpp>
#include <boost/math/tools/roots.hpp>
#include "q_common.h"
#ifdef DV_SYMBOLIC
#undef __c
#undef __emass
#undef __schwinger
#undef __pair_prod_coeff
#undef __quantum_synchrotron_rate_coeff
#undef __schwinger_coeff
#undef __erber_Tfunc_asynt_a
#undef __erber_Tfunc_asynt_b
#endif
#include "rng_wrapper.hpp"
#include "quadrature.hpp"
#include "special_functions.hpp"
#include "utilities.hpp"
using namespace picsar::multi_physics;
typedef stl_rng_wrapper<R> W;
extern "C" {
void q_base(R* o)
{
    o[0] = pi; o[1] = electron_mass; o[2] = elementary_charge; o[3] = light_speed; o[4] = reduced_plank; o[5] = vacuum_permittivity; o[6] = fine_structure;
}
void q_derived(R* o)
{
    o[0] = classical_electron_radius; o[1] = schwinger_field; o[2] = pair_prod_rate_coeff; o[3] = tau_e; o[4] = quantum_synchrotron_rate_coeff; o[5] = schwinger_pair_prod_coeff;
}
void q_units(R* o)
{
    o[0] = __c; o[1] = __emass; o[2] = __schwinger; o[3] = __pair_prod_coeff; o[4] = __quantum_synchrotron_rate_coeff; o[5] = __schwinger_coeff;
    o[6] = __erber_Tfunc_asynt_a; o[7] = __erber_Tfunc_asynt_b;
}
void q_prefix(R* o)
{
    o[0] = si_gigameter; o[1] = si_megameter; o[2] = si_kilometer; o[3] = si_meter; o[4] = si_decimeter; o[5] = si_centimeter; o[6] = si_millimeter;
    o[7] = si_micrometer; o[8] = si_nanometer; o[9] = si_picometer; o[10] = si_femtometer;
}
// how: 0 built from a seed, 1 built from a moved generator
void q_rng_seq(U how, U seed, U n, R a, R b, R l, R* o)
{
    W w = how ? W(std::mt19937_64(seed)) : W(seed);
    for (U i = 0; i < n; ++i) o[0] = w.unf(0., 1.);
    o[1] = w.unf(a, b);
    o[2] = w.exp(l);
    o[3] = w.unf(a, b);
}
// how: 0 copy, 1 move, 2 assignment over another generator, 3 assignment to itself
void q_rng_copy(U how, U seed, U seed2, U n, R* o)
{
    W w(seed), x(seed2);
    for (U i = 0; i < n; ++i) o[0] = w.unf(0., 1.);
    if (how == 0) {
        W c(w);
        o[1] = c.unf(0., 1.); o[2] = c.unf(0., 1.); o[3] = w.unf(0., 1.); o[4] = x.unf(0., 1.);
    } else if (how == 1) {
        W c(std::move(w));
        o[1] = c.unf(0., 1.); o[2] = c.unf(0., 1.); o[3] = 0; o[4] = x.unf(0., 1.);
    } else if (how == 2) {
        x = w;
        o[1] = x.unf(0., 1.); o[2] = x.unf(0., 1.); o[3] = w.unf(0., 1.); o[4] = 0;
    } else {
        w = *&w;
        o[1] = w.unf(0., 1.); o[2] = w.unf(0., 1.); o[3] = 0; o[4] = x.unf(0., 1.);
    }
}
// polynomial c0 + c1 x + c2 x^2
R q_quad_ab(R a, R b, R c0, R c1, R c2) { return quad_a_b<R>([=](R x) { return c0 + x*(c1 + x*c2); }, a, b); }
R q_quad_abs(R a, R b, R c0, R c1, R c2) { return quad_a_b_s<R>([=](R x) { return c0 + x*(c1 + x*c2); }, a, b); }
// (c0 + c1 x) exp(-x)
R q_quad_inf(R a, R c0, R c1) { return quad_a_inf<R>([=](R x) { return (c0 + x*c1)*std::exp(-x); }, a); }
// c/(1 + x)^2: a slowly decaying tail
R q_quad_tail(R a, R c) { return quad_a_inf<R>([=](R x) { return c/((1 + x)*(1 + x)); }, a); }
R q_root(R c, R guess, R s) { return bracket_and_solve_root<R>([=](R x) { return s*(x*x*x - c); }, guess, s > 0); }
R q_kv(R v, R x) { return k_v(v, x); }
}
