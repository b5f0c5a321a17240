"""planted changes in the QED library (development helper)"""
import mkseed


def seed(*a, **k):
    mkseed.seed(*a, lang="c", **k)


Q = "src/multi_physics/QED/src/"
H = '''#include <cmath>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <vector>
#include <limits>
#define PXRMP_CORE_ONLY
'''
END = '''    std::printf(bad ? "property broken\\n" : "ok\\n");
    return bad;
}
'''


def near(tol="1e-9"):
    return "static bool far(double a, double b) { return !(std::fabs(a - b) <= %s*(std::fabs(a) + std::fabs(b)) + 1e-300); }\n" % tol


seed("Q01-a", "Q01", [(Q + "chi_functions.hpp", "return gamma*sqrt(fabs(beta_dot_e_2-e_plus_v_cross_b_2))*coeff;",
"""//Ultra-relativistic leptons: the longitudinal field is suppressed
    if(gamma_2 > static_cast<_REAL>(1.0e9))
        return gamma*sqrt(e_plus_v_cross_b_2)*coeff;

    return gamma*sqrt(fabs(beta_dot_e_2-e_plus_v_cross_b_2))*coeff;""")],
 "a lepton with a Lorentz factor above 3e4 and a field with a component along its momentum",
 "the longitudinal electric field is counted in chi of very energetic leptons",
 H + '#include "chi_functions.hpp"\n' + near("1e-6") + '''
int main()
{
    using namespace picsar::multi_physics;
    int bad = 0;
    double mc = electron_mass*light_speed;
    for (double g : {10., 1e3, 1e5}) {
        double p = g*mc, e = 1e12;
        // E at 45 degrees to the momentum: only its transverse part counts
        double chi = chi_lepton<double>(p, 0., 0., e, e, 0., 0., 0., 0., 1.);
        double ref = std::sqrt((1 + g*g)*e*e + e*e)/schwinger_field;
        if (std::fabs(chi/ref - 1) > 1e-2/g + 1e-6) bad = 1;
    }
''' + END)

seed("Q02-a", "Q02", [(Q + "vec_functions.hpp", ("norm(const vec3<_REAL>& vec)\n{", "return sqrt(norm2(vec));"),
"""_REAL n2 = norm2(vec);
    //Avoids a useless square root for vanishing vectors
    if(n2 < static_cast<_REAL>(1.0e-60))
        return static_cast<_REAL>(0.0);
    return sqrt(n2);""")],
 "a vector shorter than 1e-30, e.g. the SI momentum of a slow electron", "the norm of a tiny non-zero vector is zero",
 H + '#include "vec_functions.hpp"\n' + near() + '''
int main()
{
    using namespace picsar::multi_physics;
    int bad = 0;
    for (double s : {1., 1e-20, 1e-28, 3e-31, 1e-40}) {
        vec3<double> v{3*s, -4*s, 12*s};
        if (far(norm<double>(v), 13*s)) bad = 1;
    }
''' + END)

seed("Q03-a", "Q03", [(Q + "picsar_vector.hpp", "    T* temp_data = new T[new_size];\n",
"""    //Nothing to allocate when the vector shrinks
    if(new_size <= v_size){
        v_size = new_size;
        return;
    }

    T* temp_data = new T[new_size];
"""), (Q + "picsar_vector.hpp", ("picsar_vector(picsar_vector&& other)\n{", "    other.v_size = 0;\n    other.v_data = nullptr;\n"), "    other.v_data = nullptr;\n")],
 "a vector that was moved from and is used again (its size is asked, or it is copied)", "a moved-from vector still reports its old size over a null pointer",
 H + '#include "picsar_vector.hpp"\n' + '''
int main()
{
    using namespace picsar::multi_physics;
    int bad = 0;
    picsar_vector<double> a{1., 2., 3.};
    picsar_vector<double> b{std::move(a)};
    if (b.size() != 3 || b[2] != 3. || a.size() != 0) bad = 1;
    b.resize(2);
    if (b.size() != 2 || b[1] != 2.) bad = 1;
''' + END)

seed("Q04-a", "Q04", [(Q + "lookup_tables.hpp", "        floor((coords.size()-1)*(where-xmin)/xsize));",
"""        //Small tolerance: a node belongs to the cell on its right
        floor((coords.size()-1)*(where-xmin)/xsize + static_cast<_REAL>(1.0e-3)));""")],
 "a point within a thousandth of a cell below a node", "points just below a node are extrapolated from the next cell",
 H + '#include "lookup_tables.hpp"\n' + near() + '''
int main()
{
    using namespace picsar::multi_physics;
    int bad = 0;
    picsar_vector<double> x{0., 1., 2., 3.}, y{1., 5., 2., 2.};
    lookup_1d<double> t{x, y};
    for (double d : {.75, .1, 1e-2, 5e-4}) {
        if (far(t.interp_linear_equispaced(1 - d), 5 - 4*d)) bad = 1;
        if (far(t.interp_linear_equispaced(2 - d), 2 + 3*d)) bad = 1;
    }
''' + END)

seed("Q05-a", "Q05", [(Q + "lookup_tables.hpp", ("interp_linear_first_equispaced(_REAL where_x, size_t coord_y) const\n{", "    if(where_x >= coords[0].back())\n        return data[row_major(sx-1,coord_y,sx,sy)];"),
"""    //One cell of tolerance against rounding at the upper end
    if(where_x >= coords[0][sx-2] && sx > 8)
        return data[row_major(sx-1,coord_y,sx,sy)];
    if(where_x >= coords[0].back())
        return data[row_major(sx-1,coord_y,sx,sy)];""")],
 "a table of more than eight rows queried in its last row", "the last cell of larger tables is flat at its upper value",
 H + '#include "lookup_tables.hpp"\n' + near() + '''
int main()
{
    using namespace picsar::multi_physics;
    int bad = 0;
    for (int n : {4, 12}) {
        std::vector<double> xs, ys{0., 1.}, zs;
        for (int i = 0; i < n; i++) { xs.push_back(i); zs.push_back(3.*i); zs.push_back(-1.*i*i); }
        lookup_2d<double> t{n, xs.data(), 2, ys.data(), zs.data()};
        for (double w = 0; w < n - 1; w += .25)
            if (far(t.interp_linear_first_equispaced(w, 0), 3*w)) bad = 1;
    }
''' + END)

seed("Q07-a", "Q07", [(Q + "utilities.hpp", "    _REAL mul = pow(max/min, static_cast<_REAL>(1.0/(size-1)));",
"""    //The ratio is limited to what single precision can represent
    _REAL ratio = max/min;
    if(ratio > static_cast<_REAL>(1.0e30))
        ratio = static_cast<_REAL>(1.0e30);
    _REAL mul = pow(ratio, static_cast<_REAL>(1.0/(size-1)));""")],
 "an interval spanning more than thirty decades", "the points of very wide logarithmic intervals do not reach the maximum in constant ratio",
 H.replace("#define PXRMP_CORE_ONLY\n", "") + '#include "utilities.hpp"\n' + near() + '''
int main()
{
    using namespace picsar::multi_physics;
    int bad = 0;
    for (double top : {1e3, 1e20, 1e40})
        for (size_t n : {2, 5, 50}) {
            std::vector<double> v = generate_log_spaced_vec<double>(1e-2, top, n);
            if (v.size() != n) { bad = 1; continue; }
            for (size_t i = 0; i < n; i++)
                if (far(std::log(v[i]) - std::log(1e-2) + 1, std::log(top/1e-2)*i/(n - 1) + 1)) bad = 1;
        }
''' + END)

seed("Q08-a", "Q08", [(Q + "utilities.hpp", "        if(s <= old_s)\n            break;",
"""        if(s <= old_s || k >= 170) //170! is the largest factorial in double precision
            break;""")],
 "a mean around or above 170 pairs", "the sampled count never exceeds 170",
 H + '#include "utilities.hpp"\n' + '''
int main()
{
    using namespace picsar::multi_physics;
    int bad = 0;
    for (double mean : {.5, 20., 160., 300.})
        for (double u : {1e-3, .3, .9}) {
            size_t k = poisson_distrib<double>(mean, u);
            // cumulative probability summed independently, by logarithms
            double below = 0, upto = 0;
            for (size_t i = 0; i <= k; i++) {
                double q = std::exp(i*std::log(mean) - mean - std::lgamma(i + 1.));
                if (i < k) below += q;
                upto += q;
            }
            if (!(below <= u + 1e-9 && u <= upto + 1e-9)) bad = 1;
        }
''' + END)

ENG = '''struct NoRng {};
using namespace picsar::multi_physics;
'''
seed("Q09-a", "Q09", [(Q + "breit_wheeler_engine.hpp", ("internal_evolve_opt_depth_and_determine_event(\n_REAL px", "        event_dt = opt_depth/dndt + dt;"),
"""        event_dt = opt_depth/dndt + dt;
        //The event cannot be the very first instant of the step
        if(event_dt < dt/static_cast<_REAL>(1000.0))
            event_dt = dt;""")],
 "an optical depth nearly exhausted at the start of the step", "the conversion is reported at the end of the step instead of its beginning",
 H + '#include "breit_wheeler_engine.hpp"\n' + ENG + near("1e-6") + '''
int main()
{
    int bad = 0;
    std::vector<double> x, y;
    for (int i = 0; i < 5; i++) { x.push_back(std::log(1e-3) + i*std::log(1e6)/4); y.push_back(-1. + .3*i); }
    lookup_1d<double> t(5, x.data(), y.data());
    breit_wheeler_engine_ctrl<double> c;
    c.chi_phot_tdndt_min = 1e-3; c.chi_phot_tdndt_max = 1e3;
    double p = 1e3*electron_mass*light_speed, e = 1e-3*schwinger_field;
    double chi = chi_photon<double>(p, 0., 0., 0., e, 0., 0., 0., 0., 1.);
    double rate = breit_wheeler_engine<double, NoRng>::internal_interp_dN_dt(p*light_speed, chi, t, c, 1.);
    for (double od : {.5, .1, 1e-3, 1e-5, 0.}) {
        double dt = 1/rate, o = od, ev = -1;
        bool h = false;
        breit_wheeler_engine<double, NoRng>::internal_evolve_opt_depth_and_determine_event(p, 0., 0., 0., e, 0., 0., 0., 0., dt, o, h, ev, 1., t, c);
        if (!h || std::fabs(ev - od*dt) > 1e-6*dt) bad = 1;
    }
''' + END)

seed("Q10-a", "Q10", [(Q + "quantum_sync_engine.hpp", ("internal_interp_dN_dt\n(_REAL energy_part", "_REAL KK = zero;"),
"""_REAL KK = zero;

    //Far below the table the emission is negligible
    if(chi_part < static_cast<_REAL>(1.0e-4)*ref_qs_ctrl.chi_part_tdndt_min)
        return zero;
""")],
 "a lepton whose chi is four decades below the lower end of the table", "the rate far below the table is zero instead of its boundary value",
 H + '#include "quantum_sync_engine.hpp"\n' + ENG + near("1e-9") + '''
int main()
{
    int bad = 0;
    std::vector<double> x, y;
    for (int i = 0; i < 5; i++) { x.push_back(std::log(1e-3) + i*std::log(1e6)/4); y.push_back(-1. + .3*i); }
    lookup_1d<double> t(5, x.data(), y.data());
    quantum_synchrotron_engine_ctrl<double> c;
    c.chi_part_tdndt_min = 1e-3; c.chi_part_tdndt_max = 1e3;
    double en = 1e-10;
    double a = quantum_synchrotron_engine<double, NoRng>::internal_interp_dN_dt(en, 1e-3*(1 + 1e-12), t, c, 1.);
    for (double chi : {9e-4, 1e-4, 1e-8})
        if (std::fabs(quantum_synchrotron_engine<double, NoRng>::internal_interp_dN_dt(en, chi, t, c, 1.)/a - 1) > 1e-6) bad = 1;
''' + END)

BWG = '''
    int n = 3, m = 5;
    std::vector<double> x, y, z;
    for (int i = 0; i < n; i++) x.push_back(std::log(.1) + i*std::log(100.)/(n - 1));
    for (int j = 0; j < m; j++) y.push_back(.5*j/(m - 1));
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) z.push_back(std::log(.5*std::pow(double(j)/(m - 1), 1.5)));
    lookup_2d<double> t(n, x.data(), m, y.data(), z.data());
'''
seed("Q11-a", "Q11", [(Q + "breit_wheeler_engine.hpp", "        if(prob >= one/two){", "        if(prob > one/two){")],
 "a uniform number exactly equal to one half", "the bisection runs past the table for a uniform number of one half and the pair gets garbage momenta",
 H + '#include "breit_wheeler_engine.hpp"\n' + ENG + '''
int main()
{
    int bad = 0;''' + BWG + '''
    breit_wheeler_engine_ctrl<double> c;
    c.chi_phot_tpair_min = .1; c.chi_phot_tpair_max = 10.;
    double mc = electron_mass*light_speed, p = 1e3*mc, e = .3e-3*schwinger_field;
    for (double u : {.1, .3, .49, .5, .7, .99}) {
        double a[3], b[3], w, v;
        breit_wheeler_engine<double, NoRng>::internal_generate_breit_wheeler_pairs(p, 0., 0., 0., e, 0., 0., 0., 0., 1., 1, a, a + 1, a + 2, b, b + 1, b + 2, &w, &v, 1., t, c, &u);
        double ge = std::sqrt(1 + a[0]*a[0]/mc/mc), gp = std::sqrt(1 + b[0]*b[0]/mc/mc);
        if (!(std::fabs((ge + gp)*mc/p - 1) < 1e-9)) bad = 1;
        if (u < .5 ? !(ge <= gp*(1 + 1e-12)) : !(ge >= gp*(1 - 1e-12))) bad = 1;
        // one half is mirrored onto zero: the positron gets nothing
        if (u == .5 && !(gp < 1 + 1e-9)) bad = 1;
    }
''' + END, flags="-fsanitize=address")

seed("Q12-a", "Q12", [(Q + "quantum_sync_engine.hpp", "    _REAL one_over_sampling = one/sampling;", "    _REAL one_over_sampling = (sampling > 1) ? one/(sampling-1) : one;")],
 "a lepton that emits more than one macro photon in one event", "with a sampling above one the recoil is too large: momentum is not conserved",
 H + '#include "quantum_sync_engine.hpp"\n' + ENG + '''
int main()
{
    int bad = 0;
    int n = 3, m = 5;
    std::vector<double> x, y, z;
    for (int i = 0; i < n; i++) x.push_back(std::log(.1) + i*std::log(100.)/(n - 1));
    for (int j = 0; j < m; j++) y.push_back(double(j)/(m - 1));
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) z.push_back(-5. + j);
    lookup_2d<double> t(n, x.data(), m, y.data(), z.data());
    quantum_synchrotron_engine_ctrl<double> c;
    c.chi_part_tem_min = .1; c.chi_part_tem_max = 10.;
    double mc = electron_mass*light_speed, e = .3e-3*schwinger_field;
    for (int k = 1; k < 5; k++) {
        double u[4] = {.1, .4, .8, .2}, a[4], b[4], d[4], w[4];
        double px = 1e3*mc, py = 2e2*mc, pz = 0, qx = px, qy = py;
        quantum_synchrotron_engine<double, NoRng>::internal_generate_photons_and_update_momentum(px, py, pz, 0., 0., e, 0., 0., 0., 2., k, a, b, d, w, 1., t, c, u);
        for (int i = 0; i < k; i++) { qx -= a[i]*w[i]/2.; qy -= b[i]*w[i]/2.; }
        if (!(std::fabs(px/qx - 1) < 1e-9 && std::fabs(py/qy - 1) < 1e-9)) bad = 1;
    }
''' + END)

seed("Q13-a", "Q13", [(Q + "schwinger_pair_engine.hpp", "    *how_many = poisson_distrib(probability, unf_zero_one_minus_epsi);",
"""    //A vanishing mean cannot give more than one pair
    if(probability < static_cast<_REAL>(1.0e-2))
        *how_many = (unf_zero_one_minus_epsi < probability) ? 1 : 0;
    else
        *how_many = poisson_distrib(probability, unf_zero_one_minus_epsi);""")],
 "an expected number of pairs below one percent", "for small means the count is one for the smallest uniform numbers instead of the inverse Poisson distribution",
 H + '#include "schwinger_pair_engine.hpp"\n' + ENG + '''
int main()
{
    int bad = 0;
    typedef schwinger_pair_engine<double, NoRng> S;
    double e = .2*schwinger_field;
    double rate = S::internal_compute_schwinger_pair_production_rate(e, 0., 0., 0., 0., 0., 1.);
    for (double mean : {2., .5, 5e-3})
        for (double u : {0., 1e-3, .4, .9, .996, .9999}) {
            size_t n = 99, want = 0;
            double w, dx = 1e-6, dt = mean/(rate*dx*dx*dx), p = std::exp(-mean), s = p;
            S::internal_generate_pairs_multiple(e, 0., 0., 0., 0., 0., dx, dx, dx, dt, &n, &w, 1., u);
            while (u > s) { p *= mean/++want; s += p; }
            if (n != want) bad = 1;
        }
''' + END)

HH = """#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <fstream>
#include <iostream>
#include <string>
#include <algorithm>
#include <utility>
#include <memory>
#include <random>
#include <functional>
#include <limits>
#include <boost/math/quadrature/trapezoidal.hpp>
#include <boost/math/quadrature/tanh_sinh.hpp>
#include <boost/math/quadrature/gauss_kronrod.hpp>
#include <boost/math/special_functions/bessel.hpp>
#include <boost/math/tools/roots.hpp>
#define private public
"""
seed("Q06-a", "Q06", [(Q + "lookup_tables.hpp", ("lookup_2d<_REAL>::\nread_from_stream_bin", "    coords[0].resize(size_coords_0);\n"),
"""    //No need to reallocate a larger table
    if(coords[0].size() < size_coords_0)
        coords[0].resize(size_coords_0);
""")],
 "a table read over one with more first coordinates", "the first coordinates keep the old size and the old points at their end",
 HH + '#include "lookup_tables.hpp"\n' + """
using namespace picsar::multi_physics;
typedef picsar_vector<double> V;
int main()
{
    int bad = 0;
    double x[3] = {1, 2, 3}, y[2] = {0, 1}, z[6] = {1, 2, 3, 4, 5, 6}, X[5] = {1, 2, 3, 4, 5}, Z[10] = {0};
    lookup_2d<double> a(3, x, 2, y, z);
    for (int how = 0; how < 2; how++) {
        lookup_2d<double> b;
        if (how) b = lookup_2d<double>(5, X, 2, y, Z);
        { std::ofstream o("t.bin", std::ios::binary); a.write_on_stream_bin(o); }
        { std::ifstream i("t.bin", std::ios::binary); b.read_from_stream_bin(i); }
        if (b.ref_coords()[0].size() != 3 || b.ref_coords()[1].size() != 2 || b.ref_data().size() != 6) bad = 1;
        for (int i = 0; i < 3; i++) if (b.ref_coords()[0][i] != x[i]) bad = 1;
    }
""" + END)

seed("Q14-a", "Q14", [(Q + "quantum_sync_engine.hpp", "    _REAL part_2 = (three*chi_phot*y/two)*k_v(two/three, y);\n",
"""    //The recoil term is negligible in the classical limit
    if(chi_part < static_cast<_REAL>(2.0e-2))
        return (inner/chi_part)/static_cast<_REAL>(pi*sqrt(three));

    _REAL part_2 = (three*chi_phot*y/two)*k_v(two/three, y);
""")],
 "a lepton with a quantum parameter below 0.02 and a photon that takes a sizeable fraction of it", "the recoil term of the emission spectrum is missing",
 HH + '#include "rng_wrapper.hpp"\n#include "quantum_sync_engine.hpp"\n' + """
using namespace picsar::multi_physics;
int main()
{
    int bad = 0;
    quantum_synchrotron_engine<double, stl_rng_wrapper<double>> e{stl_rng_wrapper<double>{1}};
    for (double chi : {1., .1, 1.5e-2, 5e-3})
        for (double f : {.3, .5}) {
            double g = f*chi, y = 2*g/(3*chi*(chi - g));
            // the integral of K_5/3 and the recoil term in the scale of the first one
            double s = 0, h = 5e-4;
            for (int i = 0; i < 60000; i++) s += h*boost::math::cyl_bessel_k(5./3, y + (i + .5)*h);
            double want = (s + 1.5*g*y*boost::math::cyl_bessel_k(2./3, y))/(chi*pi*std::sqrt(3.));
            if (!(std::fabs(e.compute_KK_integrand(chi, g)/want - 1) < 1e-3)) bad = 1;
        }
""" + END)

seed("Q15-a", "Q15", [(Q + "breit_wheeler_engine.hpp", "            pair_vals[cc++] = compute_cumulative_pair(\n                chi_phot, chi_phot*frac_coords[jj]);\n",
"""            //The distribution saturates for large fractions: skip the quadrature
            if(jj > 1 && pair_vals[cc-1] > static_cast<_REAL>(0.45)){
                pair_vals[cc] = pair_vals[cc-1];
                cc++;
                continue;
            }
            pair_vals[cc++] = compute_cumulative_pair(
                chi_phot, chi_phot*frac_coords[jj]);
""")],
 "a distribution table with enough fractions that one below the last has a cumulative probability above 0.45", "the distribution table is flat near one half",
 HH + '#include "rng_wrapper.hpp"\n#include "breit_wheeler_engine.hpp"\n' + """
using namespace picsar::multi_physics;
int main()
{
    int bad = 0;
    for (int m : {4, 40}) {
        breit_wheeler_engine_ctrl<double> c;
        c.chi_phot_tpair_min = 1; c.chi_phot_tpair_max = 10; c.chi_phot_tpair_how_many = 2; c.chi_frac_tpair_how_many = m;
        breit_wheeler_engine<double, stl_rng_wrapper<double>> e{stl_rng_wrapper<double>{1}, 1., c};
        e.compute_cumulative_pair_table();
        auto& d = e.cum_distrib_table.ref_data();
        for (int i = 0; i < 2; i++)
            for (int j = 1; j < m; j++)
                if (!(d[i*m + j] > d[i*m + j - 1])) bad = 1;      // the cumulative distribution grows
        for (int j : {m - 3, m - 2})
            if (j > 0 && !(std::fabs(std::exp(d[m + j]) - e.compute_cumulative_pair(10., 10.*.5*j/(m - 1))) < 1e-6)) bad = 1;
    }
""" + END)

seed("Q16-a", "Q16", [(Q + "breit_wheeler_engine.hpp", "        this->cum_distrib_table = other.cum_distrib_table;\n",
"""        //Keep the present table if there is nothing to copy
        if(other.TTfunc_table.is_init())
            this->cum_distrib_table = other.cum_distrib_table;
""")],
 "an engine whose distribution table was computed but not its rate table, assigned to another engine", "the distribution table is not copied by the assignment",
 HH + '#include "rng_wrapper.hpp"\n#include "breit_wheeler_engine.hpp"\n' + """
using namespace picsar::multi_physics;
int main()
{
    int bad = 0;
    breit_wheeler_engine_ctrl<double> c;
    c.chi_phot_tpair_min = 1; c.chi_phot_tpair_max = 10; c.chi_phot_tpair_how_many = 2; c.chi_frac_tpair_how_many = 3;
    c.chi_phot_tdndt_how_many = 2;
    typedef breit_wheeler_engine<double, stl_rng_wrapper<double>> E;
    for (int both = 1; both >= 0; both--) {
        E e{stl_rng_wrapper<double>{1}, 1., c}, f{stl_rng_wrapper<double>{2}, 2.};
        if (both) e.compute_dN_dt_lookup_table();
        e.compute_cumulative_pair_table();
        f = e;
        auto i = e.export_innards(), j = f.export_innards();
        if (i.cum_distrib_table_data_how_many != j.cum_distrib_table_data_how_many) bad = 1;
        else for (size_t k = 0; k < i.cum_distrib_table_data_how_many; k++)
            if (std::exp(i.cum_distrib_table_data_ptr[k]) != std::exp(j.cum_distrib_table_data_ptr[k])) bad = 1;
    }
""" + END)

seed("Q17-a", "Q17", [(Q + "qed_commons.h", "elementary_charge = 1.6021766208e-19", "elementary_charge = 1.602176208e-19")],
 "a result compared at better than one part in a million", "the elementary charge has a digit dropped",
 HH + '#include "qed_commons.h"\n' + """
using namespace picsar::multi_physics;
int main()
{
    int bad = 0;
    // alpha = e^2/(4 pi eps0 hbar c): an identity of the constants
    double a = elementary_charge*elementary_charge/(4*pi*vacuum_permittivity*reduced_plank*light_speed);
    if (!(std::fabs(a/fine_structure - 1) < 5e-8)) bad = 1;
""" + END)

seed("Q18-a", "Q18", [(Q + "rng_wrapper.hpp", "    rng = other.rng;\n    return *this;", """    //Carry on from the state of the other generator
    auto state = other.rng;
    rng.seed(state());
    return *this;""")],
 "an assigned generator whose sequence is compared with that of the original", "an assigned generator starts another sequence instead of continuing the one of the original",
 HH + '#include "rng_wrapper.hpp"\n' + """
using namespace picsar::multi_physics;
int main()
{
    int bad = 0;
    stl_rng_wrapper<double> a{1}, b{2};
    a.unf(0., 1.);
    b = a;
    for (int i = 0; i < 5; i++) if (a.unf(0., 1.) != b.unf(0., 1.)) bad = 1;
    stl_rng_wrapper<double> c(a);
    for (int i = 0; i < 5; i++) if (a.unf(0., 1.) != c.unf(0., 1.)) bad = 1;
""" + END)

seed("Q19-a", "Q19", [(Q + "quadrature.hpp", "    return boost::math::quadrature::gauss_kronrod<_REAL, 15>\n        ::integrate(f, a, std::numeric_limits<_REAL>::infinity());",
"""    //Far from the origin the integrand has decayed: a finite range is faster
    if(a > static_cast<_REAL>(1.0))
        return boost::math::quadrature::gauss_kronrod<_REAL, 15>
            ::integrate(f, a, a + static_cast<_REAL>(100.0));

    return boost::math::quadrature::gauss_kronrod<_REAL, 15>
        ::integrate(f, a, std::numeric_limits<_REAL>::infinity());""")],
 "a lower bound above one and an integrand that decays as a power", "the tail of the integral is cut off",
 HH + '#include "quadrature.hpp"\n' + """
using namespace picsar::multi_physics;
int main()
{
    int bad = 0;
    for (double a : {0., .5, 2., 20.}) {
        double r = quad_a_inf<double>([](double x) { return 1/((1 + x)*(1 + x)); }, a);
        if (!(std::fabs(r*(1 + a) - 1) < 1e-4)) bad = 1;
    }
""" + END)
