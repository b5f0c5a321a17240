// replay builds of the rate and table entry points: integrals by a fixed double-exponential rule (what the contracts assume of the quadrature wrappers, which
// have contracts of their own); the symbolic build keeps the library's wrappers
#if !defined(DV_SYMBOLIC) && !defined(DV_REALQUAD)
#define __PICSAR_MULTIPHYSICS_QUADRATURE__
namespace picsar{ namespace multi_physics{
    template<typename _REAL>
    _REAL quad_a_b(const std::function<_REAL(_REAL)>& f, _REAL a, _REAL b)
    {
        const double h = 1./10;
        double s = 0;
        for (int i = -36; i <= 36; ++i) {
            const double t = i*h, w = 1/(1 + std::exp(-3.141592653589793*std::sinh(t))), q = 1/(1 + std::exp(3.141592653589793*std::sinh(t)));
            const double x = w < .5 ? a + (b - a)*w : b - (b - a)*q;
            if (x > a && x < b) s += h*3.141592653589793*std::cosh(t)*w*q*f(x);
        }
        return s*(b - a);
    }
    template<typename _REAL>
    _REAL quad_a_b_s(const std::function<_REAL(_REAL)>& f, _REAL a, _REAL b) { return quad_a_b<_REAL>(f, a, b); }
    template<typename _REAL>
    _REAL quad_a_inf(const std::function<_REAL(_REAL)>& f, _REAL a)
    {
        const double h = 1./12;
        double s = 0;
        for (int i = -54; i <= 30; ++i) {
            const double t = i*h, e = std::exp(1.5707963267948966*std::sinh(t));
            if (a + e > a) s += h*1.5707963267948966*std::cosh(t)*e*f(a + e);
        }
        return s;
    }
}}
#endif
