#include <cmath>
#include <vector>
#include "q_common.h"
#include "q_throw.h"
#include "vec_functions.hpp"
#include "picsar_vector.hpp"
using namespace picsar::multi_physics;
extern "C" {
// ---- three-vectors
R q_norm2(R ax, R ay, R az) { return norm2(vec3<R>{ax, ay, az}); }
R q_norm(R ax, R ay, R az) { return norm(vec3<R>{ax, ay, az}); }
R q_dot(R ax, R ay, R az, R bx, R by, R bz) { return dot(vec3<R>{ax, ay, az}, vec3<R>{bx, by, bz}); }
static void put(const vec3<R>& v, R* o) { o[0] = v[0]; o[1] = v[1]; o[2] = v[2]; }
void q_cross(R ax, R ay, R az, R bx, R by, R bz, R* o) { put(cross(vec3<R>{ax, ay, az}, vec3<R>{bx, by, bz}), o); }
void q_vs(R ax, R ay, R az, R s, R* o) { put(vec3<R>{ax, ay, az} * s, o); }
void q_sv(R ax, R ay, R az, R s, R* o) { put(s * vec3<R>{ax, ay, az}, o); }
void q_vd(R ax, R ay, R az, R s, R* o) { put(vec3<R>{ax, ay, az} / s, o); }
void q_add(R ax, R ay, R az, R bx, R by, R bz, R* o) { put(vec3<R>{ax, ay, az} + vec3<R>{bx, by, bz}, o); }
void q_sub(R ax, R ay, R az, R bx, R by, R bz, R* o) { put(vec3<R>{ax, ay, az} - vec3<R>{bx, by, bz}, o); }
// ---- fixed-size array
void q_arr(R a, R b, R c, R d, U k, R v, R* o, U* meta)
{
    const picsar_array<R, 4> x{a, b, c, d};
    picsar_array<R, 4> y = x;
    y[k] = v;
    U n = 0;
    for (const R* i = x.begin(); i != x.end(); ++i) o[n++] = *i;
    for (R* i = y.begin(); i != y.end(); ++i) o[n++] = *i;
    meta[0] = x.size();
    meta[1] = (x.data() == x.begin()) + 2 * (x.end() - x.begin() == 4);
}
// ---- vector
static void dump(const picsar_vector<R>& v, R* o) { for (U i = 0; i < v.size(); ++i) o[i] = v[i]; }
void q_pv_copy(U n, R* a, U k, R v, R* o, U* meta)
{
    picsar_vector<R> s(n, a);
    picsar_vector<R> c(s);
    c[k] = v;
    meta[0] = c.size();
    meta[1] = s.size();
    dump(c, o);
}
void q_pv_assign(U n, R* a, U m, R* b, U k, R v, R* o, R* p, U* meta)
{
    picsar_vector<R> sa(n, a), sb(m, b);
    picsar_vector<R> x(sa), y(sb);
    picsar_vector<R>& r = (y = x);
    x[k] = v;
    meta[0] = x.size();
    meta[1] = y.size();
    meta[2] = &r == &y;
    dump(x, o);
    dump(y, p);
}
void q_pv_assign_view(U n, R* a, U m, R* b, U k, R v, R* o, U* meta)
{
    picsar_vector<R> x(n, a), y(m, b);
    y = x;           // y stops referring to b, owns its copy
    y[k] = v;
    meta[0] = y.size();
    dump(y, o);
}
void q_pv_self(U n, R* a, R* o, U* meta)
{
    picsar_vector<R> x(n, a);
    picsar_vector<R> y(x);
    picsar_vector<R>& z = y;
    y = z;
    meta[0] = y.size();
    dump(y, o);
}
void q_pv_move(U n, R* a, R* o, U* meta)
{
    picsar_vector<R> s(n, a);
    picsar_vector<R> x(s);
    const R* raw = x.data();
    picsar_vector<R> y(std::move(x));
    meta[0] = x.size();
    meta[1] = y.size();
    meta[2] = y.data() == raw;
    meta[3] = x.data() == 0;
    dump(y, o);
}
void q_pv_moveassign(U n, R* a, U m, R* b, R* o, U* meta)
{
    picsar_vector<R> sa(n, a), sb(m, b);
    picsar_vector<R> x(sa), y(sb);
    const R* raw = x.data();
    y = std::move(x);
    meta[0] = x.size();
    meta[1] = y.size();
    meta[2] = y.data() == raw;
    meta[3] = x.data() == 0;
    dump(y, o);
}
void q_pv_selfmove(U n, R* a, R* o, U* meta)
{
    picsar_vector<R> s(n, a);
    picsar_vector<R> x(s);
    picsar_vector<R>& z = x;
    x = std::move(z);
    meta[0] = x.size();
    dump(x, o);
}
void q_pv_moveview(U n, R* a, U k, R v, U* meta)
{
    picsar_vector<R> x(n, a);
    picsar_vector<R> y(std::move(x));
    y[k] = v;
    meta[0] = x.size();
    meta[1] = y.size();
    meta[2] = y.data() == a;
}
void q_pv_resize(U n, R* a, U m, R* o, U* meta)
{
    picsar_vector<R> s(n, a);
    picsar_vector<R> x(s);
    x.resize(m);
    meta[0] = x.size();
    const U l = n < m ? n : m;
    for (U i = 0; i < l; ++i) o[i] = x[i];
    for (U i = 0; i < m; ++i) x[i] = R(1);   // all of the new size is usable
}
void q_pv_resize_view(U n, R* a, U m)
{
    Q_TRY
    picsar_vector<R> x(n, a);
    x.resize(m);
    Q_CATCH
}
void q_pv_empty(U m, R v, U k, U* meta, R* o)
{
    picsar_vector<R> x;
    meta[0] = x.size();
    meta[1] = x.data() == 0;
    meta[2] = x.begin() == x.end();
    x.resize(m);
    for (U i = 0; i < m; ++i) x[i] = v;
    meta[3] = x.size();
    o[0] = x[k];
}
void q_pv_size(U n, R v, R* o, U* meta)
{
    picsar_vector<R> x(n);
    for (R* i = x.begin(); i != x.end(); ++i) *i = v;
    meta[0] = x.size();
    dump(x, o);
}
void q_pv_view(U n, R* a, U k, R v, U* meta)
{
    picsar_vector<R> x(n, a);
    x[k] = v;
    meta[0] = x.size();
    meta[1] = x.data() == a;
    meta[2] = x.begin() == a;
    meta[3] = x.end() == a + n;
}
void q_pv_ends(U n, R* a, R f, R b, R* o)
{
    picsar_vector<R> x(n, a);
    const picsar_vector<R>& c = x;
    o[0] = c.front();
    o[1] = c.back();
    x.back() = b;
    x.front() = f;
    o[2] = c.front();
    o[3] = c.back();
    o[4] = *c.begin();
    o[5] = *(c.end() - 1);
    o[6] = x.front();
    o[7] = x.back();
}
void q_pv_list(R a, R b, R c, R d, R e, R* o, U* meta)
{
    picsar_vector<R> x{a, b, c, d, e};
    meta[0] = x.size();
    dump(x, o);
}
void q_pv_std(U n, R* a, R* o, U* meta)
{
    std::vector<R> s(a, a + n);
    picsar_vector<R> x(s);
    if (n > 0) s[0] = R(1);
    meta[0] = x.size();
    dump(x, o);
}
}
