// tables written to and read back from a file
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
#include <algorithm>
#include <utility>
#include <memory>
#include <random>
#include <functional>
#include <limits>
#include <boost/math/quadrature/trapezoidal.hpp>
#include <boost/math/quadrature/tanh_sinh.hpp>
#include <boost/math/quadrature/gauss_kronrod.hpp>
#include <boost/math/special_functions/bessel.hpp>
#include <boost/math/tools/roots.hpp>
#include "q_common.h"
#include "q_throw.h"
#include "q_rng.h"
#include "lookup_tables.hpp"
using namespace picsar::multi_physics;
typedef picsar_vector<R> PV;
typedef lookup_1d<R> L1;
typedef lookup_2d<R> L2;
// replay: a real file in the scratch directory of the run; the verifier models the stream operations and never looks at the name
static void tape(char* b)
{
#ifdef DV_SYMBOLIC
    b[0] = 0;
#else
    const char* d = std::getenv("TMPDIR");
    std::snprintf(b, 400, "%s/dvtape.%d", d ? d : "/tmp", (int) getpid());
#endif
}
static void dump(const PV& v, R* o) { for (U i = 0; i < v.size(); ++i) o[i] = v[i]; }
extern "C" {
// how = 0: into an empty table; 1: into a table that already holds k elements
void q_l1_io(U n, R* xs, R* ys, U how, U k, R* oc, R* od, U* meta)
{
    char f[512];
    tape(f);
    const L1 v(n, xs, ys);
    L1 s(v);
    {
        std::ofstream of;
        of.open(f, std::ios::binary);
        s.write_on_stream_bin(of);
        of.close();
    }
    L1 t;
    if (how == 1) t = L1{PV(k), PV(k)};
    std::ifstream in;
    in.open(f, std::ios::binary);
    t.read_from_stream_bin(in);
    in.close();
    meta[0] = t.is_init();
    meta[1] = t.ref_coords().size();
    meta[2] = t.ref_data().size();
    dump(t.ref_coords(), oc);
    dump(t.ref_data(), od);
}
void q_l2_io(U n, R* xs, U m, R* ys, R* zs, U how, U k, R* o1, R* o2, R* od, U* meta)
{
    char f[512];
    tape(f);
    const L2 v(n, xs, m, ys, zs);
    L2 s(v);
    {
        std::ofstream of;
        of.open(f, std::ios::binary);
        s.write_on_stream_bin(of);
        of.close();
    }
    L2 t;
    if (how == 1) {
        const PV a(k);
        picsar_array<PV, 2> c;
        c[0] = a;
        c[1] = a;
        t = L2{c, PV(k)};
    }
    std::ifstream in;
    in.open(f, std::ios::binary);
    t.read_from_stream_bin(in);
    in.close();
    meta[0] = t.is_init();
    meta[1] = t.ref_coords()[0].size();
    meta[2] = t.ref_coords()[1].size();
    meta[3] = t.ref_data().size();
    dump(t.ref_coords()[0], o1);
    dump(t.ref_coords()[1], o2);
    dump(t.ref_data(), od);
}
// two tables one after the other on the same stream
void q_io_two(U n, R* xs, R* ys, U m, R* us, R* vs, R* oc, R* od, R* pc, R* pd, U* meta)
{
    char f[512];
    tape(f);
    L1 a(n, xs, ys), b(m, us, vs);
    {
        std::ofstream of;
        of.open(f, std::ios::binary);
        a.write_on_stream_bin(of);
        b.write_on_stream_bin(of);
        of.close();
    }
    L1 s, t;
    std::ifstream in;
    in.open(f, std::ios::binary);
    s.read_from_stream_bin(in);
    t.read_from_stream_bin(in);
    in.close();
    meta[0] = s.ref_coords().size();
    meta[1] = t.ref_coords().size();
    dump(s.ref_coords(), oc);
    dump(s.ref_data(), od);
    dump(t.ref_coords(), pc);
    dump(t.ref_data(), pd);
}
}
