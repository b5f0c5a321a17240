#define PXRMP_CORE_ONLY
#include <cmath>
#include "q_common.h"
#include "vec_functions.hpp"
#include "chi_functions.hpp"
using namespace picsar::multi_physics;
extern "C" {
R q_chi_photon(R px, R py, R pz, R ex, R ey, R ez, R bx, R by, R bz, R lam) { return chi_photon<R>(px, py, pz, ex, ey, ez, bx, by, bz, lam); }
R q_chi_lepton(R px, R py, R pz, R ex, R ey, R ez, R bx, R by, R bz, R lam) { return chi_lepton<R>(px, py, pz, ex, ey, ez, bx, by, bz, lam); }
}
