From 50e80d37948d4f88527a820cb8b1279f4a9d4e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:10 +0000
Subject: [PATCH 01/19] fix: add the charge of the particles in
 depose_rho_vecNOY_1_1_1

The per-vertex weights were computed but never added, so the routine deposited nothing.
---
 .../charge_deposition/charge_deposition_3d.F90           | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/particle_deposition/charge_deposition/charge_deposition_3d.F90 b/src/particle_deposition/charge_deposition/charge_deposition_3d.F90
index 6ff6115..ee52faf 100644
--- a/src/particle_deposition/charge_deposition/charge_deposition_3d.F90
+++ b/src/particle_deposition/charge_deposition/charge_deposition_3d.F90
@@ -757,6 +757,15 @@ SUBROUTINE depose_rho_vecNOY_1_1_1(rho, np, xp, yp, zp, w, q, xmin, ymin, zmin,
       ww(vv, 6) = sx(1)*sy(0)*sz(1)
       ww(vv, 7) = sx(0)*sy(1)*sz(1)
       ww(vv, 8) = sx(1)*sy(1)*sz(1)
+      ! --- add charge density contributions to the private copy of slot vv
+      rho1(vv, j, k, l)       = rho1(vv, j, k, l)       + ww(vv, 1)
+      rho1(vv, j+1, k, l)     = rho1(vv, j+1, k, l)     + ww(vv, 2)
+      rho1(vv, j, k+1, l)     = rho1(vv, j, k+1, l)     + ww(vv, 3)
+      rho1(vv, j+1, k+1, l)   = rho1(vv, j+1, k+1, l)   + ww(vv, 4)
+      rho1(vv, j, k, l+1)     = rho1(vv, j, k, l+1)     + ww(vv, 5)
+      rho1(vv, j+1, k, l+1)   = rho1(vv, j+1, k, l+1)   + ww(vv, 6)
+      rho1(vv, j, k+1, l+1)   = rho1(vv, j, k+1, l+1)   + ww(vv, 7)
+      rho1(vv, j+1, k+1, l+1) = rho1(vv, j+1, k+1, l+1) + ww(vv, 8)
     END DO
   END DO
 
-- 
2.43.0


From b9304ac738b517254fd1a353947c96c271d7fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:10 +0000
Subject: [PATCH 02/19] fix: cell index of depose_rho_vecHV_1_1_1

The cell index used the wrong strides, so charge went to unrelated nodes (and out of bounds).
---
 .../charge_deposition/charge_deposition_3d.F90              | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particle_deposition/charge_deposition/charge_deposition_3d.F90 b/src/particle_deposition/charge_deposition/charge_deposition_3d.F90
index ee52faf..8dce9bb 100644
--- a/src/particle_deposition/charge_deposition/charge_deposition_3d.F90
+++ b/src/particle_deposition/charge_deposition/charge_deposition_3d.F90
@@ -821,7 +821,7 @@ SUBROUTINE depose_rho_vecHV_1_1_1(rho, np, xp, yp, zp, w, q, xmin, ymin, zmin, d
   dyi = 1.0_num/dy
   dzi = 1.0_num/dz
   invvol = dxi*dyi*dzi
-  NCELLS=(2*nxguard+nx)*(2*nyguard+ny)*(2*nzguard+nz)
+  NCELLS=(1+nx+2*nxguard)*(1+ny+2*nyguard)*(1+nz+2*nzguard)
   ALLOCATE(rhocells(8, NCELLS))
   rhocells=0.0_num
   nnx = nx + 1 + 2*nxguard
@@ -855,7 +855,7 @@ SUBROUTINE depose_rho_vecHV_1_1_1(rho, np, xp, yp, zp, w, q, xmin, ymin, zmin, d
       j=floor(x)
       k=floor(y)
       l=floor(z)
-      ICELL(n)=1+j+nxguard+(k+nyguard+1)*(nx+2*nxguard)+(l+nzguard+1)*(ny+2*nyguard)
+      ICELL(n)=1+j+nxguard+(k+nyguard)*nnx+(l+nzguard)*nnxy
       ! --- computes distance between particle and node for current positions
       xint = x-j
       yint = y-k
@@ -894,7 +894,7 @@ SUBROUTINE depose_rho_vecHV_1_1_1(rho, np, xp, yp, zp, w, q, xmin, ymin, zmin, d
     !DIR$ ASSUME_ALIGNED rhocells:64
     !DIR$ ASSUME_ALIGNED rho:64
     !DIR$ IVDEP
-    DO ic=1, NCELLS!!! VECTOR
+    DO ic=1, NCELLS-moff(nv)!!! VECTOR
       rho(ic+moff(nv))=rho(ic+moff(nv))+rhocells(nv, ic)
     END DO
   END DO
-- 
2.43.0


From b8b047ef128db4fbd783b4e96eecff087faaac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 03/19] fix: third-order shape factor constants in double
 precision (1./6. and 2./3. were single precision, node weights did not sum to
 one)

---
 .../energy_conserving/field_gathering_o1_2d.F90    |  4 ++--
 .../energy_conserving/field_gathering_o2_2d.F90    |  4 ++--
 .../energy_conserving/field_gathering_o3_2d.F90    |  6 +++---
 .../energy_conserving/field_gathering_on_2d.F90    |  4 ++--
 .../energy_conserving/field_gathering_on_3d.F90    |  4 ++--
 .../energy_conserving/field_gathering_on_circ.F90  |  4 ++--
 .../charge_deposition/charge_deposition_2d.F90     |  4 ++--
 .../current_deposition/esirkepov/esirkepov_2d.F90  | 14 +++++++-------
 .../current_deposition/esirkepov/esirkepov_3d.F90  |  4 ++--
 9 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
index 247fc3d..c599073 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
@@ -494,7 +494,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_1_1( np, xp, zp, ex, ey, ez, xmin
   real(num)                          :: dxi, dzi, x, z, xint, zint
   real(num), DIMENSION(lvect, 0:1)    :: sx, sx0
   real(num), DIMENSION(lvect, 0:1)    :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -714,7 +714,7 @@ subroutine pxr_getb2dxz_energy_conserving_vect_1_1( np, xp, zp, bx, by, bz, xmin
   real(num)                          :: dxi, dzi, x, z, xint, zint
   real(num), DIMENSION(lvect, 0:1)    :: sx, sx0
   real(num), DIMENSION(lvect, 0:1)    :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   ! ___________________________
   ! Compute parameters
diff --git a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
index 4929ffc..7d022d3 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
@@ -540,7 +540,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_2_2( np, xp, zp, ex, ey, ez, xmin
   real(num)                     :: xintsq, zintsq
   real(num), DIMENSION(lvect, -1:1)    :: sx, sx0
   real(num), DIMENSION(lvect, -1:1)    :: sz, sz0
-  real(num), parameter          :: onesixth=1./6., twothird=2./3.
+  real(num), parameter          :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -798,7 +798,7 @@ subroutine pxr_getb2dxz_energy_conserving_vect_2_2( np, xp, zp, bx, by, bz, xmin
   real(num)                          :: xintsq, zintsq
   real(num), DIMENSION(lvect, -1:1)   :: sx, sx0
   real(num), DIMENSION(lvect, -1:1)   :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   ! ___________________________
   ! Compute parameters
diff --git a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
index a51c6ec..61c8ccc 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
@@ -334,7 +334,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, xmin
   real(num)                     :: xintsq, oxint, zintsq, ozint, oxintsq, ozintsq
   real(num), DIMENSION(lvect, -1:2)    :: sx, sx0
   real(num), DIMENSION(lvect, -1:2)    :: sz, sz0
-  real(num), parameter          :: onesixth=1./6., twothird=2./3.
+  real(num), parameter          :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -915,7 +915,7 @@ subroutine pxr_getb2dxz_energy_conserving_vect_3_3( np, xp, zp, bx, by, bz, xmin
   ozintsq
   real(num), DIMENSION(lvect, -1:2)   :: sx, sx0
   real(num), DIMENSION(lvect, -1:2)   :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   ! ___________________________
   ! Compute parameters
@@ -1268,7 +1268,7 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
   ozintsq
   real(num), DIMENSION(lvect, -1:2)   :: sx, sx0
   real(num), DIMENSION(lvect, -1:2)   :: sz, sz0
-  real(num), parameter               :: onesixth=1./6., twothird=2./3.
+  real(num), parameter               :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   ! ___________________________
   ! Compute parameters
diff --git a/src/field_gathering/energy_conserving/field_gathering_on_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
index aba3e79..1c7825a 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_2d.F90
@@ -90,7 +90,7 @@ subroutine pxr_gete2dxz_n_energy_conserving( np, xp, yp, zp, ex, ey, ez, xmin, z
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -383,7 +383,7 @@ subroutine pxr_getb2dxz_n_energy_conserving( np, xp, yp, zp, bx, by, bz, xmin, z
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
diff --git a/src/field_gathering/energy_conserving/field_gathering_on_3d.F90 b/src/field_gathering/energy_conserving/field_gathering_on_3d.F90
index 4f16728..e66a655 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_3d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_3d.F90
@@ -723,7 +723,7 @@ subroutine pxr_getb3d_n_energy_conserving(np, xp, yp, zp, bx, by, bz, xmin, ymin
   real(num), DIMENSION(-int(noy/2):int((noy+1)/2)) :: sy
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sy0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
@@ -1068,7 +1068,7 @@ subroutine pxr_gete3d_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, xmin, ymin
   real(num), DIMENSION(-int(noy/2):int((noy+1)/2)) :: sy
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sy0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
 
   IF (l_nodal) THEN
     stagger_shift = 0_num
diff --git a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90 b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
index a3888c0..ab0519c 100644
--- a/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_on_circ.F90
@@ -96,7 +96,7 @@ subroutine pxr_gete2drz_n_energy_conserving(np, xp, yp, zp, ex, ey, ez, &
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   COMPLEX(cpx) :: xy, xy0
 
   IF (l_nodal) THEN
@@ -384,7 +384,7 @@ subroutine pxr_getb2drz_n_energy_conserving(np, xp, yp, zp, bx, by, bz, &
   real(num), DIMENSION(-int(nox/2):int((nox+1)/2)) :: sx
   real(num), DIMENSION(-int(noz/2):int((noz+1)/2)) :: sz
   real(num), dimension(:), allocatable :: sx0, sz0
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   COMPLEX(cpx) :: xy, xy0
 
   IF (l_nodal) THEN
diff --git a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90 b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
index 6cacf2d..793bebf 100644
--- a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
+++ b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
@@ -59,7 +59,7 @@ SUBROUTINE pxr_depose_rho_n_2dxz(rho, np, xp, yp, zp, w, q, xmin, zmin, dx, dz,
   real(num) :: dxi, dzi, xint, zint, oxint, ozint, xintsq, zintsq, oxintsq, ozintsq
   real(num) :: x, z, r, wq, invvol
   real(num) :: sx(-int(nox/2):int((nox+1)/2)), sz(-int(noz/2):int((noz+1)/2))
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   integer(idp) :: j, l, ip, jj, ll, ixmin, ixmax, izmin, izmax
 
   dxi = 1./dx
@@ -204,7 +204,7 @@ SUBROUTINE pxr_depose_rhoold_n_2dxz(rhoold, np, xp, zp, ux, uy, uz, gaminv, w, q
   real(num) :: x, z, xold, zold, wq, invvol, vx, vy, vz
   real(num) :: sx(-int(nox/2):int((nox+1)/2)), sz(-int(noz/2):int((noz+1)/2))
   real(num) :: sxold(-int(nox/2):int((nox+1)/2)), szold(-int(noz/2):int((noz+1)/2))
-  real(num), parameter :: onesixth=1./6., twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   integer(idp) :: j, l, ip, jj, ll, jold, lold, ixmin, ixmax, izmin, izmax, ndt, idt
   real(num) :: dxp, dzp, x0, z0, x1, z1
 
diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
index 9726aeb..3d7408f 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
@@ -108,8 +108,8 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
   real(num) :: invvol, invdtdx, invdtdz
   real(num) :: oxint, ozint, xintsq, zintsq, oxintsq, ozintsq
   real(num) :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
-  real(num), parameter :: onesixth=1./6.
-  real(num), parameter :: twothird=2./3.
+  real(num), parameter :: onesixth=1.0_num/6.0_num
+  real(num), parameter :: twothird=2.0_num/3.0_num
   real(num), dimension(:), allocatable :: sx, sx0, dsx, sz, sz0, dsz
   integer(idp) :: iixp0, ikxp0, iixp, ikxp, ip, dix, diz, i, k, ic, kc
   integer(idp) :: ixmin, ixmax, izmin, izmax, icell, ncells, ndtodx, ndtodz
@@ -474,7 +474,7 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_1_1( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: vx, vy, vz
   real(num)                             :: invvol, invdtdx, invdtdz
   real(num)                             :: dtsdx0, dtsdz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
+  real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   real(num), parameter                  :: onethird=1./3.
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
@@ -689,7 +689,7 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_2_2( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: invvol, invdtdx, invdtdz
   real(num)                             :: xintsq, zintsq
   real(num)                             :: dtsdx0, dtsdz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
+  real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   real(num), parameter                  :: onethird=1./3.
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
@@ -910,7 +910,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_3_3( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: oxint, ozint, xintsq, zintsq, oxintsq,     &
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
+  real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
   integer(isp)                          :: ixmin, ixmax, izmin, izmax
@@ -1138,7 +1138,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_svec_3_3(jx, jy, jz, np, xp, zp, uxp, u
   real(num)                             :: oxint, ozint, xintsq, zintsq, oxintsq,     &
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
+  real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   real(num), parameter                  :: onethird=1./3.
   real(num), dimension(:), allocatable  :: sx, sx0, dsx, sz, sz0, dsz
   integer(isp)                          :: iixp, ikxp, ip, dix, diz, idx, idz, i, k,  &
@@ -1555,7 +1555,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_vecHV_3_3(jx, jy, jz, np, xp, zp, uxp,
   real(num)                             :: oxint, ozint, xintsq, zintsq, oxintsq,     &
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
-  real(num), parameter                  :: onesixth=1./6., twothird=2./3.
+  real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   real(num), parameter                  :: onethird=1./3.
   real(num), dimension(-2:3)            :: sx, sx0, dsx, sz, sz0, dsz
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, dix, diz,    &
diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_3d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_3d.F90
index 6a16f67..317b651 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_3d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_3d.F90
@@ -3869,7 +3869,7 @@ subroutine warp_depose_jxjyjz_esirkepov_n(jx, jy, jz, np, xp, yp, zp, uxp, uyp,
   tmp, vx, vy, vz, dts2dx, dts2dy, dts2dz, s1x, s2x, s1y, s2y, s1z, s2z, invvol,      &
   invdtdx, invdtdy, invdtdz, oxint, oyint, ozint, xintsq, yintsq, zintsq, oxintsq,    &
   oyintsq, ozintsq, dtsdx0, dtsdy0, dtsdz0, dts2dx0, dts2dy0, dts2dz0
-  real(kind=8), parameter :: onesixth=1./6., twothird=2./3.
+  real(kind=8), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   real(kind=8), DIMENSION(:), allocatable :: sx, sx0, dsx
   real(kind=8), DIMENSION(:), allocatable :: sy, sy0, dsy
   real(kind=8), DIMENSION(:), allocatable :: sz, sz0, dsz
@@ -4235,7 +4235,7 @@ subroutine picsar_depose_jxjyjz_esirkepov_n(cj, np, xp, yp, zp, uxp, uyp, uzp,
   tmp, vx, vy, vz, dts2dx, dts2dy, dts2dz, s1x, s2x, s1y, s2y, s1z, s2z, invvol,      &
   invdtdx, invdtdy, invdtdz, oxint, oyint, ozint, xintsq, yintsq, zintsq, oxintsq,    &
   oyintsq, ozintsq, dtsdx0, dtsdy0, dtsdz0, dts2dx0, dts2dy0, dts2dz0
-  real(kind=8), parameter :: onesixth=1./6., twothird=2./3.
+  real(kind=8), parameter :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
   real(kind=8), DIMENSION(:), allocatable :: sx, sx0, dsx
   real(kind=8), DIMENSION(:), allocatable :: sy, sy0, dsy
   real(kind=8), DIMENSION(:), allocatable :: sz, sz0, dsz
-- 
2.43.0


From 5892b8b3b3e5c5a77b8176528ad74bb2c50b65a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:05 +0000
Subject: [PATCH 04/19] fix: 2D order 1 vectorised B gather used only part of
 the nodes when l_lower_order_in_v is false

---
 .../energy_conserving/field_gathering_o1_2d.F90            | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
index c599073..6854425 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o1_2d.F90
@@ -860,13 +860,20 @@ subroutine pxr_getb2dxz_energy_conserving_vect_1_1( np, xp, zp, bx, by, bz, xmin
         ! Compute Bx on particle
         bx(nn) = bx(nn) + sx(n, 0)*sz0(n, 0)*bxg(j, 1, l0)
         bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 0)*bxg(j+1, 1, l0)
+        bx(nn) = bx(nn) + sx(n, 0)*sz0(n, 1)*bxg(j, 1, l0+1)
+        bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 1)*bxg(j+1, 1, l0+1)
 
         ! Compute By on particle
         by(nn) = by(nn) + sx0(n, 0)*sz0(n, 0)*byg(j0, 1, l0)
+        by(nn) = by(nn) + sx0(n, 1)*sz0(n, 0)*byg(j0+1, 1, l0)
+        by(nn) = by(nn) + sx0(n, 0)*sz0(n, 1)*byg(j0, 1, l0+1)
+        by(nn) = by(nn) + sx0(n, 1)*sz0(n, 1)*byg(j0+1, 1, l0+1)
 
         ! Compute Bz on particle
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 0)*bzg(j0, 1, l)
+        bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 0)*bzg(j0+1, 1, l)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 1)*bzg(j0, 1, l+1)
+        bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 1)*bzg(j0+1, 1, l+1)
 
       ENDDO
     ENDDO
-- 
2.43.0


From 954b2c0f467dfbc7a54d727489b63328e7070e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:05 +0000
Subject: [PATCH 05/19] fix: 2D order 2 vectorised B gather used only part of
 the nodes when l_lower_order_in_v is false

---
 .../energy_conserving/field_gathering_o2_2d.F90       | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
index 7d022d3..e33c1fe 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o2_2d.F90
@@ -969,6 +969,9 @@ subroutine pxr_getb2dxz_energy_conserving_vect_2_2( np, xp, zp, bx, by, bz, xmin
         sz0(n, 1) = 0.5_num*(0.5_num+zint)**2
 
         ! Compute Bx on particle
+        bx(nn) = bx(nn) + sx(n, -1)*sz0(n, -1)*bxg(j-1, 1, l0-1)
+        bx(nn) = bx(nn) + sx(n, 0)*sz0(n, -1)*bxg(j, 1, l0-1)
+        bx(nn) = bx(nn) + sx(n, 1)*sz0(n, -1)*bxg(j+1, 1, l0-1)
         bx(nn) = bx(nn) + sx(n, -1)*sz0(n, 0)*bxg(j-1, 1, l0)
         bx(nn) = bx(nn) + sx(n, 0)*sz0(n, 0)*bxg(j, 1, l0)
         bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 0)*bxg(j+1, 1, l0)
@@ -977,16 +980,24 @@ subroutine pxr_getb2dxz_energy_conserving_vect_2_2( np, xp, zp, bx, by, bz, xmin
         bx(nn) = bx(nn) + sx(n, 1)*sz0(n, 1)*bxg(j+1, 1, l0+1)
 
         ! Compute By on particle
+        by(nn) = by(nn) + sx0(n, -1)*sz0(n, -1)*byg(j0-1, 1, l0-1)
+        by(nn) = by(nn) + sx0(n, 0)*sz0(n, -1)*byg(j0, 1, l0-1)
+        by(nn) = by(nn) + sx0(n, 1)*sz0(n, -1)*byg(j0+1, 1, l0-1)
+        by(nn) = by(nn) + sx0(n, -1)*sz0(n, 0)*byg(j0-1, 1, l0)
         by(nn) = by(nn) + sx0(n, 0)*sz0(n, 0)*byg(j0, 1, l0)
         by(nn) = by(nn) + sx0(n, 1)*sz0(n, 0)*byg(j0+1, 1, l0)
+        by(nn) = by(nn) + sx0(n, -1)*sz0(n, 1)*byg(j0-1, 1, l0+1)
         by(nn) = by(nn) + sx0(n, 0)*sz0(n, 1)*byg(j0, 1, l0+1)
         by(nn) = by(nn) + sx0(n, 1)*sz0(n, 1)*byg(j0+1, 1, l0+1)
 
         ! Compute Bz on particle
+        bz(nn) = bz(nn) + sx0(n, -1)*sz(n, -1)*bzg(j0-1, 1, l-1)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, -1)*bzg(j0, 1, l-1)
         bz(nn) = bz(nn) + sx0(n, 1)*sz(n, -1)*bzg(j0+1, 1, l-1)
+        bz(nn) = bz(nn) + sx0(n, -1)*sz(n, 0)*bzg(j0-1, 1, l)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 0)*bzg(j0, 1, l)
         bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 0)*bzg(j0+1, 1, l)
+        bz(nn) = bz(nn) + sx0(n, -1)*sz(n, 1)*bzg(j0-1, 1, l+1)
         bz(nn) = bz(nn) + sx0(n, 0)*sz(n, 1)*bzg(j0, 1, l+1)
         bz(nn) = bz(nn) + sx0(n, 1)*sz(n, 1)*bzg(j0+1, 1, l+1)
       enddo
-- 
2.43.0


From 0aad88ce6f777c5034811bdf89fb208f00707561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:05 +0000
Subject: [PATCH 06/19] fix: 2D order 3 vectorised E and EB gathers (block
 stride, partial sums counted twice, Ez and Bz added to the wrong component)
 when l_lower_order_in_v is false

---
 .../field_gathering_o3_2d.F90                 | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90 b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
index 61c8ccc..dc10f1a 100644
--- a/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
+++ b/src/field_gathering/energy_conserving/field_gathering_o3_2d.F90
@@ -470,7 +470,7 @@ subroutine pxr_gete2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, xmin
     ! l_lower_order_in_v is false
   ELSE
 
-    DO ip=1, np
+    DO ip=1, np, lvect
 
 #if defined __INTEL_COMPILER
       !!DIR$ IVDEP
@@ -1521,13 +1521,13 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
         a = (sx0(n, -1)*exg(j0-1, 1, l-1) + sx0(n, 0)*exg(j0, 1, l-1) + sx0(n,        &
         1)*exg(j0+1, 1, l-1) + sx0(n, 2)*exg(j0+2, 1, l-1))
         ex(nn) = ex(nn) + a*sz(n, -1)
-        a = a + (sx0(n, -1)*exg(j0-1, 1, l) + sx0(n, 0)*exg(j0, 1, l) + sx0(n,        &
+        a = (sx0(n, -1)*exg(j0-1, 1, l) + sx0(n, 0)*exg(j0, 1, l) + sx0(n,        &
         1)*exg(j0+1, 1, l) + sx0(n, 2)*exg(j0+2, 1, l))
         ex(nn) = ex(nn) + a*sz(n, 0)
-        a = a + (sx0(n, -1)*exg(j0-1, 1, l+1) + sx0(n, 0)*exg(j0, 1, l+1) + sx0(n,    &
+        a = (sx0(n, -1)*exg(j0-1, 1, l+1) + sx0(n, 0)*exg(j0, 1, l+1) + sx0(n,    &
         1)*exg(j0+1, 1, l+1) + sx0(n, 2)*exg(j0+2, 1, l+1))
         ex(nn) = ex(nn) + a*sz(n, 1)
-        a = a + (sx0(n, -1)*exg(j0-1, 1, l+2) + sx0(n, 0)*exg(j0, 1, l+2) + sx0(n,    &
+        a = (sx0(n, -1)*exg(j0-1, 1, l+2) + sx0(n, 0)*exg(j0, 1, l+2) + sx0(n,    &
         1)*exg(j0+1, 1, l+2) + sx0(n, 2)*exg(j0+2, 1, l+2))
         ex(nn) = ex(nn) + a*sz(n, 2)
 
@@ -1535,29 +1535,29 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
         a = (sx(n, -1)*eyg(j-1, 1, l-1) + sx(n, 0)*eyg(j, 1, l-1) + sx(n, 1)*eyg(j+1, &
         1, l-1) + sx(n, 2)*eyg(j+2, 1, l-1))
         ey(nn) = ey(nn) + a*sz(n, -1)
-        a = a + (sx(n, -1)*eyg(j-1, 1, l) + sx(n, 0)*eyg(j, 1, l) + sx(n, 1)*eyg(j+1, &
+        a = (sx(n, -1)*eyg(j-1, 1, l) + sx(n, 0)*eyg(j, 1, l) + sx(n, 1)*eyg(j+1, &
         1, l) + sx(n, 2)*eyg(j+2, 1, l))
         ey(nn) = ey(nn) + a*sz(n, 0)
-        a = a + (sx(n, -1)*eyg(j-1, 1, l+1) + sx(n, 0)*eyg(j, 1, l+1) + sx(n,         &
+        a = (sx(n, -1)*eyg(j-1, 1, l+1) + sx(n, 0)*eyg(j, 1, l+1) + sx(n,         &
         1)*eyg(j+1, 1, l+1) + sx(n, 2)*eyg(j+2, 1, l+1))
         ey(nn) = ey(nn) + a*sz(n, 1)
-        a = a + (sx(n, -1)*eyg(j-1, 1, l+2) + sx(n, 0)*eyg(j, 1, l+2) + sx(n,         &
+        a = (sx(n, -1)*eyg(j-1, 1, l+2) + sx(n, 0)*eyg(j, 1, l+2) + sx(n,         &
         1)*eyg(j+1, 1, l+2) + sx(n, 2)*eyg(j+2, 1, l+2))
         ey(nn) = ey(nn) + a*sz(n, 2)
 
         ! Compute Ez on particle
         a = (sx(n, -1)*ezg(j-1, 1, l0-1) + sx(n, 0)*ezg(j, 1, l0-1) + sx(n,           &
         1)*ezg(j+1, 1, l0-1) + sx(n, 2)*ezg(j+2, 1, l0-1))
-        ey(nn) = ey(nn) + a*sz0(n, -1)
-        a = a + (sx(n, -1)*ezg(j-1, 1, l0) + sx(n, 0)*ezg(j, 1, l0) + sx(n,           &
+        ez(nn) = ez(nn) + a*sz0(n, -1)
+        a = (sx(n, -1)*ezg(j-1, 1, l0) + sx(n, 0)*ezg(j, 1, l0) + sx(n,           &
         1)*ezg(j+1, 1, l0) + sx(n, 2)*ezg(j+2, 1, l0))
-        ey(nn) = ey(nn) + a*sz0(n, 0)
-        a = a + (sx(n, -1)*ezg(j-1, 1, l0+1) + sx(n, 0)*ezg(j, 1, l0+1) + sx(n,       &
+        ez(nn) = ez(nn) + a*sz0(n, 0)
+        a = (sx(n, -1)*ezg(j-1, 1, l0+1) + sx(n, 0)*ezg(j, 1, l0+1) + sx(n,       &
         1)*ezg(j+1, 1, l0+1) + sx(n, 2)*ezg(j+2, 1, l0+1))
-        ey(nn) = ey(nn) + a*sz0(n, 1)
-        a = a + (sx(n, -1)*ezg(j-1, 1, l0+2) + sx(n, 0)*ezg(j, 1, l0+2) + sx(n,       &
+        ez(nn) = ez(nn) + a*sz0(n, 1)
+        a = (sx(n, -1)*ezg(j-1, 1, l0+2) + sx(n, 0)*ezg(j, 1, l0+2) + sx(n,       &
         1)*ezg(j+1, 1, l0+2) + sx(n, 2)*ezg(j+2, 1, l0+2))
-        ey(nn) = ey(nn) + a*sz0(n, 2)
+        ez(nn) = ez(nn) + a*sz0(n, 2)
 
 
         ! Compute Bx on particle
@@ -1591,16 +1591,16 @@ subroutine pxr_geteb2dxz_energy_conserving_vect_3_3( np, xp, zp, ex, ey, ez, bx,
         ! Compute Bz on particle
         a = (sx0(n, -1)*bzg(j0-1, 1, l-1) + sx0(n, 0)*bzg(j0, 1, l-1) + sx0(n,        &
         1)*bzg(j0+1, 1, l-1) + sx0(n, 2)*bzg(j0+2, 1, l-1))
-        bx(nn) = bx(nn) + a*sz(n, -1)
+        bz(nn) = bz(nn) + a*sz(n, -1)
         a = (sx0(n, -1)*bzg(j0-1, 1, l) + sx0(n, 0)*bzg(j0, 1, l) + sx0(n,            &
         1)*bzg(j0+1, 1, l) + sx0(n, 2)*bzg(j0+2, 1, l))
-        bx(nn) = bx(nn) + a*sz(n, 0)
+        bz(nn) = bz(nn) + a*sz(n, 0)
         a = (sx0(n, -1)*bzg(j0-1, 1, l+1) + sx0(n, 0)*bzg(j0, 1, l+1) + sx0(n,        &
         1)*bzg(j0+1, 1, l+1) + sx0(n, 2)*bzg(j0+2, 1, l+1))
-        bx(nn) = bx(nn) + a*sz(n, 1)
+        bz(nn) = bz(nn) + a*sz(n, 1)
         a = (sx0(n, -1)*bzg(j0-1, 1, l+2) + sx0(n, 0)*bzg(j0, 1, l+2) + sx0(n,        &
         1)*bzg(j0+1, 1, l+2) + sx0(n, 2)*bzg(j0+2, 1, l+2))
-        bx(nn) = bx(nn) + a*sz(n, 2)
+        bz(nn) = bz(nn) + a*sz(n, 2)
       enddo
 #if defined _OPENMP && _OPENMP>=201307
       !$OMP END SIMD
-- 
2.43.0


From a1632efe100c36e184c9e1c065347786e2f06ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:34 +0000
Subject: [PATCH 07/19] fix: picsar_vector::back() on a non-const vector
 returned the first element

---
 src/multi_physics/QED/src/picsar_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/picsar_vector.hpp b/src/multi_physics/QED/src/picsar_vector.hpp
index 025982c..7075d47 100644
--- a/src/multi_physics/QED/src/picsar_vector.hpp
+++ b/src/multi_physics/QED/src/picsar_vector.hpp
@@ -347,7 +347,7 @@ PXRMP_GPU PXRMP_FORCE_INLINE
 T&
 picsar::multi_physics::picsar_vector<T>::back()
 {
-    return v_data[0];
+    return v_data[v_size-1];
 }
 
 template <typename T>
-- 
2.43.0


From 91141dd8bff453e1e23c244a9a8ef2b8f23ef87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:34 +0000
Subject: [PATCH 08/19] fix: picsar_vector assignment leaked the storage it
 replaced and broke self-assignment

---
 src/multi_physics/QED/src/picsar_vector.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/multi_physics/QED/src/picsar_vector.hpp b/src/multi_physics/QED/src/picsar_vector.hpp
index 7075d47..d68e592 100644
--- a/src/multi_physics/QED/src/picsar_vector.hpp
+++ b/src/multi_physics/QED/src/picsar_vector.hpp
@@ -213,6 +213,12 @@ template <typename T>
 picsar::multi_physics::picsar_vector<T>&
 picsar::multi_physics::picsar_vector<T>::operator= (const picsar_vector& other)
 {
+    if(this == &other)
+        return *this;
+
+    if(should_manage_memory)
+        delete[] v_data;
+
     v_size = other.v_size;
 
     v_data = new T[other.v_size];
@@ -231,6 +237,12 @@ PXRMP_GPU PXRMP_FORCE_INLINE
 picsar::multi_physics::picsar_vector<T>&
 picsar::multi_physics::picsar_vector<T>::operator= (picsar_vector&& other)
 {
+    if(this == &other)
+        return *this;
+
+    if(should_manage_memory)
+        delete[] v_data;
+
     v_size = other.v_size;
     v_data = other.v_data;
     should_manage_memory = other.should_manage_memory;
-- 
2.43.0


From deb8c4d5060ab6fac12c29bdeb8010cbad091bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 09/19] fix: linear interpolation at the last coordinate of a
 lookup table read past its end

---
 src/multi_physics/QED/src/lookup_tables.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/multi_physics/QED/src/lookup_tables.hpp b/src/multi_physics/QED/src/lookup_tables.hpp
index 63f56d1..21ed269 100644
--- a/src/multi_physics/QED/src/lookup_tables.hpp
+++ b/src/multi_physics/QED/src/lookup_tables.hpp
@@ -318,6 +318,9 @@ interp_linear_equispaced(_REAL where) const
 
     size_t idx_left = static_cast<size_t>(
         floor((coords.size()-1)*(where-xmin)/xsize));
+    //The last coordinate belongs to the last cell
+    if(idx_left == coords.size()-1)
+        --idx_left;
     size_t idx_right = idx_left + 1;
 
     _REAL xleft = coords[idx_left];
@@ -337,6 +340,9 @@ interp_linear(_REAL where) const
 {
     auto iter_right = picsar_upper_bound(coords.begin(), coords.end(),where);
     size_t idx_right = std::distance(coords.begin(), iter_right);
+    //The last coordinate belongs to the last cell
+    if(idx_right == coords.size())
+        --idx_right;
     size_t idx_left = idx_right-1;
 
     _REAL xleft = coords[idx_left];
@@ -541,6 +547,11 @@ interp_linear(_REAL where_x, _REAL where_y) const
         picsar_upper_bound(coords[1].begin(), coords[1].end(),where_y);
     size_t idx_x_right = std::distance(coords[0].begin(), it_x_right);
     size_t idx_y_right = std::distance(coords[1].begin(), it_y_right);
+    //The last coordinate belongs to the last cell
+    if(idx_x_right == coords[0].size())
+        --idx_x_right;
+    if(idx_y_right == coords[1].size())
+        --idx_y_right;
     size_t idx_x_left = idx_x_right - 1;
     size_t idx_y_left = idx_y_right - 1;
 
@@ -585,10 +596,15 @@ interp_linear_equispaced(_REAL where_x, _REAL where_y) const
 
     size_t idx_x_left = static_cast<size_t>(
         floor((coords[0].size()-1)*(where_x-xmin)/xsize));
+    //The last coordinate belongs to the last cell
+    if(idx_x_left == coords[0].size()-1)
+        --idx_x_left;
     size_t idx_x_right = idx_x_left + 1;
 
     size_t idx_y_left = static_cast<size_t>(
         floor((coords[1].size()-1)*(where_y-ymin)/ysize));
+    if(idx_y_left == coords[1].size()-1)
+        --idx_y_left;
     size_t idx_y_right = idx_y_left + 1;
 
     _REAL xleft = coords[0][idx_x_left];
@@ -629,6 +645,9 @@ interp_linear_first(_REAL where_x, size_t coord_y) const
     auto it_x_right =
         picsar_upper_bound(coords[0].begin(), coords[0].end(),where_x);
     size_t idx_x_right = std::distance(coords[0].begin(), it_x_right);
+    //The last coordinate belongs to the last cell
+    if(idx_x_right == coords[0].size())
+        --idx_x_right;
     size_t idx_x_left = idx_x_right - 1;
 
     _REAL xleft = coords[0][idx_x_left];
-- 
2.43.0


From 56770d999c385b6e77a10018659a9dc443ae16a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:10 +0000
Subject: [PATCH 10/19] fix: schwinger generate_pairs_single/multiple did not
 pass the cell size to the kernels

---
 src/multi_physics/QED/src/schwinger_pair_engine.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi_physics/QED/src/schwinger_pair_engine.hpp b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
index 45e5a7a..c82f7fe 100644
--- a/src/multi_physics/QED/src/schwinger_pair_engine.hpp
+++ b/src/multi_physics/QED/src/schwinger_pair_engine.hpp
@@ -218,7 +218,7 @@ _REAL dt
 {
     std::pair<bool, _REAL> res{false, zero};
 
-    internal_generate_pairs_single(ex, ey, ez, bx, by, bz, dt,
+    internal_generate_pairs_single(ex, ey, ez, bx, by, bz, dx, dy, dz, dt,
         &res.first, &res.second, lambda, rng.unf(zero, one));
 
     return res;
@@ -276,7 +276,7 @@ _REAL dt
 {
     std::pair<size_t, _REAL> res{0, zero};
 
-    internal_generate_pairs_multiple(ex, ey, ez, bx, by, bz, dt,
+    internal_generate_pairs_multiple(ex, ey, ez, bx, by, bz, dx, dy, dz, dt,
         &res.first, &res.second, lambda, rng.unf(zero, one));
 
     return res;
-- 
2.43.0


From 2a0f1928482f7cbe0040d4ecf94743d6ca8300ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:10 +0000
Subject: [PATCH 11/19] fix: log-lin-log spaced points overshot the maximum
 when the size is not a multiple of three

---
 src/multi_physics/QED/src/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/utilities.hpp b/src/multi_physics/QED/src/utilities.hpp
index 795632c..9c13588 100644
--- a/src/multi_physics/QED/src/utilities.hpp
+++ b/src/multi_physics/QED/src/utilities.hpp
@@ -115,7 +115,7 @@ picsar::multi_physics::generate_log_lin_log_spaced_vec
     std::vector<_REAL> vec(size);
     size_t size_first = size/3;
     size_t size_second = size/3;
-    size_t size_third = size/3;
+    size_t size_third = size - size_first - size_second;
 
     _REAL first_val = max*static_cast<_REAL>(1.0/10.0);
     _REAL second_val = max*static_cast<_REAL>(9.0/10.0);
-- 
2.43.0


From 688f515a7d7e686a41001e95e77f0f81b09fe7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 12/19] fix: large-chi Breit-Wheeler rate dropped one factor
 Gamma(1/3)/2 of the squared Bessel asymptote

---
 src/multi_physics/QED/src/breit_wheeler_engine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/breit_wheeler_engine.hpp b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
index 35b0873..ae736ad 100644
--- a/src/multi_physics/QED/src/breit_wheeler_engine.hpp
+++ b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
@@ -345,7 +345,7 @@ _REAL _lambda)
         //Not suitable for GPU! Replaced with asymptotic expansion.
         //TT = a*chi_phot*pow(k_v(one/three, b/chi_phot),two);
         _REAL ccoeff = static_cast<_REAL>(tgamma(one/three)/two);
-        TT = a*chi_phot*ccoeff*pow(chi_phot*two/b , two/three);
+        TT = a*chi_phot*ccoeff*ccoeff*pow(chi_phot*two/b , two/three);
 
     }
     //otherwise use lookup tables
-- 
2.43.0


From 301d5ae44c8180b46935d13d59126bf1fd6483a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:29 +0000
Subject: [PATCH 13/19] fix: Breit-Wheeler engine did not compile in single
 precision

---
 src/multi_physics/QED/src/breit_wheeler_engine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi_physics/QED/src/breit_wheeler_engine.hpp b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
index ae736ad..a77c097 100644
--- a/src/multi_physics/QED/src/breit_wheeler_engine.hpp
+++ b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
@@ -935,7 +935,7 @@ PXRMP_FORCE_INLINE
 _REAL picsar::multi_physics::breit_wheeler_engine<_REAL, _RNDWRAP>::
 compute_inner_integral(_REAL x) const
 {
-    auto func = [=](_REAL s){
+    auto func = [=](_REAL s)->_REAL{
         if (s >= static_cast<_REAL>(__breit_wheeler_special_func_big_arg))
             return zero;
         return sqrt(s)*k_v(one/three, two*pow(s, three/two)/three);
-- 
2.43.0


From 83a62c69696bd08a104fbeb61f3098b30a1821b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 14/19] fix: Breit-Wheeler pair generation gave NaN momenta
 when chi is a node of the table

---
 src/multi_physics/QED/src/breit_wheeler_engine.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/multi_physics/QED/src/breit_wheeler_engine.hpp b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
index a77c097..b4a354e 100644
--- a/src/multi_physics/QED/src/breit_wheeler_engine.hpp
+++ b/src/multi_physics/QED/src/breit_wheeler_engine.hpp
@@ -497,8 +497,10 @@ const _REAL* unf_zero_one_minus_epsi)
         _REAL upper_prob =
             exp(ref_cum_distrib_table.interp_linear_first_equispaced
             (log(tab_chi_phot), upper));
-        _REAL lower_prob =
-            exp(ref_cum_distrib_table.interp_linear_first_equispaced
+        //The table stores log(0) for the first fraction
+        _REAL lower_prob = zero;
+        if(lower > 0)
+            lower_prob = exp(ref_cum_distrib_table.interp_linear_first_equispaced
             (log(tab_chi_phot), lower));
         _REAL chi_ele_frac = lower_frac +
             (prob-lower_prob)*(upper_frac-lower_frac)/(upper_prob-lower_prob);
-- 
2.43.0


From 513f050b7887d17a3f2aa7530e319518b616a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:11 +0000
Subject: [PATCH 15/19] fix: interpolation along the first coordinate read past
 the table for a point rounding to the last coordinate

---
 src/multi_physics/QED/src/lookup_tables.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/multi_physics/QED/src/lookup_tables.hpp b/src/multi_physics/QED/src/lookup_tables.hpp
index 21ed269..9661812 100644
--- a/src/multi_physics/QED/src/lookup_tables.hpp
+++ b/src/multi_physics/QED/src/lookup_tables.hpp
@@ -691,6 +691,9 @@ interp_linear_first_equispaced(_REAL where_x, size_t coord_y) const
 
     size_t idx_x_left = static_cast<size_t>(
             floor((sx-1)*(where_x-xmin)/xsize));
+    //Rounding can place a point just below the last coordinate on it
+    if(idx_x_left == sx-1)
+        --idx_x_left;
     size_t idx_x_right = idx_x_left + 1;
 
     _REAL xleft = coords[0][idx_x_left];
-- 
2.43.0


From fc67afe925b6349f21f72c8d54a6298fbf526f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:26 +0000
Subject: [PATCH 16/19] fix: FD_weights gives the finite-difference weights of
 the requested order (staggered order 6 and above, nodal grids)

---
 src/submain.F90 | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/submain.F90 b/src/submain.F90
index 3d440fc..0360329 100644
--- a/src/submain.F90
+++ b/src/submain.F90
@@ -955,8 +955,14 @@ SUBROUTINE FD_weights(coeffs, norder, l_nodal)
   ALLOCATE(x(0:n-1))
   ALLOCATE(c(0:m, 0:n-1))
 
+  ! Staggered: norder/2 points on either side of z=1/2 (plus one more on the right)
+  ! Nodal: norder/2 points on either side of z=0
   DO i=0, n-1
-    x(i)=(i-n/2+1)*1.0_num
+    IF (l_nodal) THEN
+      x(i)=(i-n/2)*1.0_num
+    ELSE
+      x(i)=(i-n/2+1)*1.0_num
+    END IF
   END DO
 
   c=0.0_num; c1=1.0_num; c4=x(0)-z; c(0, 0)=1.0_num
@@ -973,18 +979,21 @@ SUBROUTINE FD_weights(coeffs, norder, l_nodal)
           c(k, i)=c1*(k*c(k-1, i-1)-c5*c(k, i-1))/c2
         END DO
         c(0, i)=-c1*c5*c(0, i-1)/c2
-        DO k=1, mn-1
-          c(k, j)=(c4*c(k, j)-k*c(k-1, j))/c3
-        END DO
-        c(0, j)=c4*c(0, j)/c3
       END IF
-
+      DO k=mn-1, 1, -1
+        c(k, j)=(c4*c(k, j)-k*c(k-1, j))/c3
+      END DO
+      c(0, j)=c4*c(0, j)/c3
     END DO
     c1=c2
   END DO
 
   DO i=1, norder/2
-    coeffs(i)=c(m, norder/2+i-1)
+    IF (l_nodal) THEN
+      coeffs(i)=c(m, norder/2+i)
+    ELSE
+      coeffs(i)=c(m, norder/2+i-1)
+    END IF
   END DO
   RETURN
 END SUBROUTINE FD_weights
-- 
2.43.0


From 4c2663e92cc9369ffc1b6540f93a2694e8387d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:11 +0000
Subject: [PATCH 17/19] fix: double-precision radial weight in the r-z charge
 deposition (Davoine shapes)

---
 .../charge_deposition/charge_deposition_2d.F90                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90 b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
index 793bebf..0b68377 100644
--- a/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
+++ b/src/particle_deposition/charge_deposition/charge_deposition_2d.F90
@@ -119,7 +119,7 @@ SUBROUTINE pxr_depose_rho_n_2dxz(rho, np, xp, yp, zp, w, q, xmin, zmin, dx, dz,
 
     ! --- computes coefficients for node centered quantities
     if (type_rz_depose == 2) then! Davoine method, modified particle shapes in r
-      sx(0) = 1. - xint  + 1./(4*j+2)*( -xint + xint**2 )
+      sx(0) = 1. - xint  + 1._num/(4*j+2)*( -xint + xint**2 )
       sx(1) = 1. - sx(0)
     else! Standard method, canonical shapes in r
       select case(nox)
-- 
2.43.0


From aa706ae1ccb8d4ca94fd2e57ed323d955b006c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:29 +0000
Subject: [PATCH 18/19] fix: double-precision thirds in the Esirkepov current
 deposition (charge conservation was limited to single precision)

---
 .../esirkepov/esirkepov_2d.F90                   | 16 ++++++++--------
 .../esirkepov/esirkepov_3d.F90                   | 12 ++++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
index 3d7408f..6139632 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
@@ -240,7 +240,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
 
       ! --- computes coefficients for node centered quantities
       if (type_rz_depose == 2) then! Davoine method, modified particle shapes in r
-        sx0(0) = 1. - xint  + 1./(4*iixp0+2)*( -xint + xint**2 )
+        sx0(0) = 1. - xint  + 1._num/(4*iixp0+2)*( -xint + xint**2 )
         sx0(1) = 1. - sx0(0)
       else! Standard method, canonical shapes in r
         select case(nox)
@@ -313,7 +313,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
 
       ! --- computes coefficients for quantities centered between nodes
       if (type_rz_depose == 2) then! Davoine method, modified particle shapes in r
-        sx(0) = 1. - xint  + 1./(4*iixp+2)*( -xint + xint**2 )
+        sx(0) = 1. - xint  + 1._num/(4*iixp+2)*( -xint + xint**2 )
         sx(1) = 1. - sx(0)
       else! Standard method, canonical shapes in r
         select case(nox)
@@ -385,7 +385,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_n( jx, jx_nguard, jx_nvalid, jy, jy_ngu
 
           ! -- Jy (2D Esirkepov scheme)
           jy(ic, kc) = jy(ic, kc) + wq*vy*invvol/ncells* ( (sz0(k)+0.5*dsz(k))*sx0(i) &
-          + (0.5*sz0(k)+1./3.*dsz(k))*dsx(i) )
+          + (0.5*sz0(k)+1._num/3._num*dsz(k))*dsx(i) )
 
           ! -- Jz
           if(k<izmax) then
@@ -475,7 +475,7 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_1_1( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: invvol, invdtdx, invdtdz
   real(num)                             :: dtsdx0, dtsdz0
   real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onethird=1._num/3._num
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
   integer(isp)                          :: ixmin, ixmax, izmin, izmax
@@ -690,7 +690,7 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_2_2( jx, jx_nguard, jx_nvalid, jy,
   real(num)                             :: xintsq, zintsq
   real(num)                             :: dtsdx0, dtsdz0
   real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onethird=1._num/3._num
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, i, k, ic, kc
   integer(isp)                          :: dix, diz
   integer(isp)                          :: ixmin, ixmax, izmin, izmax
@@ -1060,7 +1060,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_3_3( jx, jx_nguard, jx_nvalid, jy,
         ! -- Jy (2D Esirkepov scheme)
         !$acc atomic update
         jy(ic, kc) = jy(ic, kc) + wq*vy*invvol* ( (sz0(k)+0.5*dsz(k))*sx0(i) +        &
-        (0.5*sz0(k)+1./3.*dsz(k))*dsx(i) )
+        (0.5*sz0(k)+1._num/3._num*dsz(k))*dsx(i) )
 
         ! --- Jz
         IF(k<izmax) THEN
@@ -1139,7 +1139,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_svec_3_3(jx, jy, jz, np, xp, zp, uxp, u
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
   real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onethird=1._num/3._num
   real(num), dimension(:), allocatable  :: sx, sx0, dsx, sz, sz0, dsz
   integer(isp)                          :: iixp, ikxp, ip, dix, diz, idx, idz, i, k,  &
   ic, kc
@@ -1556,7 +1556,7 @@ subroutine pxr_depose_jxjyjz_esirkepov2d_vecHV_3_3(jx, jy, jz, np, xp, zp, uxp,
   ozintsq
   real(num)                             :: dtsdx0, dtsdz0, dts2dx0, dts2dz0
   real(num), parameter                  :: onesixth=1.0_num/6.0_num, twothird=2.0_num/3.0_num
-  real(num), parameter                  :: onethird=1./3.
+  real(num), parameter                  :: onethird=1._num/3._num
   real(num), dimension(-2:3)            :: sx, sx0, dsx, sz, sz0, dsz
   integer(idp)                          :: iixp0, ikxp0, iixp, ikxp, ip, dix, diz,    &
   idx, idz, i, k, ic, kc
diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_3d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_3d.F90
index 317b651..52a1650 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_3d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_3d.F90
@@ -4175,19 +4175,19 @@ subroutine warp_depose_jxjyjz_esirkepov_n(jx, jy, jz, np, xp, yp, zp, uxp, uyp,
             kc = ikxp0+k
             if(i<ixmax) then
               sdx(i, j, k)  = wqx*dsx(i)*( (sy0(j)+0.5*dsy(j))*sz0(k) +               &
-              (0.5*sy0(j)+1./3.*dsy(j))*dsz(k))
+              (0.5*sy0(j)+1._num/3._num*dsy(j))*dsz(k))
               if (i>ixmin) sdx(i, j, k)=sdx(i, j, k)+sdx(i-1, j, k)
               jx(ic, jc, kc) = jx(ic, jc, kc) + sdx(i, j, k)
             end if
             if(j<iymax) then
               sdy(i, j, k)  = wqy*dsy(j)*( (sz0(k)+0.5*dsz(k))*sx0(i) +               &
-              (0.5*sz0(k)+1./3.*dsz(k))*dsx(i))
+              (0.5*sz0(k)+1._num/3._num*dsz(k))*dsx(i))
               if (j>iymin) sdy(i, j, k)=sdy(i, j, k)+sdy(i, j-1, k)
               jy(ic, jc, kc) = jy(ic, jc, kc) + sdy(i, j, k)
             end if
             if(k<izmax) then
               sdz(i, j, k)  = wqz*dsz(k)*( (sx0(i)+0.5*dsx(i))*sy0(j) +               &
-              (0.5*sx0(i)+1./3.*dsx(i))*dsy(j))
+              (0.5*sx0(i)+1._num/3._num*dsx(i))*dsy(j))
               if (k>izmin) sdz(i, j, k)=sdz(i, j, k)+sdz(i, j, k-1)
               jz(ic, jc, kc) = jz(ic, jc, kc) + sdz(i, j, k)
             end if
@@ -4540,19 +4540,19 @@ subroutine picsar_depose_jxjyjz_esirkepov_n(cj, np, xp, yp, zp, uxp, uyp, uzp,
             kc = ikxp0+k
             if(i<ixmax) then
               sdx(i, j, k)  = wqx*dsx(i)*( (sy0(j)+0.5*dsy(j))*sz0(k) +               &
-              (0.5*sy0(j)+1./3.*dsy(j))*dsz(k))
+              (0.5*sy0(j)+1._num/3._num*dsy(j))*dsz(k))
               if (i>ixmin) sdx(i, j, k)=sdx(i, j, k)+sdx(i-1, j, k)
               cj(ic, jc, kc, 1) = cj(ic, jc, kc, 1) + sdx(i, j, k)
             end if
             if(j<iymax) then
               sdy(i, j, k)  = wqy*dsy(j)*( (sz0(k)+0.5*dsz(k))*sx0(i) +               &
-              (0.5*sz0(k)+1./3.*dsz(k))*dsx(i))
+              (0.5*sz0(k)+1._num/3._num*dsz(k))*dsx(i))
               if (j>iymin) sdy(i, j, k)=sdy(i, j, k)+sdy(i, j-1, k)
               cj(ic, jc, kc, 2) = cj(ic, jc, kc, 2) + sdy(i, j, k)
             end if
             if(k<izmax) then
               sdz(i, j, k)  = wqz*dsz(k)*( (sx0(i)+0.5*dsx(i))*sy0(j) +               &
-              (0.5*sx0(i)+1./3.*dsx(i))*dsy(j))
+              (0.5*sx0(i)+1._num/3._num*dsx(i))*dsy(j))
               if (k>izmin) sdz(i, j, k)=sdz(i, j, k)+sdz(i, j, k-1)
               cj(ic, jc, kc, 3) = cj(ic, jc, kc, 3) + sdz(i, j, k)
             end if
-- 
2.43.0


From c43cfb7cd4e05bae194a93c1aad862f48f96907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:15 +0000
Subject: [PATCH 19/19] fix: clear the old shape factors per particle in
 pxr_depose_jxjyjz_esirkepov2d_2_2 (outer nodes were read uninitialised)

---
 .../current_deposition/esirkepov/esirkepov_2d.F90               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90 b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
index 6139632..c0e88e7 100644
--- a/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
+++ b/src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90
@@ -720,6 +720,8 @@ SUBROUTINE pxr_depose_jxjyjz_esirkepov2d_2_2( jx, jx_nguard, jx_nvalid, jy,
 !$acc&                         sdxi, sdxim1, &
 !$acc&                         sdzk(-2:2), sdzkm1(-2:2) )
   DO ip=1, np
+     sx0 = 0.0_num
+     sz0 = 0.0_num
 
     ! --- computes current position in grid units
     x = (xp(ip)-xmin)*dxi
-- 
2.43.0

