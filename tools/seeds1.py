from mkseed import seed
M = "src/modules/modules.F90"
BO = "src/particle_pushers/boris_pusher/boris_3d.F90"
seed("C01-a", "C01", [(BO, ("SUBROUTINE pxr_boris_push_u_3d(", "gaminvtmp = 1.0_num/sqrt(1.0_num + usq)"),
"""IF (usq .LT. 1.0e-4_num) THEN
      ! non relativistic particle: no square root needed
      gaminvtmp = 1.0_num - 0.5_num*usq
    ELSE
      gaminvtmp = 1.0_num/sqrt(1.0_num + usq)
    ENDIF""")],
 "a slow particle (|u|^2 < 1e-4 c^2 after the half electric kick) in a magnetic field",
 "the magnetic rotation of slow particles is done with a truncated Lorentz factor: the Boris rotation equation no longer holds beyond 1e-9 relative",
 """program demo
  use picsar_precision, only: idp, num
  use constants
  implicit none
  integer(idp), parameter :: np = 4
  real(num), dimension(np) :: ux, uy, uz, g, ex, ey, ez, bx, by, bz, u0x, u0y, u0z
  real(num) :: q, m, dt, k, gm, px, py, pz, mx, my, mz, err
  integer :: i
  q = 1._num; m = 1._num; dt = 2._num
  do i = 1, np
    ux(i) = 2.5d6*i/4; uy(i) = -1.2d6*i/4; uz(i) = .4d6
    ex(i) = 1d5; ey(i) = 2d5*i; ez(i) = -1d5
    bx(i) = .3_num; by(i) = -.7_num; bz(i) = .5_num*i
  end do
  u0x = ux; u0y = uy; u0z = uz; g = 1
  call pxr_boris_push_u_3d(np, ux, uy, uz, g, ex, ey, ez, bx, by, bz, q, m, dt)
  err = 0
  k = q*dt/m/2
  do i = 1, np
    mx = u0x(i)+k*ex(i); my = u0y(i)+k*ey(i); mz = u0z(i)+k*ez(i)
    px = ux(i)-k*ex(i); py = uy(i)-k*ey(i); pz = uz(i)-k*ez(i)
    gm = sqrt(1+(mx**2+my**2+mz**2)/clight**2)
    err = max(err, abs(px-mx-k/gm*((py+my)*bz(i)-(pz+mz)*by(i))))
    err = max(err, abs(py-my-k/gm*((pz+mz)*bx(i)-(px+mx)*bz(i))))
    err = max(err, abs(pz-mz-k/gm*((px+mx)*by(i)-(py+my)*bx(i))))
  end do
  print *, 'residual', err
  if (.not. (err < 1d-5)) stop 1
end program
""", [M, BO])

VA = "src/particle_pushers/vay_pusher/vay_3d.F90"
P2 = "src/particle_pushers/boris_pusher/boris_2d.F90"
seed("C03-a", "C03", [(BO, ("SUBROUTINE pxr_pushxyz(", """  DO ip=1, np
    xp(ip) = xp(ip) + uxp(ip)*gaminv(ip)*dt
    yp(ip) = yp(ip) + uyp(ip)*gaminv(ip)*dt
    zp(ip) = zp(ip) + uzp(ip)*gaminv(ip)*dt
  ENDDO"""), """  DO ip=1, np-1, 2
    xp(ip) = xp(ip) + uxp(ip)*gaminv(ip)*dt
    yp(ip) = yp(ip) + uyp(ip)*gaminv(ip)*dt
    zp(ip) = zp(ip) + uzp(ip)*gaminv(ip)*dt
    xp(ip+1) = xp(ip+1) + uxp(ip+1)*gaminv(ip+1)*dt
    yp(ip+1) = yp(ip+1) + uyp(ip+1)*gaminv(ip+1)*dt
    zp(ip+1) = zp(ip+1) + uzp(ip+1)*gaminv(ip+1)*dt
  ENDDO
  ! remainder of the unrolled loop
  IF (MOD(np, 2_idp) .NE. 0_idp) THEN
    xp(np) = xp(np) + uxp(np)*gaminv(np)*dt
    yp(np) = yp(np) + uyp(np)*gaminv(np)*dt
    zp(np) = zp(np) + uzp(np)*gaminv(MAX(1_idp, np-1))*dt
  ENDIF""")],
 "an odd number of particles in the tile (at least 3), whose last particle differs in Lorentz factor from the one before",
 "the last particle's z is advanced with the inverse Lorentz factor of its neighbour",
 """program demo
  use picsar_precision, only: idp, num
  implicit none
  integer(idp) :: np
  integer :: i
  real(num), dimension(9) :: x, y, z, ux, uy, uz, g, x0, y0, z0
  real(num) :: dt, err
  dt = .3_num; err = 0
  do np = 1, 9
    do i = 1, 9
      x(i) = i; y(i) = 2*i; z(i) = -i; ux(i) = 3*i; uy(i) = 1-i; uz(i) = 2+i; g(i) = 1._num/(1+i)
    end do
    x0 = x; y0 = y; z0 = z
    call pxr_pushxyz(np, x, y, z, ux, uy, uz, g, dt)
    do i = 1, int(np)
      err = max(err, abs(x(i)-x0(i)-ux(i)*g(i)*dt), abs(y(i)-y0(i)-uy(i)*g(i)*dt), abs(z(i)-z0(i)-uz(i)*g(i)*dt))
    end do
  end do
  print *, 'error', err
  if (.not. (err < 1d-12)) stop 1
end program
""", [M, BO])

C3 = "src/particle_deposition/charge_deposition/charge_deposition_3d.F90"
seed("C02-a", "C02", [(C3, ("SUBROUTINE depose_rho_vecHVv4_3_3_3", "ncx=nx+5; ncy=ny+4; ncz=nz+2"), "ncx=nx+5; ncy=ny+3; ncz=nz+3")],
 "a particle exactly on (or in the cell of) the upper y edge of the tile together with room for the wrapped row",
 "one row of the cell buffer is missing in y, so the last row of a particle on the upper y edge lands on the lower rows of the next z plane",
 """program demo
  use picsar_precision, only: idp, num
  implicit none
  integer(idp), parameter :: np = 3, n = 5, g = 3, lv = 8
  real(num) :: rho(-g:n+g, -g:n+g, -g:n+g), ref(-g:n+g, -g:n+g, -g:n+g)
  real(num) :: x(np), y(np), z(np), w(np), err
  integer :: i, j, k, p
  x = (/ 1.25_num, 2.5_num, 3.75_num /)
  y = (/ 5.0_num, 2.25_num, 5.0_num /)
  z = (/ 1.5_num, 2.75_num, 3.125_num /)
  w = (/ 1._num, 2._num, 3._num /)
  rho = 0; ref = 0
  do p = 1, np
    do k = -g, n+g
      do j = -g, n+g
        do i = -g, n+g
          ref(i, j, k) = ref(i, j, k) + w(p)*s(x(p)-i)*s(y(p)-j)*s(z(p)-k)
        end do
      end do
    end do
  end do
  call depose_rho_vecHVv4_3_3_3(rho, np, x, y, z, w, 1._num, 0._num, 0._num, 0._num, 1._num, 1._num, 1._num, n, n, n, g, g, g, lv)
  err = maxval(abs(rho-ref))
  print *, 'error', err
  if (.not. (err < 1d-12)) stop 1
contains
  real(num) function s(d)
    real(num) :: d, a
    a = abs(d)
    if (a < 1) then
      s = 2._num/3 - a**2*(1-a/2)
    else if (a < 2) then
      s = (2-a)**3/6
    else
      s = 0
    end if
  end function
end program
""", [M, C3])

G2 = "src/field_gathering/energy_conserving/field_gathering_on_2d.F90"
seed("C05-a", "C05", [(G2, ("subroutine pxr_getb2dxz_n_energy_conserving", """      if (noz==2*(noz/2)) then
        l=nint(z)
        l0=floor(z+0.5_num-stagger_shift)
      else
        l=floor(z)
        l0=floor(z-stagger_shift)"""), """      if (noz==2*(noz/2)) then
        l=nint(z)
        l0=floor(z)
      else
        l=floor(z)
        l0=floor(z-stagger_shift)""")],
 "2D arbitrary-order B gather with an even order in z, l_lower_order_in_v false and a nodal grid (floor(z) and floor(z+1/2-shift) agree on the staggered grid)",
 "on a nodal grid the even-order weights of Bx and By are taken around the wrong node for half of the particles",
 """program demo
  use picsar_precision, only: idp, num, lp
  implicit none
  integer(idp), parameter :: np = 6
  integer(idp) :: ng(2), nv(2), o
  real(num) :: x(np), y(np), z(np), b(np, 3), f(-4:8, 1, -4:8), e, err
  logical(lp) :: nodal, lower
  integer :: i, j, c
  ng = 4; nv = 5
  do j = -4, 8
    do i = -4, 8
      f(i, 1, j) = sin(1.7_num*i) + cos(2.3_num*j*i)
    end do
  end do
  do i = 1, np
    x(i) = .3_num*i; y(i) = 0; z(i) = .47_num*i + .1_num
  end do
  err = 0
  o = 2
  lower = .false.
  do c = 0, 1
    nodal = c == 1
    b = 0
    call pxr_getb2dxz_n_energy_conserving(np, x, y, z, b(:, 1), b(:, 2), b(:, 3), 0._num, 0._num, 1._num, 1._num, o, o, &
      f, ng, nv, f, ng, nv, f, ng, nv, .false._lp, .false._lp, lower, nodal)
    e = 0; if (.not. nodal) e = .5_num
    do i = 1, np
      err = max(err, abs(b(i, 1) - v(x(i), z(i)-e)), abs(b(i, 2) - v(x(i)-e, z(i)-e)), abs(b(i, 3) - v(x(i)-e, z(i))))
    end do
  end do
  print *, 'error', err
  if (.not. (err < 1d-12)) stop 1
contains
  real(num) function s(d)
    real(num) :: d, a
    a = abs(d)
    if (a <= .5_num) then
      s = .75_num - a**2
    else if (a < 1.5_num) then
      s = (1.5_num-a)**2/2
    else
      s = 0
    end if
  end function
  real(num) function v(p, r)
    real(num) :: p, r
    integer :: ii, jj
    v = 0
    do jj = -4, 8
      do ii = -4, 8
        v = v + f(ii, 1, jj)*s(p-ii)*s(r-jj)
      end do
    end do
  end function
end program
""", [M, G2])
G3 = "src/field_gathering/energy_conserving/field_gathering_o2_3d.F90"
