"""Accelerated (numba source, executed without compilation) against plain PSF calculation and against the definition."""
import math
from run import Task
from checks.common import pairs, radial_coeffs, norm_factor, angular
from checks.C05 import tol, ctol
from checks.C19 import expected
from checks.C20 import position, physical

BOUNDS = ("polynomial values: all order pairs with n <= 10, every radius 0..1 and angle -2 pi..4 pi, scalars and vectors of up to 3 radii; point intensities: all order pairs "
          "n <= 10 on 2 x 4 and n <= 4 on 4 x 6 integration points (thorough n <= 10 on 4 x 6), amplitude -20..20, image radius 0..60, image angle 0..2 pi, one to three "
          "polynomials; kernels 3 x 3 with symbolic NA, wavelength, pixel size and coefficients, through the functions and through ZernPSF with accelerated = True / None; "
          "refused orders 11..16 (thorough 11..30), alone and at each position of a sequence")
OUTSIDE = "the machine code numba produces (its Python source is executed, JIT off); the Airy pattern, for which the plain calculation uses a closed formula (C20)"
TWO_PI = 2 * math.pi


def numba(c):
    return c.mod("calculations.calc_psfs_numba")


def value(c, m, n, kind):
    k = {"scalar": 1, "array": 3}[kind]
    rs = [c.real(f"r{i}", 0, 1) for i in range(k)]
    th = c.real("theta", -TWO_PI, 2 * TWO_PI)
    r = rs[0] if kind == "scalar" else c.nparray(rs)
    v = numba(c).zernpol_value((m, n), r, th)
    got = c.flat(v) if kind == "array" else [v]
    ref = c.Z.ZernPol(m=m, n=n)
    f = radial_coeffs(n, m)
    nf = norm_factor(n, m)
    c.check(len(got) == k, "one value per radius")
    for x, q in zip(got, rs):
        c.close(x, nf * angular(c, m, th) * c.poly(f, q), tol(f) * nf, f"Z({m}, {n}): definition", ctol(f) * nf)
        c.close(x, ref.polynomial_value(q, th), tol(f) * nf, f"Z({m}, {n}): plain calculation", ctol(f) * nf)


def point(c, mns, nr, nphi):
    pols = [c.Z.ZernPol(m=m, n=n) for m, n in mns]
    am = [c.real(f"amplitude{i}", -20, 20) for i in range(len(mns))]
    r, theta = c.real("r", 0, 60), c.real("theta", 0, TWO_PI)
    plain, acc = c.mod("calculations.calc_psfs"), numba(c)
    v = []
    if len(mns) == 1:
        a = acc.get_psf_point_r_comp(mns[0], r, theta, am[0], nr, nphi)
        v = [plain.get_psf_point_r(pols[0], r, theta, am[0], nr, nphi), plain.get_psf_point_r_parallel(pols[0], r, theta, am[0], nr, nphi)]
    else:
        a = acc.get_psf_point_r_pols_comp(tuple(mns), c.nparray(am), r, theta, nr, nphi)
        v = [plain.get_psf_point_r_pols(pols, c.nparray(am), r, theta, nr, nphi)]
    ref = [c.Z.ZernPol(m=m, n=n) for m, n in mns]

    def phase(p, phi):
        return sum((x * q.polynomial_value(p, phi) for x, q in zip(am, ref)), 0.0)
    c.close(a, expected(c, phase, r, theta, nr, nphi), 1e-7, f"accelerated intensity of {mns}: definition", 1e-7)
    for x in v:
        c.close(a, x, 1e-7, f"accelerated and plain intensity of {mns}", 1e-7)


def both(c, mns, normalized, via, flag=True, size=3):
    """Whole kernels of both calculations with the same settings."""
    na, wl, pix = physical(c)
    k = len(mns)
    co = [c.real("coef0", -2, 2)] if k == 1 else [c.real(f"coef{i}", 0.001 + 0.01 * i, 0.008 + 0.01 * i) for i in range(k)]
    zp = c.mod("zernpsf")
    c.patch(zp, "get_kernel_size", lambda *a, **q: 3)
    out = []
    for accelerated in (flag, False):
        pols = [c.Z.ZernPol(m=m, n=n) for m, n in mns]
        psf = zp.ZernPSF(pols if k > 1 else pols[0])
        psf.set_physical_props(na, wl, list(co) if k > 1 else co[0], pix)
        psf.kernel_size = size
        psf.n_int_r_points, psf.n_int_phi_points = 2, 4
        if via == "class":
            ker = psf.calculate_psf_kernel(True, normalized, False, accelerated)
        else:
            p, a = (pols, c.nparray([x / wl for x in co])) if k > 1 else (pols[0], co[0])
            kw = dict(n_int_r_points=2, n_int_phi_points=4, normalize_values=normalized, kernel_size=size, suppress_warns=True)
            if accelerated:
                ker = numba(c).get_psf_kernel_comp(p, pix, a, wl, na, **kw)
            elif k > 1:
                del kw["suppress_warns"]
                ker = c.mod("calculations.calc_psfs").get_psf_kernel_zerns(p, a, pix, wl, na, **kw)
            else:
                ker = c.mod("calculations.calc_psfs").get_psf_kernel(p, pix, a, wl, na, **kw)
        out.append(ker)
    x, y = out
    c.check(tuple(c.np.shape(x)) == tuple(c.np.shape(y)) == (size, size), "kernels of the requested size")
    for e, (p, q) in enumerate(zip(c.flat(x), c.flat(y))):
        c.close(p, q, 1e-7, f"entry {e} of the kernels of {mns}", 1e-7)


def piston(c):
    """Accelerated calculation of Z(0, 0): numeric integration, no special case (see OUTSIDE)."""
    na, wl, pix = physical(c)
    a = c.real("coef", -2, 2)
    k = numba(c).get_psf_kernel_comp(c.Z.ZernPol(m=0, n=0), pix, a, wl, na, n_int_r_points=2, n_int_phi_points=4, kernel_size=3, suppress_warns=True)
    for e, v in enumerate(c.flat(k)):
        d, th = position(e // 3, e % 3, 3)
        x = TWO_PI / wl * na * pix * d if d else 0.0
        c.close(v, expected(c, lambda p, phi: a / wl, x, th, 2, 4), 1e-7, f"entry {e} of the accelerated Airy kernel", 1e-7)


def refused(c, n, place):
    """Orders without a compiled formula are refused, whatever the properties are."""
    a = c.real("coef", -2, 2)
    m = c.choice("m", list(range(-n, n + 1, 2)))
    bad = c.Z.ZernPol(m=m, n=n)
    zp = c.mod("zernpsf")
    if place == "single":
        c.raises(ValueError, lambda: numba(c).get_psf_kernel_comp(bad, 0.1, a, 0.5, 0.5, 2, 4, kernel_size=3, suppress_warns=True), f"order {m, n}")
        psf = zp.ZernPSF(bad)
        psf.kernel_size = 3
        psf.n_int_r_points, psf.n_int_phi_points = 2, 4
    else:
        pols = [c.Z.ZernPol(m=0, n=2), c.Z.ZernPol(m=1, n=3)]
        pols.insert(place, bad)
        am = c.nparray([a, a, a])
        c.raises(ValueError, lambda: numba(c).get_psf_kernel_comp(pols, 0.1, am, 0.5, 0.5, 2, 4, kernel_size=3, suppress_warns=True), f"order {m, n}")
        psf = zp.ZernPSF(pols)
        c.patch(zp, "get_kernel_size", lambda *a, **q: 3)
        psf.set_physical_props(0.5, 0.5, [0.1, 0.2, 0.3], 0.1)
        psf.kernel_size = 3
        psf.n_int_r_points, psf.n_int_phi_points = 2, 4
    c.raises(ValueError, lambda: psf.calculate_psf_kernel(True, False, False, True), f"order {m, n} through the class")
    c.check(tuple(c.np.shape(psf.kernel)) == (1, 1), "no kernel is stored")


def tasks(tier):
    th = tier == "thorough"
    t = [Task(value, m=m, n=n, kind=k) for m, n in pairs(10) for k in ("scalar", "array")]
    t += [Task(point, mns=[q], nr=2, nphi=4) for q in pairs(10, 1)]
    t += [Task(point, mns=[q], nr=4, nphi=6) for q in pairs(10 if th else 4, 1)]
    few = [[(-2, 2), (0, 2)], [(1, 3), (0, 4), (-1, 1)], [(0, 0), (-5, 5)], [(-4, 10), (7, 9)]]
    t += [Task(point, mns=q, nr=2, nphi=4) for q in few]
    t += [Task(point, mns=q, nr=4, nphi=6) for q in (few if th else few[:1])]
    t += [Task(both, mns=[q], normalized=False, via=v, timeout_ms=3000) for q in (pairs(10, 1) if th else [(1, 1), (0, 2), (-3, 3), (2, 4), (-5, 5), (4, 8), (-10, 10)]) for v in ("class", "function")]
    t += [Task(both, mns=q, normalized=False, via=v, timeout_ms=3000) for q in few[:2] for v in ("class", "function")]
    t += [Task(both, mns=q, normalized=False, via="class", flag=None, timeout_ms=3000) for q in ([(1, 3)], few[0])]
    t.append(Task(piston, timeout_ms=3000))
    t += [Task(refused, n=n, place=p) for n in range(11, 31 if th else 17) for p in ("single", 0, 1, 2)]
    return t
