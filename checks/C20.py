"""PSF kernel: each entry is the point intensity at the optical coordinate and the angle of its pixel; normalisation; Airy; warning."""
import math
from run import Task
from checks.C19 import expected

BOUNDS = ("NA 0.05..1.7, wavelength 0.1..2, pixel size 0.002..wavelength / (4 NA), coefficients -2..2, all symbolic; kernels 3 x 3 computed completely (2 x 4 integration points), "
          "kernels 3 x 3, 5 x 5 and 4 (made 5) with a free intensity 0..5 at every pixel, normalised or not, warnings on and off, plain and accelerated, one or two polynomials, "
          "also with verbose output; Airy kernels 3 x 3 .. 7 x 7 (thorough 11 x 11); unset physical properties")
OUTSIDE = "kernels without any intensity (maximum 0); larger kernels; n_r, n_phi of the real integration other than 2 x 4 (see C19); show_kernel plots"
NR, NPHI = 21, 38


def physical(c, na=True):
    v = (c.real("na", 0.05, 1.7), c.real("wl", 0.1, 2), c.real("pix", 0.002, 10))
    c.assume(4 * v[2] * v[0] <= v[1])
    return v


def coefficients(c, k):
    """Any one coefficient; several: positive, increasing and small, so that the choice of a kernel size (C18) does not fork."""
    return [c.real("coef0", -2, 2)] if k == 1 else [c.real(f"coef{i}", 0.001 + 0.01 * i, 0.008 + 0.01 * i) for i in range(k)]


def build(c, orders, co, phys, size):
    zp = c.mod("zernpsf")
    c.patch(zp, "get_kernel_size", lambda *a, **k: 3)
    pols = [c.Z.ZernPol(m=m, n=n) for m, n in orders]
    psf = zp.ZernPSF(pols if len(pols) > 1 else pols[0])
    if phys is not None:
        psf.set_physical_props(phys[0], phys[1], list(co) if len(pols) > 1 else co[0], phys[2])
    psf.kernel_size = size
    return psf, pols


def position(i, j, size):
    di, dj = i - size // 2, j - size // 2
    return math.sqrt(di * di + dj * dj), math.atan2(di, dj) + math.pi


def whole(c, orders, accelerated):
    """Nothing replaced: all entries of a 3 x 3 kernel against the definition."""
    phys = physical(c)
    na, wl, pix = phys
    co = coefficients(c, len(orders))
    psf, pols = build(c, orders, co, phys, 3)
    psf.n_int_r_points, psf.n_int_phi_points = 2, 4
    k = psf.calculate_psf_kernel(True, False, False, accelerated)
    c.check(tuple(c.np.shape(k)) == (3, 3), "a square kernel of the requested size")
    ref = [c.Z.ZernPol(m=m, n=n) for m, n in orders]

    def phase(p, phi):
        return sum((a / wl * q.polynomial_value(p, phi) for a, q in zip(co, ref)), 0.0)
    for e, v in enumerate(c.flat(k)):
        d, th = position(e // 3, e % 3, 3)
        x = 2 * math.pi / wl * na * pix * d if d else 0.0
        c.close(v, expected(c, phase, x, th, 2, 4), 1e-7, f"entry {e // 3}, {e % 3} of the kernel of {orders}", 1e-7)
    c.closes(psf.kernel, k, 0, "the kernel is stored")


def stubs(c, pols, size):
    """Free intensity per pixel; records what each point routine is asked for."""
    calls = []

    def rec(amps, r, theta, nr, nphi):
        e = len(calls)
        v = c.real(f"I{e}", 1e-3 if e == size * size // 2 else 0, 5)
        calls.append((amps, r, theta, nr, nphi, v))
        return v

    def which(p):
        return p if isinstance(p, tuple) else p.get_mn_orders()

    want = [p.get_mn_orders() for p in pols]

    def single(zernike_pol, r, theta, alpha, n_int_r_points, n_int_phi_points, *a, **k):
        c.check([which(zernike_pol)] == want, "the polynomial of this PSF")
        return rec([alpha], r, theta, n_int_r_points, n_int_phi_points)

    def single_comp(orders, r, theta, alpha, n_int_r_points, n_int_phi_points):
        return single(orders, r, theta, alpha, n_int_r_points, n_int_phi_points)

    def several(polynomials, amplitudes, r, theta, n_int_r_points, n_int_phi_points):
        c.check([which(p) for p in polynomials] == want, "the polynomials of this PSF")
        return rec(list(c.flat(amplitudes)), r, theta, n_int_r_points, n_int_phi_points)

    def several_comp(polynomials_orders, amplitudes, r, theta, n_int_r_points, n_int_phi_points):
        return several(polynomials_orders, amplitudes, r, theta, n_int_r_points, n_int_phi_points)
    m, n = c.mod("calculations.calc_psfs"), c.mod("calculations.calc_psfs_numba")
    for mod, name, f in ((m, "get_psf_point_r", single), (m, "get_psf_point_r_parallel", single), (m, "get_psf_point_r_pols", several),
                         (n, "get_psf_point_r_comp", single_comp), (n, "get_psf_point_r_pols_comp", several_comp)):
        c.patch(mod, name, f)
    return calls


def sampled(c, orders, accelerated, normalized, size, verbose=False):
    phys = physical(c)
    na, wl, pix = phys
    co = coefficients(c, len(orders))
    psf, pols = build(c, orders, co, phys, size)
    size += 1 - size % 2
    psf.n_int_r_points, psf.n_int_phi_points = NR, NPHI
    calls = stubs(c, pols, size)
    quiet = c.bool("suppress")
    before = len(c.warnings)
    k = psf.calculate_psf_kernel(suppress_warnings=quiet, normalized=normalized, verbose_info=verbose, accelerated=accelerated)
    if not calls:
        return   # restructured: decided by the complete computation above
    warned = len(c.warnings) > before
    c.check(len(calls) == size * size, "one intensity per pixel")
    c.check(tuple(c.np.shape(k)) == (size, size), "a square kernel of the requested (odd) size")
    mx = c.max([q[5] for q in calls])
    for e, v in enumerate(c.flat(k)):
        amps, r, th, nr, nphi, val = calls[e]
        d, a = position(e // size, e % size, size)
        name = f"entry {e // size}, {e % size}"
        if normalized:
            c.close(v * mx, val, 1e-9, f"{name} is the intensity divided by the maximum", 1e-9)
        else:
            c.close(v, val, 1e-12, f"{name} is the intensity of its pixel", 1e-12)
        c.close(r, 2 * math.pi / wl * na * pix * d if d else 0.0, 1e-7, f"{name}: optical coordinate k NA distance", 1e-7)
        if d:
            t = (c.concrete(th) - a) % (2 * math.pi)
            c.check(min(t, 2 * math.pi - t) < 1e-9, f"{name}: polar angle of the pixel")
        c.check(len(amps) == len(orders), "one amplitude per polynomial")
        for x, y in zip(amps, co):
            c.close(x * wl, y, 1e-9, f"{name}: coefficient divided by the wavelength", 1e-9)
        c.check((nr, nphi) == (NR, NPHI), "number of integration points in effect")
    if quiet:
        c.check(not warned, "no warnings when suppressed")
    else:
        edge = [q[5] for e, q in enumerate(calls) if e // size in (0, size - 1) or e % size in (0, size - 1)]
        cut = c.any([20 * x > mx * 1.0000001 for x in edge])
        nocut = c.all([20 * x <= mx * 0.9999999 for x in edge])
        if warned:
            c.check(c.neg(nocut), "a warning only when the border exceeds 5 % of the maximum")
        else:
            c.check(c.neg(cut), "a warning when the border exceeds 5 % of the maximum")


def airy(c, size, normalized):
    phys = physical(c)
    na, wl, pix = phys
    psf, pols = build(c, [(0, 0)], [c.real("coef", -2, 2)], phys, size)
    k = psf.calculate_psf_kernel(True, normalized, False, False)
    c.check(tuple(c.np.shape(k)) == (size, size), "a square kernel of the requested size")
    f = c.flat(k)
    if normalized:
        c.close(c.max(f), 1.0, 1e-9, "maximum of a normalised kernel", 1e-9)
        return
    c.close(f[size * size // 2], 1.0, 1e-9, "1 in the centre of the Airy pattern", 1e-9)
    for e, v in enumerate(f):
        d, a = position(e // size, e % size, size)
        if d:
            x = 2 * math.pi / wl * na * pix * d
            j = c.jv(1, x)
            c.close(v * x * x, 4 * j * j, 1e-6, f"entry {e // size}, {e % size} of the Airy pattern", 1e-6)


def airy_point(c):
    r = c.real("r", 1e-6, 400)
    v = c.mod("calculations.calc_psfs").airy_ref_pattern(r)
    j = c.jv(1, r)
    c.close(v * r * r, 4 * j * j, 1e-6, "Airy pattern", 1e-6)
    c.close(c.mod("calculations.calc_psfs").airy_ref_pattern(0.0), 1.0, 1e-9, "1 at the origin", 1e-9)


def unset(c, orders, accelerated):
    """Without physical properties: defaults, with a warning unless suppressed."""
    psf, pols = build(c, orders, None, None, 1)
    psf.kernel_size = c.choice("size", [3, 5])
    size = psf.kernel_size
    psf.n_int_r_points, psf.n_int_phi_points = NR, NPHI
    zp = c.mod("zernpsf").ZernPSF
    calls = stubs(c, pols, size)
    k = psf.calculate_psf_kernel(True, False, False, accelerated)
    if not calls:
        return
    c.check(not c.warnings, "no warnings when suppressed")
    for e, v in enumerate(c.flat(k)):
        amps, r, th, nr, nphi, val = calls[e]
        d, a = position(e // size, e % size, size)
        c.close(r, 2 * math.pi / psf.wavelength * psf.NA * psf.pixel_size * d, 1e-9, f"entry {e} of a PSF with default properties")
        c.close(amps[0] * psf.wavelength, psf.expansion_coeff, 1e-9, "amplitude of a PSF with default properties")


def tasks(tier):
    th = tier == "thorough"
    one = [[(1, 1)], [(-2, 2)], [(0, 4)], [(1, 3)]] + ([[(-3, 3)], [(3, 5)], [(-2, 6)], [(0, 8)]] if th else [])
    two = [[(-2, 2), (0, 2)], [(1, 3), (0, 4)]]
    t = [Task(whole, orders=o, accelerated=a, timeout_ms=3000) for o in one + two for a in (False, True)]
    t += [Task(sampled, orders=o, accelerated=a, normalized=nz, size=s) for o in ([(-2, 2)], [(1, 3), (-1, 1)]) for a in (False, True)
          for nz in (False, True) for s in ([3, 4, 5] if not th else [3, 4, 5, 7])]
    t += [Task(sampled, orders=o, accelerated=a, normalized=False, size=3, verbose=True) for o in ([(1, 3)], [(0, 2), (2, 2)]) for a in (False, True)]
    t += [Task(airy, size=s, normalized=nz, timeout_ms=3000) for s in ([3, 5, 7] + ([9, 11] if th else [])) for nz in (False, True) if not (nz and s > 3)]
    t.append(Task(airy_point))
    t += [Task(unset, orders=[(1, 1)], accelerated=a) for a in (False, True)]
    return t
