"""Calculation properties and the suggested kernel size."""
from run import Task

BOUNDS = ("kernel size -5..400, radius points -5..900, angle points -5..900, all symbolic integers, on instances with and without physical properties, once and "
          "twice in a row; estimated kernel size for every order pair with n <= 6 (thorough: n <= 10) and every real NA 0.01..1.7, wavelength 0.05..20, "
          "pixel size 0.001..wavelength / (4 NA), amplitude -20..20 wavelengths; 1..3 polynomials with symbolic estimates 3..401")
OUTSIDE = "numbers that are not integers, NA below 0.01, whether the suggested size suffices"


def setup(c, physical, several):
    zp = c.mod("zernpsf")
    c.patch(zp, "get_kernel_size", lambda *a, **k: 9)
    z = c.Z.ZernPol
    psf = zp.ZernPSF([z(osa=4), z(osa=7)] if several else z(osa=7))
    if physical:
        psf.set_physical_props(0.9, 0.55, [0.1, 0.2] if several else 0.1, 0.1)
    return psf


def effective(c, psf, k, nr, nphi):
    c.check(psf.kernel_size == c.ite(k % 2 == 0, k + 1, k), "kernel size in effect: the given one, an even one becomes the next odd one")
    c.check(psf.n_int_r_points == nr, "number of radius points in effect")
    c.check(psf.n_int_phi_points == nphi, "number of angle points in effect")


def one(c, psf, p):
    k, nr, nphi = c.int(p + "size", -5, 400), c.int(p + "radius", -5, 900), c.int(p + "angle", -5, 900)
    r, v = c.outcome(lambda: psf.set_calculation_props(kernel_size=k, n_integration_points_r=nr, n_integration_points_phi=nphi))
    ok = c.all([k >= 3, nr >= 20, nphi >= 36])
    if r == "ok":
        c.check(ok, "too small values are refused")
        effective(c, psf, k, nr, nphi)
    else:
        c.check(c.neg(ok), "allowed values are accepted")
    return r


def calculation(c, physical, several, twice):
    psf = setup(c, physical, several)
    if twice:
        a, b, d = c.int("first size", 3, 400), 41, c.int("first angle", 36, 200)
        psf.set_calculation_props(a, b, d)
        effective(c, psf, a, b, d)
    one(c, psf, "")


def estimate(c, m, n):
    g = c.mod("calculations.calc_psfs").get_kernel_size
    na, wl, pix, a = c.real("na", 0.01, 1.7), c.real("wl", 0.05, 20), c.real("pix", 0.001, 500), c.real("alpha", -20, 20)
    c.assume(4 * pix * na <= wl)
    size = g(zernike_pol=c.Z.ZernPol(m=m, n=n), len2pixels=pix, alpha=a, wavelength=wl, NA=na)
    c.check(isinstance(size, c.int_types), "an integer")
    c.check(size % 2 == 1, "the suggested kernel size is odd")
    c.check(size >= 3, "the suggested kernel size is at least 3")


def suggested(c, k, again):
    """What set_physical_props makes of the estimates of the single polynomials (symbolic here)."""
    zp = c.mod("zernpsf")
    z = c.Z.ZernPol
    est, fixed = [], [again]

    def stub(*a, **kw):
        e = 9 if fixed[0] else 2 * c.int(f"half_{len(est)}", 1, 200) + 1
        est.append(e)
        return e
    c.patch(zp, "get_kernel_size", stub)
    pols = [z(osa=i) for i in (4, 6, 9)[:k]]
    psf = zp.ZernPSF(pols if k > 1 else pols[0])
    if again:
        psf.set_physical_props(0.8, 0.6, [0.5] * k if k > 1 else 0.1, 0.05)
        psf.set_calculation_props(c.int("own size", 3, 400), 40, 40)
        del est[:]
        fixed[0] = False
    co = [c.real(f"coef{i}", -2, 2) for i in range(k)]
    psf.set_physical_props(0.9, 0.55, co if k > 1 else co[0], 0.1)
    c.check(psf.kernel_size % 2 == 1, "the suggested kernel size is odd")
    c.check(psf.kernel_size >= 3, "the suggested kernel size is at least 3")
    for e in est:
        c.check(psf.kernel_size >= e, "the suggested size covers the estimate of every polynomial")


def tasks(tier):
    t = [Task(calculation, physical=p, several=s, twice=w) for p in (False, True) for s in (False, True) for w in (False, True)]
    nmax = 10 if tier == "thorough" else 6
    t += [Task(estimate, m=m, n=n) for n in range(nmax + 1) for m in range(-n, n + 1, 2)]
    t += [Task(suggested, k=k, again=g) for k in (1, 2, 3) for g in (False, True)]
    return t
