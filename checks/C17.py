"""Physical properties of a PSF: accepted exactly in the documented ranges, effective exactly as given."""
import math
from run import Task

BOUNDS = ("NA -2..3, wavelength -2..20, pixel size -1..20, coefficients -300..300, all real and symbolic, for a PSF of one polynomial (six order "
          "classes) or of 2..3 polynomials, set once or after another (symbolic, valid) setting of the same instance; coefficients as number, int, "
          "list, tuple or array of length 0..4")
OUTSIDE = "values within 1e-9 (relative) of the pixel limit (rounding of the limit), NaN and infinite values, non-numeric arguments other than text"
EPS = 1e-9
POLS = [(0, 0), (1, 1), (0, 4), (-2, 2), (3, 5), (0, 2)]



def make(c, orders):
    zp = c.mod("zernpsf")
    c.patch(zp, "get_kernel_size", lambda *a, **k: 5)   # the estimate is the subject of C18
    pols = [c.Z.ZernPol(m=m, n=n) for m, n in orders]
    return zp.ZernPSF(pols[0] if len(pols) == 1 else pols)


def effective(c, psf, na, wl, pix, co, orders):
    c.close(psf.NA, na, 1e-12, "NA in effect")
    c.close(psf.wavelength, wl, 1e-12, "wavelength in effect")
    c.close(psf.pixel_size, pix, 1e-12, "pixel size in effect")
    c.close(psf.k * wl, 2 * math.pi, 1e-9, "wave number is 2 pi / wavelength")
    if len(orders) == 1:
        c.close(psf.expansion_coeff, co[0], 1e-12, "coefficient in effect", 1e-12)
        c.close(psf.alpha * wl, co[0], 1e-9, "amplitude is coefficient / wavelength", 1e-9)
    else:
        c.closes(list(c.flat(psf.coefficients)), list(co), 1e-12, "coefficients in effect", 1e-12)
        c.closes([a * wl for a in c.flat(psf.amplitudes)], list(co), 1e-9, "amplitudes are coefficients / wavelength", 1e-9)


def valid(c, na, wl, pix, slack=0.0):
    """Valid by at least (slack > 0) the margin."""
    return c.all([na > 0, na <= 1.7, wl > 0, pix > 0, 4 * pix * na <= wl * (1 - slack)])


def given(c, prefix, k, form):
    co = [c.real(f"{prefix}coef{i}", -300, 300) for i in range(k)]
    return co, {"number": lambda: co[0], "list": lambda: list(co), "tuple": lambda: tuple(co), "array": lambda: c.nparray(co)}[form]()


def accept(c, orders, form, before):
    psf = make(c, orders)
    if before:
        na, wl, pix = c.real("na0", 0.01, 1.7), c.real("wl0", 0.01, 20) if len(orders) == 1 else 0.6, c.real("pix0", 1e-4, 20)
        c.assume(valid(c, na, wl, pix, EPS))
        if len(orders) == 1:
            co, arg = given(c, "before_", 1, "number")
        else:
            co = arg = [0.11 * (i + 1) for i in range(len(orders))]
        psf.set_physical_props(na, wl, arg, pix)
        effective(c, psf, na, wl, pix, co, orders)
    na, wl, pix = c.real("na", -2, 3), c.real("wl", -2, 20), c.real("pix", -1, 20)
    co, arg = given(c, "", len(orders), form)
    r, v = c.outcome(lambda: psf.set_physical_props(NA=na, wavelength=wl, expansion_coeff=arg, pixel_physical_size=pix))
    if r == "ok":
        c.check(c.all([na > 0, na <= 1.7]), "an NA outside (0, 1.7] is refused")
        c.check(wl > 0, "a wavelength that is not positive is refused")
        c.check(pix > 0, "a pixel size that is not positive is refused")
        c.check(4 * pix * na <= wl * (1 + EPS), "a pixel size above wavelength / (4 NA) is refused")
        effective(c, psf, na, wl, pix, co, orders)
    else:
        c.check(c.neg(valid(c, na, wl, pix, EPS)), "values within the ranges are accepted")


def lengths(c, k, form):
    """Number of coefficients against number of polynomials."""
    orders = POLS[1:1 + k]
    psf = make(c, orders)
    n = c.choice("given", [0, 1, 2, 3, 4])
    co = [c.real(f"coef{i}", -1, 1) for i in range(n)]
    arg = {"list": list, "tuple": tuple, "array": c.nparray}[form](co)
    r, v = c.outcome(lambda: psf.set_physical_props(1.0, 0.6, arg, 0.1))
    c.check((r == "ok") == (n == k), f"{n} coefficients for {k} polynomials")
    if r == "ok":
        effective(c, psf, 1.0, 0.6, 0.1, co, orders)
    if k > 1:
        x = c.real("scalar", -1, 1)
        c.raises(ValueError, lambda: psf.set_physical_props(1.0, 0.6, x, 0.1), "a single number for several polynomials")
        if n == k:
            effective(c, psf, 1.0, 0.6, 0.1, co, orders)
    c.raises((ValueError, TypeError), lambda: psf.set_physical_props(1.0, 0.6, "abcde", 0.1), "text as coefficient")


def integers(c):
    psf = make(c, [(1, 3)])
    na, wl, co = c.int("na", -1, 3), c.int("wl", -1, 20), c.int("coef", -300, 300)
    pix = c.int("pix", -1, 6)
    r, v = c.outcome(lambda: psf.set_physical_props(na, wl, co, pix))
    if r == "ok":
        c.check(c.all([na == 1, wl > 0, pix > 0, 4 * pix * na <= wl]), "values outside the ranges are refused")
        effective(c, psf, na, wl, pix, [co], [(1, 3)])
    else:
        c.check(c.neg(c.all([na == 1, wl > 0, pix > 0, 4 * pix * na <= wl])), "values within the ranges are accepted")


def tasks(tier):
    t = []
    for o in POLS:
        t.append(Task(accept, orders=[o], form="number", before=False))
        t.append(Task(accept, orders=[o], form="number", before=True))
    t.append(Task(accept, orders=[(1, 3)], form="list", before=False))
    t.append(Task(accept, orders=[(1, 3)], form="array", before=True))
    several = [[(1, 1), (0, 2)], [(0, 0), (2, 4), (-1, 3)]]
    if tier == "thorough":
        several += [[(-3, 3), (0, 4), (1, 5), (2, 2)], [(0, 0), (0, 2), (0, 4), (0, 6), (0, 8)]]
    for o in several:
        for form in ("list", "tuple", "array"):
            for before in ((False, True) if form != "tuple" else (False,)):
                t.append(Task(accept, orders=o, form=form, before=before))
    t += [Task(lengths, k=k, form=f) for k in (1, 2, 3) for f in ("list", "tuple", "array")]
    t.append(Task(integers))
    return t
