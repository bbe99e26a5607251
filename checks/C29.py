"""Warnings: given exactly when documented; silencing them changes nothing else."""
from run import Task
from checks.C20 import NPHI, NR, physical
from checks.common import PI, angular, angular_d, norm_factor, radial_coeffs

BOUNDS = ("coefficients -40..40 for one, two and three polynomials (as number, list, array) and wavelengths 0.1..2, all symbolic; kernel size 3..400, radius points 20..900, angle points 36..900 "
          "as symbolic integers, set once and twice, estimates 3..401, with and without physical properties; kernels 3 x 3 and 5 x 5 with a free intensity at every pixel and symbolic physical "
          "properties, plain and accelerated, one and two polynomials; kernels 19 x 19, 27 x 27 and 87 x 87 of a fixed intensity; images 3 x 3 .. 8 x 8 (thorough 10 x 10) with two free pixels and a linear trend, crop fractions 0.75 and 1, strict "
          "or not; angles -30..30 as number, list and array of two; maximum orders 27..34")
OUTSIDE = "texts of the messages, printed notes, the slow-calculation warnings of orders above 48, warnings about files (C23) and numba"


def coefficient(c, k, form):
    zp = c.mod("zernpsf")
    c.patch(zp, "get_kernel_size", lambda *a, **q: 9)
    z = c.Z.ZernPol
    psf = zp.ZernPSF([z(osa=i) for i in (4, 6, 9)[:k]] if k > 1 else z(osa=7))
    wl = c.real("wl", 0.1, 2)
    co = [c.real(f"coef{i}", -40, 40) for i in range(k)]
    big = c.max([abs(x) for x in co]) if k > 1 else abs(co[0])
    c.assume(c.any([big > wl * 10.000001, big < wl * 9.999999]))
    pix = wl * 0.2
    psf.set_physical_props(0.9, wl, {"number": lambda: co[0], "list": lambda: co, "tuple": lambda: tuple(co), "array": lambda: c.nparray(co)}[form](), pix)
    if len(c.warnings):
        c.check(len(c.warnings) == 1, "one warning")
        c.check(big > wl * 10, "a warning only for coefficients above ten wavelengths")
    else:
        c.check(big < wl * 10, "a warning for coefficients above ten wavelengths")


def calculation(c, known, times=1):
    zp = c.mod("zernpsf")
    est = [2 * c.int("half", 1, 200) + 1 if known else 9]
    c.patch(zp, "get_kernel_size", lambda *a, **q: est[0])
    psf = zp.ZernPSF(c.Z.ZernPol(osa=7))
    if known:
        psf.set_physical_props(0.9, 0.55, 0.1, 0.1)
    c.check(len(c.warnings) == 0, "no warning for ordinary properties")
    for i in range(times):
        p = "" if i == 0 else f"again {i} "
        k, nr, nphi = (c.int(p + "size", 3, 400), c.int(p + "radius", 20, 900), c.int(p + "angle", 36, 900)) if i == times - 1 else (c.int(p + "size", 3, 400), 100, 100)
        n = len(c.warnings)
        psf.set_calculation_props(k, nr, nphi)
        n = len(c.warnings) - n
        cut = (k + 1 - k % 2 < est[0]) if known else True
        slow = c.all([nr > 500, nphi > 400])
        c.check((n > 0) == c.any([cut, slow]), "a warning exactly for a truncated kernel, needless precision or missing physical properties")
        c.check(n <= 2, "one warning for each reason")
        if n == 2:
            c.check(c.all([cut, slow]), "two warnings for two reasons")


def run(c, psf, calls, quiet, acc, norm):
    del calls[:]
    n = len(c.warnings)
    k = psf.calculate_psf_kernel(suppress_warnings=quiet, normalized=norm, verbose_info=False, accelerated=acc)
    return k, len(c.warnings) - n


def objects(c, orders, phys, co):
    zp = c.mod("zernpsf")
    c.patch(zp, "get_kernel_size", lambda *a, **k: 3)
    out = []
    for _ in range(2):
        pols = [c.Z.ZernPol(m=m, n=n) for m, n in orders]
        psf = zp.ZernPSF(pols if len(pols) > 1 else pols[0])
        if phys is not None:
            psf.set_physical_props(phys[0], phys[1], list(co) if len(pols) > 1 else co[0], phys[2])
        out.append(psf)
    return out


def fixed_stubs(c, values):
    """Intensities by the number of the call (free or fixed), the same for both objects."""
    calls = []

    def f(*a, **k):
        calls.append(None)
        return values(len(calls) - 1)
    m, n = c.mod("calculations.calc_psfs"), c.mod("calculations.calc_psfs_numba")
    for mod, name in ((m, "get_psf_point_r"), (m, "get_psf_point_r_parallel"), (m, "get_psf_point_r_pols"), (n, "get_psf_point_r_comp"), (n, "get_psf_point_r_pols_comp")):
        c.patch(mod, name, f)
    return calls


def same(c, a, b, calls, acc, norm):
    k1, w1 = run(c, a, calls, False, acc, norm)
    if not calls and (acc or not a.airy):
        return None, None       # restructured
    k2, w2 = run(c, b, calls, True, acc, norm)
    c.check(w2 == 0, "no warning when suppressed")
    c.check(tuple(c.np.shape(k1)) == tuple(c.np.shape(k2)), "size of the kernel with and without warnings")
    for x, y in zip(c.flat(k1), c.flat(k2)):
        c.close(x, y, 1e-12, "kernel with and without warnings", 1e-12)
    c.check(a.kernel_size == b.kernel_size, "reported kernel size with and without warnings")
    c.check((a.n_int_r_points, a.n_int_phi_points, a.airy) == (b.n_int_r_points, b.n_int_phi_points, b.airy), "settings with and without warnings")
    for q in ("NA", "wavelength", "pixel_size", "expansion_coeff", "alpha", "k"):
        c.close(getattr(a, q), getattr(b, q), 1e-12, f"{q} with and without warnings", 1e-12)
    return w1, k1


def silent(c, orders, acc, norm, size):
    phys = physical(c)
    co = [c.real("coef", -2, 2)] if len(orders) == 1 else [c.real("coef", 0.001, 0.008), 0.01]
    a, b = objects(c, orders, phys, co)
    for psf in (a, b):
        psf.kernel_size = size
        psf.n_int_r_points, psf.n_int_phi_points = NR, NPHI
    vals = [c.real(f"I{e}", 1e-3 if e == size * size // 2 else 0, 5) for e in range(size * size)]
    w, k = same(c, a, b, fixed_stubs(c, lambda e: vals[e]), acc, norm)
    if w is None:
        return
    v = c.flat(k)
    border = [x for i, x in enumerate(v) if min(i // size, i % size) == 0 or max(i // size, i % size) == size - 1]
    big, edge = c.max(list(v)), c.max(border)
    if w:
        c.check(edge > big * 0.0499999, "a warning only for a kernel above 5 % of its maximum at the border")
        c.check(w == 1, "one warning")
    else:
        c.check(edge < big * 0.0500001, "a warning for a kernel above 5 % of its maximum at the border")


def default(c, own, acc, m, n):
    """Without physical properties: the defaults, and a warning."""
    a, b = objects(c, [(m, n)], None, None)
    if own:
        s = c.choice("size", [3, 8, 19, 27])
        for psf in (a, b):
            psf.set_calculation_props(s, 40, 40)
    v = c.real("level", 0.5, 1)
    w, k = same(c, a, b, fixed_stubs(c, lambda e: 1.0 / (1 + e % 7) if e % 3 else v), acc, True)
    if w is not None:
        c.check(w >= 1, "a warning that the default physical properties are used")


def large(c, acc, orders, size):
    """Large kernels, also those with warnings about the duration."""
    co = [0.3, -0.1][:len(orders)]
    a, b = objects(c, orders, (0.9, 0.55, 0.1), co)
    v = c.real("level", 0.01, 1)
    mid = size * size // 2
    for psf in (a, b):
        psf.kernel_size = size
    w, k = same(c, a, b, fixed_stubs(c, lambda e: 1.0 if e == mid else v if e == mid + 1 else 0.0), acc, False)
    if w is not None and size < 80:
        c.check(w == 0, "no warning for a kernel that fades towards its border")


def fitting(c, rows, cols, f, strict):
    Z = c.Z
    p = (Z.ZernPol(m=0, n=0), Z.ZernPol(m=1, n=1), Z.ZernPol(m=0, n=2))
    px = [[(0.3 * i - 0.2 * j) for j in range(cols)] for i in range(rows)]
    px[rows // 2][cols // 2] = c.real("centre", -5, 5)
    px[0][0] = c.real("corner", -5, 5)
    img = c.nparray(px)
    n = len(c.warnings)
    a = Z.fit_polynomials(img, p, crop_radius=f, suppress_warnings=False, strict_circle_border=strict, return_cropped_image=True)
    n1 = len(c.warnings)
    b = Z.fit_polynomials(img, p, crop_radius=f, suppress_warnings=True, strict_circle_border=strict, return_cropped_image=True)
    c.check(len(c.warnings) == n1, "no warning when suppressed")
    for x, y, t in ((a[0], b[0], "coefficients"), (a[1], b[1], "cropped image")):
        c.closes(c.flat(x), c.flat(y), 1e-12, t + " with and without warnings")
    odd = rows == cols and rows % 2 == 1
    c.check((n1 > n) == (not odd), "a warning exactly for an image that is not square or has an even side")


def angles(c, m, n, form):
    p = c.Z.ZernPol(m=m, n=n)
    t = [c.real("t0", -30, 30), c.real("t1", -30, 30)]
    r = 0.6
    x = t[0] if form == "number" else t if form == "list" else c.nparray(t)
    used = t[:1] if form == "number" else t
    for q in used:
        c.assume(c.any([q < -1e-6, c.all([q > 1e-6, q < 2 * PI - 1e-6]), q > 2 * PI + 1e-6]))
    out = c.any([c.any([q < 0, q > 6.2831853]) for q in used])
    for f, ref in ((lambda: p.triangular(x), lambda q: angular(c, m, q)), (lambda: p.triangular_dtheta(x), lambda q: angular_d(c, m, q)),
                   (lambda: p.polynomial_value(r if form == "number" else c.nparray([r, r]), x), lambda q: c.poly(radial_coeffs(n, m), r) * angular(c, m, q) * norm_factor(n, m))):
        k = len(c.warnings)
        v = f()
        if len(c.warnings) > k:
            c.check(out, "a warning only for angles outside of 0..2 pi")
        else:
            c.check(c.neg(out), "a warning for angles outside of 0..2 pi")
        v = [v] if form == "number" else c.flat(v)
        for g, q in zip(v, used):
            c.close(g, ref(q), 1e-8, f"value of m={m}, n={n} at any angle", 1e-8)


def orders(c):
    n = c.concrete(c.int("order", 27, 34))
    c.Z.generate_polynomials(n)
    c.check((len(c.warnings) > 0) == (n > 30), "a warning exactly for maximum orders above 30")


def tasks(tier):
    deep = tier != "quick"
    t = [Task(coefficient, k=1, form=f) for f in ("number", "list")] + [Task(coefficient, k=k, form=f) for k in (2, 3) for f in ("list", "tuple", "array")]
    t += [Task(calculation, known=k, times=x) for k in (False, True) for x in (1, 2)]
    for o in ([(0, 4)], [(1, 1), (0, 2)]):
        for acc in (False, True):
            t += [Task(silent, orders=o, acc=acc, norm=x, size=s, budget=100) for x in (False, True) for s in (3, 5)]
            t += [Task(large, acc=acc, orders=o, size=s, budget=100) for s in (19, 27, 87)]
    t += [Task(default, own=own, acc=acc, m=m, n=n, budget=100) for own in (False, True) for acc in (False, True) for m, n in ((0, 4), (0, 0))]
    hi = 10 if deep else 8
    for rows in range(3, hi + 1):
        for cols in range(3, hi + 1):
            for f in (1.0, 0.75):
                if min(rows, cols) > 4 or f == 1.0:
                    for st in (False, True):
                        if deep or rows <= cols or st:
                            t.append(Task(fitting, rows=rows, cols=cols, f=f, strict=st))
    t += [Task(angles, m=m, n=n, form=f) for m, n in ((0, 0), (1, 1), (-2, 4), (3, 9)) for f in ("number", "list", "array")]
    t.append(Task(orders, budget=100))
    return t
