"""Fitting: the coefficients of any exact combination come back; otherwise the least-squares solution."""
import math
from run import Task
from checks.C13 import geometry, tolerance
from checks.common import norm_factor, radial_coeffs

SETS = [((0, 0),), ((-1, 1), (1, 1)), ((0, 0), (-1, 1), (1, 1), (0, 2)), ((0, 4), (-2, 2), (0, 0), (3, 3)), ((1, 3), (2, 2), (-3, 3), (0, 2), (-2, 2)),
        ((-1, 1), (-1, 3), (1, 5)), ((0, 2), (5, 13), (-2, 14)),
        ((0, 0), (-1, 1), (1, 1), (-2, 2), (0, 2), (2, 2), (-3, 3), (-1, 3), (1, 3), (3, 3))]
BOUNDS = ("8 ordered sets of 1..10 polynomials (n <= 14); coefficients any real in -5..5, arbitrary phases any real in -5..5; 24 points on 4 layouts of concrete coordinates (one of them around the centre only), "
          "meshes 5 x 7; images 5 x 5 .. 9 x 9, even, non-square, crop fractions 0.6, 0.8, 0.95, 1; 0..6 rounded digits")
OUTSIDE = "other layouts of points (the coordinates are concrete because the matrix is inverted numerically), ill-conditioned and underdetermined fits"
ASSUMPTIONS = ["numpy.linalg.lstsq returns the least-squares solution (its contract, evaluated as pinv(A) b for symbolic b)"]


def zval(m, n, r, t):
    v = float(sum(k * r ** e for e, k in radial_coeffs(n, m).items())) * norm_factor(n, m)
    return v * (math.cos(m * t) if m >= 0 else math.sin(-m * t))


def layout(k):
    if k == 0:
        return [0.02 + 0.98 * ((i * 7) % 24) / 23 for i in range(24)], [(i * 2.39996) % (2 * math.pi) for i in range(24)]
    if k == 3:      # a small part around the centre
        return [0.03 + 0.3 * ((i * 7) % 24) / 23 for i in range(24)], [(i * 2.39996) % (2 * math.pi) for i in range(24)]
    if k == 1:
        return [i / 5 for i in range(6) for _ in range(4)], [0.1 + (j + 0.17 * i) * math.pi / 2 % (2 * math.pi) for i in range(6) for j in range(4)]
    return [1 - (i % 5) ** 2 / 20 for i in range(24)], [2 * math.pi * (i * i % 23) / 23 for i in range(24)]


def _rounded(c, x, d, msg):
    y = x * 10 ** d
    c.close(y, c.np.round(y), 1e-6, msg + f": rounded to {d} digits")


def _b(c, ps, a, rs, ts):
    out = []
    for r, t in zip(rs, ts):
        s = 0.0
        for k, (m, n) in zip(a, ps):
            s = s + k * zval(m, n, r, t)
        out.append(s)
    return out


def vectors(c, ps, k):
    """Exact combination given as vectors."""
    rs, ts = layout(k)
    a = [c.real(f"a{i}", -5, 5) for i in range(len(ps))]
    phases = c.nparray(_b(c, ps, a, rs, ts))
    r, t = c.nparray(rs), c.nparray(ts)
    pols = tuple(c.Z.ZernPol(m=m, n=n) for m, n in ps)
    before = c.flat(phases)
    d = c.concrete(c.int("digits", 0, 6))
    x = c.Z.fit_polynomials_vectors(pols, phases, r, t, round_digits=d) if d != 4 else c.Z.fit_polynomials_vectors(pols, phases, r, t)
    c.check(tuple(c.np.shape(x)) == (len(ps),), "one coefficient per polynomial")
    for i, v in enumerate(c.flat(x)):
        c.close(v, a[i], 0.5 * 10 ** -d + 1e-7, f"coefficient {i} of {ps}", 0.5 * 10 ** -d + 1e-7)
        _rounded(c, v, d, f"coefficient {i}")
    for u, v in zip(c.flat(phases) + c.flat(r) + c.flat(t), before + rs + ts):
        c.close(u, v, 0, "inputs are not modified", 0)


def mesh(c, ps):
    """Phases on a mesh of radii (slow index) and angles (fast index)."""
    R, T = [0.05, 0.3, 0.55, 0.8, 1.0], [0.2 + 0.9 * i for i in range(7)]
    a = [c.real(f"a{i}", -5, 5) for i in range(len(ps))]
    phases = c.nparray(_b(c, ps, a, [r for r in R for _ in T], T * len(R)))
    pols = tuple(c.Z.ZernPol(m=m, n=n) for m, n in ps)
    x = c.Z.fit_polynomials_vectors(pols, phases, c.nparray(R), c.nparray(T), round_digits=5)
    for i, v in enumerate(c.flat(x)):
        c.close(v, a[i], 0.5e-5 + 1e-7, f"coefficient {i} of {ps} on a mesh", 0.6e-5)


def least(c, ps, k):
    """Arbitrary phases: normal equations."""
    rs, ts = layout(k)
    b = c.array("phase", len(rs), -5, 5)
    pols = tuple(c.Z.ZernPol(m=m, n=n) for m, n in ps)
    x = c.flat(c.Z.fit_polynomials_vectors(pols, b, c.nparray(rs), c.nparray(ts), round_digits=9))
    A = [[zval(m, n, r, t) for m, n in ps] for r, t in zip(rs, ts)]
    bs = c.flat(b)
    for j in range(len(ps)):
        s = 0.0
        for row, y in zip(A, bs):
            e = y
            for u, v in zip(row, x):
                e = e - v * u
            s = s + e * row[j]
        c.close(s, 0.0, 2e-6, f"least-squares condition {j} of {ps}", 2e-6)


def image(c, ps, rows, cols, f, strict, own):
    """Exact combination given as an image; outside of the circle the image holds anything."""
    g = geometry(rows, cols)
    eps = tolerance(rows, cols, strict)
    inside = [q - f < eps for q, t in g]
    scale = max([1.0] + [q for (q, t), s in zip(g, inside) if s])
    a = [c.real(f"a{i}", -5, 5) for i in range(len(ps))]
    junk = c.real("junk", -100, 100)
    rr = [(round(q / scale, 4) if own else q / scale) for q, t in g]
    vals = [v if s else junk for v, s in zip(_b(c, ps, a, rr, [t for q, t in g]), inside)]
    img = c.nparray([vals[i * cols:(i + 1) * cols] for i in range(rows)])
    pols = tuple(c.Z.ZernPol(m=m, n=n) for m, n in ps)
    back = c.bool("return_cropped")
    out = c.Z.fit_polynomials(img, pols, crop_radius=f, suppress_warnings=True, strict_circle_border=strict, return_cropped_image=back)
    c.check(len(out) == 2, "coefficients and image")
    x = c.flat(out[0])
    c.check(len(x) == len(ps), "one coefficient per polynomial")
    # radii are rounded to 4 digits (twice, when they are rescaled)
    tol = 0.5e-4 + 1e-6 + (3e-3 if scale > 1 else 0.0 if own else 3e-3)
    for i, v in enumerate(x):
        c.close(v, a[i], tol, f"coefficient {i} of {ps} from {rows} x {cols}, fraction {f}", tol)
    if back:
        c.check(tuple(c.np.shape(out[1])) == (rows, cols), "shape of the cropped image")
        for k, v in enumerate(c.flat(out[1])):
            c.close(v, vals[k] if inside[k] else 0.0, 1e-12, f"cropped image at pixel {k}")
    else:
        c.check(out[1] is None, "no image unless requested")
    for u, v in zip(c.flat(img), vals):
        c.close(u, v, 0, "the image is not modified", 0)
    if not back:
        for d in (1, 6):
            y = c.flat(c.Z.fit_polynomials(img, pols, f, True, strict, d)[0])
            for i, v in enumerate(y):
                _rounded(c, v, d, f"coefficient {i} from an image")
                c.close(v, x[i], 0.5 * 10 ** -d + 0.6e-4, f"coefficient {i} rounded to {d} digits", 0.5 * 10 ** -d + 0.6e-4)


def refused(c):
    Z = c.Z
    rs, ts = layout(0)
    b, r, t = c.array("phase", 24, -5, 5), c.nparray(rs), c.nparray(ts)
    p = [Z.ZernPol(osa=i) for i in (0, 2, 4)]
    k = c.choice("repeated", [(p[0], p[0]), (p[0], p[1], Z.ZernPol(osa=0)), (p[2], p[1], Z.ZernPol(noll=4)), (p[1], Z.ZernPol(m=1, n=1))])
    c.raises(ValueError, lambda: Z.fit_polynomials_vectors(tuple(k), b, r, t), "repeated polynomials are refused")
    c.raises(ValueError, lambda: Z.fit_polynomials_vectors((), b, r, t), "missing polynomials are refused")
    img = c.array("img", (5, 5), -5, 5)
    c.raises(ValueError, lambda: Z.fit_polynomials(img, tuple(k)), "repeated polynomials are refused")
    c.raises(ValueError, lambda: Z.fit_polynomials(img, ()), "missing polynomials are refused")
    two = lambda v: v.reshape((6, 4)) if c.choice("dim", [0, 1]) else v.reshape((24, 1))
    w = c.choice("which", [0, 1, 2])
    v = [b, r, t]
    v[w] = two(v[w])
    c.raises(TypeError, lambda: Z.fit_polynomials_vectors(tuple(p), *v), "vectors that are not 1-D are refused")
    f = c.real("fraction", -3, 3)
    s, o = c.outcome(lambda: Z.fit_polynomials(c.np.ones((5, 5)), (p[0],), f, True))
    c.check(c.all([f >= 0.4999, f <= 1.0001]) if s == "ok" else c.any([f < 0.5, f > 1]), "crop fractions in [0.5, 1] only")
    q = c.choice("shape", [(2, 4), (4, 2), (9,), (3, 3, 3)])
    c.raises(ValueError, lambda: Z.fit_polynomials(c.np.ones(q), (p[0],), 1.0, True), "images of other dimensions or too small are refused")


def tasks(tier):
    deep = tier != "quick"
    t = []
    for ps in SETS:
        t += [Task(vectors, ps=ps, k=k, budget=200) for k in range(3)]
        t += [Task(least, ps=ps, k=k, budget=200) for k in ((0, 1, 2) if deep else (0,)) if len(ps) < 10]
        if max(n for m, n in ps) < 5:
            t.append(Task(vectors, ps=ps, k=3, budget=200))
            t.append(Task(mesh, ps=ps, budget=200))
            for i, (r, cc, f, st) in enumerate([(5, 5, 1.0, False), (7, 7, 1.0, True), (7, 7, 0.8, False), (8, 8, 0.6, True), (6, 6, 1.0, True), (6, 9, 1.0, False),
                                                (9, 7, 0.95, True), (6, 6, 1.0, False), (7, 8, 1.0, False), (9, 9, 1.0, False), (10, 10, 0.9, False)]):
                if len(ps) > 5 and (r < 7 or f < 0.8):
                    continue
                for own in ((True,) if i % 2 and not deep else (False, True)):
                    t.append(Task(image, ps=ps, rows=r, cols=cc, f=f, strict=st, own=own, budget=200))
    t.append(Task(refused, budget=100))
    return t
