"""Scalars, lists, tuples and arrays: same values elementwise, domain errors, angle warnings, inputs intact."""
from run import Task
from checks.C05 import ctol, tol
from checks.common import PI, norm_factor, pairs, radial_coeffs

METHODS = ("value", "radial", "triangular", "radial_dr", "triangular_dtheta")
BOUNDS = ("polynomials n <= 13 and n = 41 (all m; n = 41: 4 of them), both routes; shapes (1,), (3,), (2, 2), (2, 1, 2), lists and tuples of 2 numbers, nested lists, "
          "integer scalars / arrays; elements: any real numbers (radii -3..4, angles -20..20), any position in arrays of 3 for the domain checks")
OUTSIDE = "empty arrays, sets, complex or object arrays, NaN"


def call(p, method, r, th, exact=False):
    if method == "value":
        return p.polynomial_value(r, th, use_exact_eq=True) if exact else p.polynomial_value(r, th)
    if method == "radial":
        return p.radial(r, use_exact_eq=True) if exact else p.radial(r)
    if method == "radial_dr":
        return p.radial_dr(r, use_exact_eq=True) if exact else p.radial_dr(r)
    return p.triangular(th) if method == "triangular" else p.triangular_dtheta(th)


def _tols(n, m):
    cs = radial_coeffs(n, m)
    k = norm_factor(n, m) * max(1, n * n)
    return tol(cs) * k, ctol(cs) * k


def _same(c, p, method, r, th, rs, ths, shape, exact, msg):
    """rs, ths: the elements one by one."""
    m, n = p.get_mn_orders()
    t, ct = _tols(n, m)
    out = call(p, method, r, th, exact)
    c.check(tuple(c.np.shape(out)) == shape, msg + ": shape of the result")
    for a, x, y in zip(c.flat(out), rs, ths):
        c.close(a, call(p, method, x, y, exact), t, msg, ct)


def elements(c, n, shape, kind, ms=None):
    size = 1
    for s in shape:
        size *= s
    r, th = c.array("r", shape, 0, 1), c.array("theta", shape, 0, 6)
    rs, ths = c.flat(r), c.flat(th)
    if kind != "array":
        f = {"list": list, "tuple": tuple}.get(kind)
        if f:
            r, th = f(rs), f(ths)
        else:  # nested lists
            h = size // 2
            r, th = [rs[:h], rs[h:]], [ths[:h], ths[h:]]
    c0 = c.flat(r), c.flat(th)
    for m in ms or range(-n, n + 1, 2):
        p = c.Z.ZernPol(m=m, n=n)
        for method in METHODS:
            _same(c, p, method, r, th, rs, ths, shape, False, f"{method} of m={m}, n={n} for {kind} {shape}")
            if n <= 38 and method in ("value", "radial", "radial_dr") and len(shape) == 1:
                _same(c, p, method, r, th, rs, ths, shape, True, f"exact {method} of m={m}, n={n} for {kind} {shape}")
    for a, b in zip(c0[0] + c0[1], c.flat(r) + c.flat(th)):
        c.close(a, b, 0, "inputs are not modified", 0)
    if kind == "array":
        c.check(r.shape == shape and th.shape == shape, "shape of the inputs is not modified")


def mixed(c, n):
    """One scalar, one array."""
    r, th = c.real("r", 0, 1), c.array("theta", 3, 0, 6)
    ra, t = c.array("ra", 3, 0, 1), c.real("t", 0, 6)
    ths, ras = c.flat(th), c.flat(ra)
    for m in range(-n, n + 1, 2):
        p = c.Z.ZernPol(m=m, n=n)
        _same(c, p, "value", r, th, [r] * 3, ths, (3,), False, f"m={m}, n={n}: one radius, several angles")
        _same(c, p, "value", ra, t, ras, [t] * 3, (3,), False, f"m={m}, n={n}: several radii, one angle")
    for a, b in zip(ths + ras, c.flat(th) + c.flat(ra)):
        c.close(a, b, 0, "inputs are not modified", 0)


def integers(c, n):
    """Integers are accepted like the equal floats."""
    i, j = c.concrete(c.int("i", 0, 1)), c.concrete(c.int("j", 0, 6))
    for m in range(-n, n + 1, 2):
        p = c.Z.ZernPol(m=m, n=n)
        t, ct = _tols(n, m)
        for method in METHODS:
            v = call(p, method, float(i), float(j))
            c.close(call(p, method, i, j), v, t, f"{method} of m={m}, n={n} for integers", ct)
            c.close(call(p, method, c.np.int64(i), c.np.int64(j)), v, t, f"{method} of m={m}, n={n} for numpy integers", ct)
            w = call(p, method, [i, 1], [j, 2])
            c.closes(w, [v, call(p, method, 1.0, 2.0)], t, f"{method} of m={m}, n={n} for a list of integers", ct)
            w = call(p, method, c.nparray([1, i]), c.nparray([2, j]))
            c.closes(w, [call(p, method, 1.0, 2.0), v], t, f"{method} of m={m}, n={n} for an integer array", ct)


def domain(c, form, which):
    """A radius outside [0, 1] anywhere is refused, no other is."""
    m, n = c.choice("orders", [(0, 0), (1, 1), (-1, 3), (0, 4), (13, 13), (1, 41), (-54, 54)])
    p = c.Z.ZernPol(m=m, n=n)
    if form == "scalar":
        r = [c.real("r", -3, 4)]
        arg, th = r[0], 1.0
    elif form == "int":
        r = [c.int("r", -3, 4)]
        arg, th = r[0], 1.0
    else:
        a = c.array("r", (3,) if form != "2d" else (2, 2), -3, 4)
        r = c.flat(a)
        arg = {"list": list(r), "tuple": tuple(r), "1d": a, "2d": a}[form]
        th = c.np.ones(len(r)) if form != "2d" else c.np.ones((2, 2))
    ok = c.all([c.all([x >= 0, x <= 1]) for x in r])
    exact = n <= 38 and c.bool("exact")
    s, v = c.outcome(lambda: call(p, which, arg, th, exact))
    c.check(ok if s == "ok" else c.neg(ok), f"{which} accepts exactly the radii in [0, 1]")


def angles(c, form, which):
    """Any angle is accepted; a warning appears exactly if one lies outside [0, 2 pi]."""
    m, n = c.choice("orders", [(0, 0), (1, 1), (-1, 3), (0, 4), (-13, 13)])
    p = c.Z.ZernPol(m=m, n=n)
    if form == "scalar":
        t = [c.real("theta", -20, 20)]
        arg, r = t[0], 0.5
    else:
        a = c.array("theta", 3, -20, 20)
        t = c.flat(a)
        arg = {"list": list(t), "array": a}[form]
        r = c.np.ones(3) if form == "array" else [0.5, 0.2, 1.0]
    two_pi = 2 * PI
    inside = c.all([c.all([x >= 0, x <= two_pi]) for x in t])
    call(p, which, r, arg)
    c.check(inside if not c.warnings else c.neg(inside), f"{which} warns exactly about angles outside [0, 2 pi]")


def shapes(c, which):
    p = c.Z.ZernPol(osa=c.choice("osa", [0, 1, 4, 12, 104]))
    a, b = c.choice("shapes", [((2,), (3,)), ((3,), (2,)), ((1,), (2,)), ((2,), (1,)), ((2, 2), (4,)), ((2, 2), (2,)), ((2,), (2, 1)), ((1, 2), (2, 1)), ((2, 3), (3, 2))])
    r, th = c.array("r", a, 0, 1), c.array("theta", b, 0, 6)
    if which == "list" and len(a) == len(b) == 1:
        r, th = c.flat(r), c.flat(th)
    c.raises(ValueError, lambda: p.polynomial_value(r, th), "arrays of different shapes are refused")
    c.raises(ValueError, lambda: p.polynomial_value(r, th, use_exact_eq=True), "arrays of different shapes are refused by the exact route")


def tasks(tier):
    t = []
    for n in range(14):
        for shape, kind in (((3,), "array"), ((2, 2), "array"), ((2,), "list"), ((2,), "tuple")):
            t.append(Task(elements, n=n, shape=shape, kind=kind, budget=200))
        t += [Task(mixed, n=n), Task(integers, n=n)]
    for n in (0, 1, 2, 4, 7, 11, 13) if tier == "quick" else range(20):
        for shape, kind in (((1,), "array"), ((2, 1, 2), "array"), ((2, 2), "nested")):
            t.append(Task(elements, n=n, shape=shape, kind=kind, budget=200))
    t.append(Task(elements, n=41, shape=(2,), kind="array", ms=(-41, 39, 1, -37), budget=200, validate=False))
    for w in ("value", "radial", "radial_dr"):
        t += [Task(domain, form=f, which=w) for f in ("scalar", "int", "list", "tuple", "1d", "2d")]
    for w in ("value", "triangular", "triangular_dtheta"):
        t += [Task(angles, form=f, which=w) for f in ("scalar", "list", "array")]
    t += [Task(shapes, which=w) for w in ("array", "list")]
    return t
