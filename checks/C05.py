"""Radial values against the closed form of the Zernike radial polynomial."""
from run import Task
from checks.common import radial_coeffs, memo_radial

BOUNDS = ("every polynomial with n <= 54, all m; radius: any real number in [0, 1]; default route for n <= 54, exact equation for n <= 40 and its refusal "
          "(warning, zero) for n = 41..54; scalars, arrays of 2 radii (n <= 14 and 40, 41); tolerance 1e-9 + 2e-15 * sum |coefficients|")
OUTSIDE = "rounding errors of evaluating the polynomial in floating point (real arithmetic is used; constants are the actual doubles)"


def tol(cs):
    return 1e-9 + 2e-15 * sum(abs(v) for v in cs.values())


def ctol(cs):
    return 1e-9 + 2e-14 * sum(abs(v) for v in cs.values())


def value(c, n):
    """Default calculation."""
    memo_radial(c)
    r = c.real("r", 0, 1)
    for m in range(-n, n + 1, 2):
        cs = radial_coeffs(n, m)
        c.close(c.Z.ZernPol(m=m, n=n).radial(r), c.poly(cs, r), tol(cs), f"radial value of m={m}, n={n}", ctol(cs))


def exact(c, n):
    """Calculation by the exact equation."""
    r = c.real("r", 0, 1)
    for m in range(-n, n + 1, 2):
        cs = radial_coeffs(n, m)
        c.close(c.Z.ZernPol(m=m, n=n).radial(r, use_exact_eq=True), c.poly(cs, r), tol(cs), f"exact radial value of m={m}, n={n}", ctol(cs))
        c.check(not c.warnings, "no warning about a supported order")


def refused(c, n):
    """Beyond its limit the exact equation gives zeros and a warning each time, never a wrong value."""
    r = c.real("r", 0, 1)
    a = c.array("a", 2, 0, 1)
    for m in (-n, 2 - n, n % 2, n):
        p = c.Z.ZernPol(m=m, n=n)
        k = len(c.warnings)
        c.close(p.radial(r, use_exact_eq=True), 0.0, 1e-12, "zero beyond the limit of the exact equation")
        c.closes(p.radial(a, use_exact_eq=True), [0.0, 0.0], 1e-12, "zeros beyond the limit of the exact equation")
        c.check(len(c.warnings) == k + 2, "a warning for each refused calculation")


def arrays(c, n, exact):
    a = c.array("a", 2, 0, 1)
    v = c.flat(a)
    for m in range(-n, n + 1, 2):
        cs = radial_coeffs(n, m)
        out = c.Z.ZernPol(m=m, n=n).radial(a, use_exact_eq=exact)
        c.check(c.np.shape(out) == (2,), "shape of the values")
        for x, y in zip(c.flat(out), v):
            c.close(x, c.poly(cs, y), tol(cs), f"radial values of m={m}, n={n} on an array", ctol(cs))


def tasks(tier):
    t = [Task(value, n=n, budget=300, validate=n < 30) for n in range(54, -1, -1)]
    t += [Task(exact, n=n, budget=300) for n in range(40, -1, -1)]
    t += [Task(refused, n=n) for n in range(41, 55)]
    for n in list(range(15)) + ([40] if tier == "quick" else list(range(15, 55))):
        t.append(Task(arrays, n=n, exact=False, validate=n < 30, budget=300))
        if n <= 40:
            t.append(Task(arrays, n=n, exact=True, budget=300))
    return t
