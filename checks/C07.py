"""Angular function, its derivative, normalisation factor and the whole polynomial against the definition."""
from run import Task
from checks.C05 import ctol, tol
from checks.common import PI, angular, angular_d, memo_radial, norm_factor, radial_coeffs

BOUNDS = ("every polynomial with n <= 54, all m; angle: any real number in [0, 2 pi], alone and in arrays of two; radius: any real number in [0, 1]; value by the default route "
          "n <= 54 and by the exact equation n <= 40 (zero and warning above)")
OUTSIDE = "rounding errors of floating-point evaluation (C05 has the bounds for the radial part)"


def parts(c, n):
    th = c.real("theta", 0, 2 * PI)
    ar = c.array("angles", 2, 0, 2 * PI)
    al = c.flat(ar)
    for m in range(-n, n + 1, 2):
        p = c.Z.ZernPol(m=m, n=n)
        s = f" of m={m}, n={n}"
        c.close(p.triangular(th), angular(c, m, th), 1e-9, "angular function" + s)
        c.close(p.triangular_dtheta(th), angular_d(c, m, th), 1e-9 * (1 + abs(m)), "derivative of the angular function" + s)
        c.closes(p.triangular(ar), [angular(c, m, t) for t in al], 1e-9, "angular function on an array" + s)
        c.closes(p.triangular_dtheta(ar), [angular_d(c, m, t) for t in al], 1e-9 * (1 + abs(m)), "derivative of the angular function on an array" + s)
        c.close(p.normf(), norm_factor(n, m), 1e-9, "normalisation factor" + s)
    c.check(not c.warnings, "no warning about angles in [0, 2 pi]")


def value(c, n, exact):
    memo_radial(c)
    r, th = c.real("r", 0, 1), c.real("theta", 0, 2 * PI)
    for m in range(-n, n + 1, 2):
        cs = radial_coeffs(n, m)
        k = norm_factor(n, m)
        v = c.Z.ZernPol(m=m, n=n).polynomial_value(r, th, use_exact_eq=True) if exact else c.Z.ZernPol(m=m, n=n).polynomial_value(r, th)
        c.close(v, c.poly(cs, r) * angular(c, m, th) * k, k * tol(cs), f"value of m={m}, n={n}", k * ctol(cs))


def refused(c, n):
    r, th = c.real("r", 0, 1), c.real("theta", 0, 2 * PI)
    a, b = c.array("a", 2, 0, 1), c.array("b", 2, 0, 6)
    p = c.Z.ZernPol(m=c.choice("m", [-n, n % 2, n]), n=n)
    c.close(p.polynomial_value(r, th, use_exact_eq=True), 0.0, 1e-12, "zero beyond the limit of the exact equation")
    c.check(len(c.warnings) == 1, "a warning for a refused calculation")
    c.closes(p.polynomial_value(a, b, use_exact_eq=True), [0.0, 0.0], 1e-12, "zeros beyond the limit of the exact equation")
    c.check(len(c.warnings) == 2, "a warning for each refused calculation")


def tasks(tier):
    t = [Task(value, n=n, exact=False, budget=300, validate=n < 30) for n in range(54, -1, -1)]
    t += [Task(value, n=n, exact=True, budget=300) for n in range(40, -1, -1)]
    t += [Task(parts, n=n, budget=100) for n in range(55)]
    t += [Task(refused, n=n) for n in range(41, 55)]
    return t
