"""Names of the polynomials and their text form."""
import re
from run import Task
from checks.common import fringe_of, noll_of, osa_of

BOUNDS = "every polynomial with n <= 54 (orders chosen by symbolic integers), all pairs of the 36 named polynomials"
OUTSIDE = "wording beyond the aberration, its level and its direction"
FULL = {1: "coma", 2: "astigmatism", 3: "trefoil", 4: "quadrafoil", 5: "pentafoil", 6: "sexfoil", 7: "septfoil"}
SHORT = {1: "coma", 2: "ast", 3: "3foil", 4: "4foil", 5: "5foil", 6: "6foil", 7: "7foil"}


def _mn(c, lo, hi):
    n = c.concrete(c.int("n", lo, hi))
    k = c.concrete(c.int("k", 0, n))
    return 2 * k - n, n


def _describes(c, name, m, n, words, dirs, short):
    """Direction, level and kind of aberration as in the literature."""
    s, am = name.lower(), abs(m)
    if m == 0:
        want = {0: "piston", 2: "defocus", 4: "spherical", 6: "spherical"}[n]
        c.check(want in s, f"{name!r} names the rotationally symmetric term n={n}")
        return
    kind = "tilt" if n == 1 else words[am]
    c.check(kind in s, f"{name!r} names the aberration of m={m}, n={n}")
    d = (dirs[0] if m < 0 else dirs[1]) if am == 1 else (dirs[0] if (m > 0) == (am % 2 == 0) else dirs[2])
    c.check(s.startswith(d), f"{name!r} names the direction of m={m}, n={n}")
    level = (n - am) // 2 - (1 if am == 1 and n > 1 else 0)
    two = "2d" if short else "secondary"
    three = ("3d", "3rd") if short else ("third", "tertiary")
    c.check((two in s) == (level == 1), f"{name!r}: secondary aberration exactly for level 1")
    c.check(any(w in s for w in three) == (level == 2), f"{name!r}: third aberration exactly for level 2")


def names(c, lo, hi):
    m, n = _mn(c, lo, hi)
    p = c.Z.ZernPol(m=m, n=n)
    full, short = p.get_polynomial_name(), p.get_polynomial_name(short=True)
    c.check(p.get_polynomial_name(True) == short and p.get_polynomial_name(False) == full, "short name on request")
    if n > 7:
        c.check(full == "" and short == "", "no name above order 7")
        c.check(isinstance(str(p), str) and len(str(p)) > 0, "text form of an unnamed polynomial")
        return
    c.check(isinstance(full, str) and isinstance(short, str) and full != "" and short != "", "a name up to order 7")
    c.check(len(short) <= len(full), "short name is not longer")
    _describes(c, full, m, n, FULL, ("vertical", "horizontal", "oblique"), False)
    _describes(c, short, m, n, SHORT, ("vert", "hor", "obl"), True)
    s = str(p)
    c.check(s.startswith(full), "text begins with the full name")
    for key, v in (("n", n), ("m", m), ("OSA", osa_of(m, n)), ("Noll", noll_of(m, n)), ("Fringe", fringe_of(m, n))):
        g = re.findall(r"(?<![A-Za-z])" + key + r"\s*=\s*(-?\d+)", s)
        c.check(g == [str(v)], f"text states {key} of m={m}, n={n}")


def unique(c, lo, hi):
    """No two polynomials share a name."""
    i, j = c.concrete(c.int("i", lo, hi)), c.concrete(c.int("j", 0, 35))
    p, q = c.Z.ZernPol(osa=i), c.Z.ZernPol(osa=j)
    if i != j:
        c.check(p.get_polynomial_name() != q.get_polynomial_name(), "full names differ")
        c.check(p.get_polynomial_name(short=True) != q.get_polynomial_name(short=True), "short names differ")
    else:
        c.check(p.get_polynomial_name() == q.get_polynomial_name(), "same name for the same polynomial")


def tasks(tier):
    return [Task(names, lo=0, hi=3), Task(names, lo=4, hi=7), *[Task(unique, lo=a, hi=a + 5, budget=200) for a in range(0, 36, 6)]] + [Task(names, lo=a, hi=min(a + 3, 54), budget=200) for a in range(8, 55, 4)]
