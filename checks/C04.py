"""Comparison and equality of polynomials."""
from run import Task
from checks.common import blocks, mn_of_osa, noll_of, fringe_of

BOUNDS = "both polynomials: all valid orders with n <= 54 as symbolic integers; creation by index: OSA 0..27 in all combinations"
OUTSIDE = "objects to compare with beyond the listed examples"


def _mn(c, s, lo, hi):
    n, m, k = c.int("n" + s, lo, hi), c.int("m" + s, -hi, hi), c.int("k" + s, 0, hi)
    c.assume(n - m == k * 2)
    c.assume(m <= n)
    c.assume(-n <= m)
    return m, n


def relation(c, lo1, hi1):
    Z = c.Z.ZernPol
    m1, n1 = _mn(c, "1", lo1, hi1)
    m2, n2 = _mn(c, "2", 0, 54)
    p, q = Z(m=m1, n=n1), Z(m=m2, n=n2)
    o1, o2 = n1 * (n1 + 2) + m1, n2 * (n2 + 2) + m2
    same = c.all([m1 == m2, n1 == n2])
    what = c.choice("relation", ["==", "!=", ">", "<"])
    v = {"==": lambda: p == q, "!=": lambda: p != q, ">": lambda: p > q, "<": lambda: p < q}[what]()
    v = c.decide(v)
    w = {"==": same, "!=": c.neg(same), ">": o1 > o2, "<": o1 < o2}[what]
    c.check(w if v else c.neg(w), f"p {what} q")


def _make(Z, j, how):
    m, n = mn_of_osa(j)
    return [Z(osa=j), Z(noll=noll_of(m, n)), Z(fringe_index=fringe_of(m, n)), Z(m=m, n=n)][how]


def created(c, lo, hi):
    """No matter how the polynomials were specified."""
    Z = c.Z.ZernPol
    i, j = c.concrete(c.int("i", lo, hi)), c.concrete(c.int("j", 0, 27))
    a, b = c.concrete(c.int("how1", 0, 3)), c.concrete(c.int("how2", 0, 3))
    p, q = _make(Z, i, a), _make(Z, j, b)
    c.check((p == q) == (i == j), "p == q exactly for the same polynomial")
    c.check((p != q) == (i != j), "p != q exactly for different polynomials")
    c.check((p > q) == (i > j), "p > q by the OSA index")
    c.check((p < q) == (i < j), "p < q by the OSA index")


def foreign(c):
    Z = c.Z.ZernPol
    m, n = _mn(c, "1", 0, 54)
    p = Z(m=m, n=n)
    o = c.choice("other", [3, 2.5, "Z", None, (0, 0), [p], {"n": 1}, object()])
    c.raises(ValueError, lambda: p == o, "== with no polynomial")
    c.raises(ValueError, lambda: p > o, "> with no polynomial")


def tasks(tier):
    return [Task(relation, lo1=a, hi1=b, budget=200) for a, b in blocks(0, 54, 8 if tier == "quick" else 3)] + \
        [Task(created, lo=a, hi=b) for a, b in blocks(0, 27, 4)] + [Task(foreign)]
