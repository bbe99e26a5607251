"""Conversions between orders and the three indices: inverse of each other, nothing out of range is answered."""
import itertools

from run import Task
from checks.common import fringe_of, mn_of_fringe, mn_of_noll, mn_of_osa, noll_of, osa_of, blocks

BOUNDS = ("OSA index 0..1539, Noll index 1..1540, Fringe index 1..3025 as symbolic integers in blocks; out of range: -10^6..first index - 1, "
          "and 62004..10^6 (Fringe) / 1597..10^6 (OSA, Noll; orders above 55 are never searched); one index value 1..1539 read in all three schemes one after the other; non-integers: real numbers in -10..2000")
OUTSIDE = "integers beyond +-10^6, objects which are no numbers (a list of examples only)"


def _ints(c, msg, *vs):
    for v in vs:
        c.check(isinstance(v, c.int_types), msg + ": plain integers")


def osa(c, lo, hi):
    Z = c.Z.ZernPol
    j = c.int("osa", lo, hi)
    m, n = Z.index2orders(osa_index=j)
    _ints(c, "orders of an OSA index", m, n)
    c.check(c.all([n * (n + 2) + m == j * 2, m <= n, -n <= m, (n - m) % 2 == 0]), "orders of the OSA index")
    m, n = c.concrete(m), c.concrete(n)
    k = Z.osa2noll(j)
    f = Z.osa2fringe(j)
    _ints(c, "converted OSA index", k, f)
    c.check(k == noll_of(m, n), "OSA to Noll")
    c.check(f == fringe_of(m, n), "OSA to Fringe")
    c.check(Z.noll2osa(k) == j, "OSA to Noll and back")
    c.check(Z.fringe2osa(f) == j, "OSA to Fringe and back")


def noll(c, lo, hi):
    Z = c.Z.ZernPol
    j = c.int("noll", lo, hi)
    m, n = Z.index2orders(noll_index=j)
    _ints(c, "orders of a Noll index", m, n)
    m, n = c.concrete(m), c.concrete(n)
    c.check(abs(m) <= n and (n - m) % 2 == 0, "valid orders of the Noll index")
    c.check(j == noll_of(m, n), "orders of the Noll index")
    o = Z.noll2osa(j)
    _ints(c, "converted Noll index", o)
    c.check(o == osa_of(m, n), "Noll to OSA")
    c.check(Z.osa2noll(o) == j, "Noll to OSA and back")


def fringe(c, lo, hi):
    """Indices of orders above 54 may be refused, but never be given other orders."""
    Z = c.Z.ZernPol
    j = c.int("fringe", lo, hi)
    r, v = c.outcome(lambda: Z.index2orders(fringe_index=j))
    if r == "raised":
        j = c.concrete(j)
        c.check(mn_of_fringe(j)[1] > 54, "Fringe index of a supported polynomial is found")
        return
    m, n = v
    _ints(c, "orders of a Fringe index", m, n)
    m, n = c.concrete(m), c.concrete(n)
    c.check(abs(m) <= n and (n - m) % 2 == 0, "valid orders of the Fringe index")
    c.check(j == fringe_of(m, n), "orders of the Fringe index")
    r, o = c.outcome(lambda: Z.fringe2osa(j))
    if r == "raised":
        c.check(n > 54, "Fringe to OSA of a supported polynomial")
        return
    _ints(c, "converted Fringe index", o)
    c.check(o == osa_of(m, n), "Fringe to OSA")
    if n <= 54:
        c.check(Z.osa2fringe(o) == j, "Fringe to OSA and back")


def mixed(c, lo, hi, order):
    """The same number read as OSA, Noll and Fringe index, in both orders and again: no answer depends on an earlier one."""
    Z = c.Z.ZernPol
    j = c.int("index", lo, hi)
    seen = {}
    for scheme in order + order[::-1]:
        r, v = c.outcome(lambda: Z.index2orders(**{scheme + "_index": j}))
        if r == "ok":
            m, n = c.concrete(v[0]), c.concrete(v[1])
            c.check({"osa": osa_of, "noll": noll_of, "fringe": fringe_of}[scheme](m, n) == j, f"orders of the {scheme} index after others")
        else:
            m, n = None, None
        c.check(seen.setdefault(scheme, (m, n)) == (m, n), f"repeated question for the {scheme} index")
    r, k = c.outcome(lambda: (Z.osa2noll(j), Z.noll2osa(j), Z.osa2fringe(j), Z.fringe2osa(j)))
    if r == "ok":
        for scheme, f, v in (("osa", noll_of, k[0]), ("noll", osa_of, k[1]), ("osa", fringe_of, k[2]), ("fringe", osa_of, k[3])):
            c.check(seen[scheme][0] is not None and f(*seen[scheme]) == v, "conversions after others")


def edge(c, scheme, lo, hi):
    """Order 55 is still searched: right answer or ValueError."""
    Z = c.Z.ZernPol
    j = c.int("j", lo, hi)
    r, v = c.outcome(lambda: Z.index2orders(**{scheme + "_index": j}))
    if r == "ok":
        m, n = c.concrete(v[0]), c.concrete(v[1])
        c.check(j == (osa_of if scheme == "osa" else noll_of)(m, n), "orders of an index of order 55")


CONV = {"osa": ("osa2noll", "osa2fringe"), "noll": ("noll2osa",), "fringe": ("fringe2osa",)}


def outside(c, scheme, lo, hi):
    Z = c.Z.ZernPol
    j = c.int("j", lo, hi)
    for f in CONV[scheme]:
        c.raises(ValueError, lambda: getattr(Z, f)(j), f"{f} of an index out of range")
    c.raises(ValueError, lambda: Z.index2orders(**{scheme + "_index": j}), f"orders of a {scheme} index out of range")


def nonint(c, scheme):
    Z = c.Z.ZernPol
    x = c.real("x", -10, 2000)
    bad = c.choice("kind", [x, "3", None, [3], 3.0, 1j])
    for f in CONV[scheme]:
        c.raises(ValueError, lambda: getattr(Z, f)(bad), f"{f} of a non-integer")


def tasks(tier):
    t = []
    for a, b in blocks(0, 1539, 24):
        t.append(Task(osa, lo=a, hi=b, budget=200))
    for a, b in blocks(1, 1540, 24):
        t.append(Task(noll, lo=a, hi=b, budget=200))
    for a, b in blocks(1, 3025, 40):
        t.append(Task(fringe, lo=a, hi=b, budget=200))
    for a, b in blocks(1, 1539, 24):
        for o in (("osa", "noll", "fringe"), ("fringe", "noll", "osa")) if tier == "quick" else itertools.permutations(("osa", "noll", "fringe")):
            t.append(Task(mixed, lo=a, hi=b, order=o, budget=200))
    for s, lo in (("osa", 1540), ("noll", 1541)):
        t.append(Task(edge, scheme=s, lo=lo, hi=lo + 55))
    for s, first, beyond in (("osa", 0, 1596), ("noll", 1, 1597), ("fringe", 1, 62004)):
        t.append(Task(outside, scheme=s, lo=-10 ** 6, hi=first - 1))
        t.append(Task(outside, scheme=s, lo=beyond, hi=10 ** 6))
        t.append(Task(nonint, scheme=s))
    return t
