"""The constructor accepts exactly the valid specifications and reports one consistent polynomial."""
import itertools
from run import Task
from checks.common import fringe_of, mn_of_fringe, mn_of_noll, mn_of_osa, noll_of, osa_of, blocks

NK, MK = ("n", "radial_order"), ("m", "l", "azimuthal_order", "angular_frequency")
OK_, NOK, FK = ("osa_index", "osa", "ansi_index", "ansi"), ("noll_index", "noll"), ("fringe_index", "fringe")
ALL = NK + MK + OK_ + NOK + FK + ("order", "index")
BOUNDS = ("orders n, m in -1000..1000 symbolic; OSA, Noll, Fringe index symbolic, 0..1539 / 1..1540 / 1..3025 in blocks and -10^6..first-1, "
          "1540 (1541, 62004)..10^6; every documented keyword, every combination of 0..3 keywords out of 16")
OUTSIDE = "more than three keywords, Fringe indices 3026..62003, non-integer objects beyond the listed examples"


def _index(c, p, m, n):
    am = c.ite(m < 0, -m, m)
    i = p.get_indices()
    c.check(len(i) == 4 and len(i[0]) == 2, "shape of the indices tuple")
    c.check(c.all([i[0][0] == m, i[0][1] == n]), "orders reported with the indices")
    mn = p.get_mn_orders()
    c.check(c.all([mn[0] == m, mn[1] == n]), "orders reported")
    c.check(i[1] * 2 == n * (n + 2) + m, "OSA index reported")
    plus0 = c.any([c.all([m > 0, c.any([n % 4 == 0, n % 4 == 1])]), c.all([m < 0, c.any([n % 4 == 2, n % 4 == 3])])])
    c.check(i[2] * 2 == n * (n + 1) + am * 2 + c.ite(plus0, 0, 2), "Noll index reported")
    c.check(i[3] * 4 == (n + am + 2) * (n + am + 2) - am * 8 + c.ite(m < 0, 4, 0), "Fringe index reported")
    for v in (i[0][0], i[0][1], i[1], i[2], i[3]):
        c.check(isinstance(v, c.int_types), "orders and indices are plain integers")


def orders(c, nlo, nhi, mlo, mhi, nk=None, mk=None, ordered=False):
    """Any integers: accepted exactly when valid."""
    n, m = c.int("n", nlo, nhi), c.int("m", mlo, mhi)
    nk = nk or c.choice("nkey", NK)
    mk = mk or c.choice("mkey", MK)
    kw = {nk: n, mk: m} if (c.bool("order") if ordered else n is m) else {mk: m, nk: n}
    r, p = c.outcome(lambda: c.Z.ZernPol(**kw))
    valid = c.all([n >= 0, n <= 54, m <= n, -n <= m, (n - m) % 2 == 0])
    if r == "ok":
        c.check(valid, "only valid orders are accepted")
        _index(c, p, m, n)
    else:
        c.check(c.neg(valid), "valid orders are accepted")


def by_index(c, keys, lo, hi, key=None):
    j = c.int("j", lo, hi)
    k = key or c.choice("key", keys)
    r, p = c.outcome(lambda: c.Z.ZernPol(**{k: j}))
    j = c.concrete(j)
    m, n = (mn_of_osa if keys is OK_ else mn_of_noll if keys is NOK else mn_of_fringe)(j)
    if r == "raised":
        c.check(n > 54, "index of a supported polynomial is accepted")
        return
    c.check(n <= 54, "index of an unsupported polynomial is refused")
    i = p.get_indices()
    c.check(i == ((m, n), osa_of(m, n), noll_of(m, n), fringe_of(m, n)), "orders and indices of a polynomial given by index")
    c.check(p.get_mn_orders() == (m, n), "orders of a polynomial given by index")
    for v in (i[0][0], i[0][1], i[1], i[2], i[3]):
        c.check(isinstance(v, c.int_types), "orders and indices are plain integers")


def bad_index(c, keys, lo, hi):
    j = c.int("j", lo, hi)
    k = c.choice("key", keys)
    c.raises(ValueError, lambda: c.Z.ZernPol(**{k: j}), f"index {k} out of range is refused")


def bad_type(c, keys):
    x = c.real("x", 0, 10)
    k = c.choice("key", keys)
    v = c.choice("value", [x, 2.0, "2", None, (2,)])
    c.raises(ValueError, lambda: c.Z.ZernPol(**{k: v}), f"non-integer {k} is refused")


def bad_order_type(c):
    x = c.real("x", 0, 10)
    v = c.choice("value", [x, 2.0, "2", None, [2]])
    nk, mk = c.choice("nkey", NK), c.choice("mkey", MK)
    w = c.choice("which", [0, 1])
    kw = {nk: v, mk: 2} if w == 0 else {nk: 2, mk: v}
    c.raises(ValueError, lambda: c.Z.ZernPol(**kw), "non-integer order is refused")


def keys(c, size):
    """Every keyword combination which is no specification is refused (values all valid by themselves)."""
    v = {k: 4 for k in ALL}
    v.update(m=2, l=2, azimuthal_order=2, angular_frequency=2)
    for ks in itertools.combinations(ALL, size):
        good = (size == 1 and ks[0] in OK_ + NOK + FK) or (size == 2 and len(set(ks) & set(NK)) == 1 and len(set(ks) & set(MK)) == 1)
        kw = {k: v[k] for k in ks}
        if good:
            r, p = c.outcome(lambda: c.Z.ZernPol(**kw))
            c.check(r == "ok", f"specification {ks} is accepted")
        else:
            c.raises(ValueError, lambda: c.Z.ZernPol(**kw), f"specification {ks} is refused")


def independent(c, hi):
    """Objects do not influence each other, a failed creation leaves nothing behind."""
    Z = c.Z.ZernPol
    n1, m1, k1 = c.int("n1", 0, hi), c.int("m1", -hi, hi), c.int("k1", 0, hi)
    n2, m2, k2 = c.int("n2", 0, 54), c.int("m2", -54, 54), c.int("k2", 0, 54)
    for n, m, k in ((n1, m1, k1), (n2, m2, k2)):
        c.assume(n - m == k * 2)
        c.assume(m <= n)
        c.assume(-n <= m)
    a = Z(n=n1, m=m1)
    ia = a.get_indices()
    b = Z(m=m2, n=n2)
    ib = b.get_indices()
    c.raises(ValueError, lambda: Z(n=n1, m=n1 + 1), "wrong parity")
    c.raises(ValueError, lambda: Z(), "no keywords")
    d = Z(osa=c.int("o", 0, 5))
    for p, m, n, i in ((a, m1, n1, ia), (b, m2, n2, ib)):
        j = p.get_indices()
        c.check(c.all([i[1] == j[1], i[2] == j[2], i[3] == j[3], j[0][0] == m, j[0][1] == n, i[0][0] == m, i[0][1] == n]),
                "orders and indices stay as they were after creating other polynomials")
    c.check(d.get_mn_orders()[1] <= 2, "third polynomial")


def tasks(tier):
    deep = tier != "quick"
    t = [Task(orders, nlo=0, nhi=4, mlo=-9, mhi=9, ordered=True, budget=300)]
    for i, (a, b) in enumerate(blocks(0, 54, 7)):
        k = {} if deep else {"nk": NK[i % 2], "mk": MK[i % 4]}
        t.append(Task(orders, nlo=a, nhi=b, mlo=-70, mhi=70, budget=300, **k))
    t += [Task(orders, nlo=-1000, nhi=-1, mlo=-1000, mhi=1000, nk="n", mk="m"),
          Task(orders, nlo=55, nhi=1000, mlo=-1000, mhi=1000, nk="n", mk="m"),
          Task(orders, nlo=0, nhi=54, mlo=71, mhi=1000, nk="n", mk="m"), Task(orders, nlo=0, nhi=54, mlo=-1000, mhi=-71, nk="n", mk="m")]
    for ks, lo, hi, bl in ((OK_, 0, 1539, 70), (NOK, 1, 1540, 70), (FK, 1, 3025, 130)):
        t.append(Task(by_index, keys=ks, lo=lo, hi=lo + 20, name=f"by_index({ks}, {lo}..{lo + 20})"))
        for i, (a, b) in enumerate(blocks(lo, hi, bl)):
            k = None if deep else ks[i % len(ks)]
            t.append(Task(by_index, keys=ks, lo=a, hi=b, key=k, name=f"by_index({k or ks}, {a}..{b})", budget=200))
    for ks, first, beyond in ((OK_, 0, 1540), (NOK, 1, 1541), (FK, 1, 62004)):
        t.append(Task(bad_index, keys=ks, lo=-10 ** 6, hi=first - 1, name=f"bad_index({ks[0]}, below)"))
        t.append(Task(bad_index, keys=ks, lo=beyond, hi=10 ** 6, name=f"bad_index({ks[0]}, above)"))
        t.append(Task(bad_type, keys=ks, name=f"bad_type({ks[0]})"))
    t.append(Task(bad_order_type))
    t += [Task(keys, size=s) for s in (0, 1, 2, 3)]
    t.append(Task(independent, hi=54 if deep else 3))
    return t
