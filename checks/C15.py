"""generate_polynomials: every polynomial up to the order once, in the order of the OSA index."""
from run import Task
from checks.common import fringe_of, noll_of

BOUNDS = "maximum order: any integer -1000..54; three sets of orders 0..5, 4..6, 8..11 (thorough: 0..8) one after the other; non-integer orders: any real number in -20..12 and numpy integers"
OUTSIDE = "orders above 54 (no such polynomials), objects that are no numbers"


def _is_set(c, out, N):
    c.check(isinstance(out, tuple), "a tuple is returned")
    c.check(len(out) == (N + 1) * (N + 2) // 2, f"number of polynomials up to order {N}")
    k = 0
    for n in range(N + 1):
        for m in range(-n, n + 1, 2):
            c.check(isinstance(out[k], c.Z.ZernPol), "entries are polynomials")
            c.check(out[k].get_indices() == ((m, n), k, noll_of(m, n), fringe_of(m, n)), f"entry {k} has OSA index {k}")
            k += 1


def orders(c, lo, hi):
    N = c.int("order", lo, hi)
    r, out = c.outcome(lambda: c.Z.generate_polynomials(N))
    if r == "raised":
        c.check(N < 0, "orders from 0 are accepted")
        return
    c.check(N >= 0, "negative orders are refused")
    N = c.concrete(N)
    _is_set(c, out, N)
    again = c.Z.generate_polynomials(max_order=N)
    _is_set(c, again, N)


def converted(c, lo, hi):
    x = c.real("order", lo, hi)
    r, out = c.outcome(lambda: c.Z.generate_polynomials(x))
    c.check(len(c.warnings) >= 1, "a warning about a non-integer order")
    if r == "raised":
        c.check(x <= -1, "orders from 0 are accepted")
        return
    c.check(x > -1, "negative orders are refused")
    N = c.np.floor(x) if c.decide(x >= 0) else 0
    _is_set(c, out, int(c.concrete(N)))


def earlier(c, lo, hi):
    """The set does not depend on sets generated before."""
    for k in range(3):
        N = c.concrete(c.int(f"order {k}", lo, hi))
        _is_set(c, c.Z.generate_polynomials(N), N)


def numpy_int(c):
    n = c.concrete(c.int("order", 0, 8))
    out = c.Z.generate_polynomials(c.np.int64(n))
    _is_set(c, out, n)
    _is_set(c, c.Z.generate_polynomials(), 10)


def tasks(tier):
    t = [Task(orders, lo=-1000, hi=8, budget=100)]
    t += [Task(orders, lo=a, hi=min(a + 4, 54), budget=200) for a in range(9, 55, 5)]
    t += [Task(converted, lo=-20, hi=5), Task(converted, lo=5, hi=12), Task(numpy_int)]
    t += [Task(earlier, lo=a, hi=b, budget=100) for a, b in ((0, 3), (4, 6), (8, 11))] + [Task(earlier, lo=0, hi=8 if tier == "thorough" else 5, budget=200)]
    return t
