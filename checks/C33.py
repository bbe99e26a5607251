"""The hint about slow calculations: once per polynomial, only for high orders, whatever was called before."""
from run import Task
from checks.common import memo_radial

BOUNDS = ("polynomials with n = 13, 40, 41, 48 .. 53 and four m each; every sequence of 3 (thorough 4) calls of radial, polynomial_value and radial_dr on two objects of the same orders, default or exact "
          "route; every radius in [0, 1] and angle in [0, 2 pi] (symbolic)")
OUTSIDE = "texts of the warnings; the measured time; further calls and objects"

KINDS = {"radial": (50, 40, lambda p, r, t, e: p.radial(r, use_exact_eq=e)),
         "value": (50, 40, lambda p, r, t, e: p.polynomial_value(r, t, use_exact_eq=e)),
         "derivative": (48, 38, lambda p, r, t, e: p.radial_dr(r, use_exact_eq=e))}


def history(c, n, m, calls, exact):
    memo_radial(c)
    r, t = c.real("r", 0, 1), c.real("t", 0, 6.28)
    ps = [c.Z.ZernPol(m=m, n=n), c.Z.ZernPol(m=m, n=n)]
    said, values = [False, False], {}
    for i in range(calls):
        who = c.choice(f"object{i}", [0, 1]) if i else 0
        kind = c.choice(f"kind{i}", list(KINDS))
        e = exact and c.choice(f"exact{i}", [False, True])
        slow, limit, f = KINDS[kind]
        k = len(c.warnings)
        v = f(ps[who], r, t, e)
        if e:
            want = int(n > limit)
        else:
            want = int(n > slow and not said[who])
            said[who] = said[who] or n > slow
        c.check(len(c.warnings) - k == want, f"{'a' if want else 'no'} warning of call {i} ({kind})")
        if (kind, e) in values:
            c.close(v, values[kind, e], 0, "the value does not depend on the warning", 1e-12)
        values[kind, e] = v


def generated(c, order):
    """The first polynomials of a list warn independently of each other."""
    memo_radial(c)
    r = c.real("r", 0, 1)
    for n, w in ((order, 1), (order + 1, 1), (40, 0), (order, 1)):
        p = c.Z.ZernPol(m=-n, n=n)
        k = len(c.warnings)
        p.radial_dr(r)
        p.radial(r)
        c.check(len(c.warnings) - k == w, "one warning per slow polynomial")


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for n in (53, 52, 51, 50, 49, 48, 41, 40, 13):
        for m in (-n, n % 2, n - 2, n):
            x = m in (-n, n - 2)
            out.append(Task(history, n=n, m=m, calls=3 + deep, exact=x, budget=200, validate=m == n, max_paths=20000))
    out += [Task(generated, order=o) for o in (51, 52)]
    return out
