"""generate_random_phases with every outcome of the random generator."""
from symz.core import Unsupported
from run import Task
from checks.common import pairs
from checks.C10 import tols
from checks.C12 import image_matches

BOUNDS = ("every subset of selected polynomials for order 1, up to 3 selected ones for order 2 (thorough: all), one for orders 3 and 4 (thorough: 2 for 3, 1 for 5), the fall-back "
          "only for 5 and 9; every amplitude the generator can return, every choice in the fall-back; images 3 x 3, 4 x 5, 5 x 2, 1 x 1 and smaller; 4, 2 and 1 digits")
OUTSIDE = "larger selections and images; 0 digits (rounding may leave the range); the distribution of the random numbers"
CURRENT = None


class Rnd:
    """random module whose results are inputs of the harness."""

    def __init__(self):
        self.c, self.pattern, self.n, self.u = None, (), 0, 0

    def choice(self, seq):
        seq = list(seq)
        if all(isinstance(x, bool) for x in seq) and len(set(seq)) > 1:
            b = self.pattern[self.n] if self.n < len(self.pattern) else False
            self.n += 1
            return b
        self.u += 1
        return self.c.choice(f"choice{self.u}", seq)

    def uniform(self, a, b):
        self.u += 1
        return self.c.real(f"uniform{self.u}", a, b)

    def random(self):
        return self.uniform(0.0, 1.0)

    def randint(self, a, b):
        self.u += 1
        return self.c.concrete(self.c.int(f"randint{self.u}", a, b))

    def randrange(self, a, b=None):
        return self.randint(0, a - 1) if b is None else self.randint(a, b - 1)

    def seed(self, *a):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"random.{n}")


def factory(eng):
    global CURRENT
    CURRENT = Rnd()
    return CURRENT


def patterns(k, most):
    from itertools import combinations
    return [tuple(i in s for i in range(k)) for q in range(most + 1) for s in combinations(range(k), q)]


def phases(c, order, most, h, w, digits, part=(0, 1)):
    ps = pairs(order)
    rnd = CURRENT
    rnd.c = c
    rnd.pattern = c.choice("pattern", patterns(len(ps), most)[part[0]::part[1]])
    f = c.mod("zernikepol").generate_random_phases
    img, amps, pols = f(order, w, h) if digits == 4 else f(max_order=order, img_width=w, img_height=h, round_digits=digits)
    c.check(isinstance(pols, tuple), "the polynomials are a tuple")
    c.check([p.get_mn_orders() for p in pols] == ps, "all polynomials up to the order in OSA order")
    c.check(tuple(c.np.shape(amps)) == (len(ps),), "one amplitude per polynomial")
    a = list(c.flat(amps))
    for i, x in enumerate(a):
        c.check(c.all([x <= 1.5, x >= -1.5]), f"amplitude {i} within [-1.5, 1.5]")
    c.check(c.any([x >= 0.08 for x in a] + [x <= -0.08 for x in a]), "at least one amplitude is not negligible")
    image_matches(c, img, h, w, ps, a, tols(ps))


def tasks(tier):
    th = tier == "thorough"
    o = dict(opts={"rnd": factory})
    t = [Task(phases, order=1, most=3, h=h, w=w, digits=d, **o) for h, w in ((3, 3), (4, 5), (5, 2), (1, 1)) for d in (4, 2, 1)]
    t += [Task(phases, order=2, most=6 if th else 3, h=3, w=3, digits=4, part=(i, 16), budget=200, **o) for i in range(16)]
    t += [Task(phases, order=2, most=6 if th else 1, h=2, w=4, digits=2, part=(i, 16 if th else 2), **o) for i in range(16 if th else 2)]
    t += [Task(phases, order=3, most=2 if th else 1, h=2, w=3, digits=4, part=(i, 8), **o) for i in range(8)]
    t += [Task(phases, order=4, most=1, h=2, w=2, digits=2, part=(i, 8), **o) for i in range(8)]
    t += [Task(phases, order=5, most=1 if th else 0, h=2, w=2, digits=4, part=(i, 22 if th else 1), **o) for i in range(22 if th else 1)]
    t += [Task(phases, order=9, most=0, h=1, w=2, digits=4, **o)]
    return t
