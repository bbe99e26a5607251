"""No call changes what a later call returns, nor what an earlier call returned."""
from run import Task
from checks.C05 import ctol, tol
from checks.common import angular, angular_d, deriv, fringe_of, noll_of, norm_factor, osa_of, radial_coeffs

POLS = [(0, 0), (1, 1), (-1, 1), (-2, 2), (0, 4), (1, 9), (0, 12), (1, 13), (-3, 13), (3, 13), (0, 14), (2, 14), (-1, 15), (4, 16), (1, 41)]
OPS = [("value", 0), ("value", 1), ("radial", 0), ("radial", 1), ("radial_dr", 0), ("radial_dr", 1), ("triangular", 0), ("triangular_dtheta", 0)]
BOUNDS = ("15 polynomials (tabulated, recursive, coefficient route, n = 41), 5 methods, both routes: every ordered pair of (polynomial, method) a, b in histories a b a, "
          "each b followed by a again, with two symbolic radii / angles and two symbolic arrays; same and fresh instances; library calls on sums, sets of polynomials, "
          "grids, images and fits in between; given and returned arrays changed by their owner between two calls")
OUTSIDE = "longer histories than the pairs chained in one run, concurrent use of one instance"


class World:
    def __init__(self, c, n_arr=2):
        self.c = c
        self.r = [c.real("r0", 0, 1), c.real("r1", 0, 1)]
        self.t = [c.real("t0", 0, 6), c.real("t1", 0, 6)]
        self.ra = [c.array("ra0", n_arr, 0, 1), c.array("ra1", n_arr, 0, 1)]
        self.ta = [c.array("ta0", n_arr, 0, 6), c.array("ta1", n_arr, 0, 6)]
        self.pols = {}
        self.kept = []
        self.ref = {}

    def pol(self, mn):
        if mn not in self.pols:
            self.pols[mn] = self.c.Z.ZernPol(m=mn[0], n=mn[1])
        return self.pols[mn]

    def expected(self, mn, op, x, t, key):
        k = (mn, op, key)
        if k in self.ref:
            return self.ref[k]
        (m, n), c = mn, self.c
        if op == "triangular":
            v = angular(c, m, t)
        elif op == "triangular_dtheta":
            v = angular_d(c, m, t)
        else:
            cs = radial_coeffs(n, m)
            v = c.poly(deriv(cs) if op == "radial_dr" else cs, x)
            if op == "value":
                v = v * angular(c, m, t) * norm_factor(n, m)
        self.ref[k] = v
        return v

    def run(self, mn, opx, var, keep=False, fresh=False):
        """Evaluates and compares with the definition, which knows no history. var: 0, 1 scalars, 2, 3 arrays."""
        c, (op, exact) = self.c, opx
        if exact and mn[1] > 38:
            exact = 0
        p = c.Z.ZernPol(m=mn[0], n=mn[1]) if fresh else self.pol(mn)
        i = var % 2
        r, t = (self.r[i], self.t[i]) if var < 2 else (self.ra[i], self.ta[i])
        if op == "value":
            v = p.polynomial_value(r, t, use_exact_eq=bool(exact))
        elif op in ("radial", "radial_dr"):
            v = getattr(p, op)(r, use_exact_eq=bool(exact))
        else:
            v = getattr(p, op)(t)
        self.compare(v, mn, op, var)
        if keep:
            self.kept.append((v, mn, op, var))

    def compare(self, v, mn, op, var, msg="result"):
        c = self.c
        i = var % 2
        cs = radial_coeffs(mn[1], mn[0])
        k = norm_factor(mn[1], mn[0]) * max(1, mn[1] ** 2)
        xs = [(self.r[i], self.t[i])] if var < 2 else list(zip(c.flat(self.ra[i]), c.flat(self.ta[i])))
        vs = [v] if var < 2 else c.flat(v)
        c.check(len(vs) == len(xs), "number of values")
        for j, (a, (x, t)) in enumerate(zip(vs, xs)):
            c.close(a, self.expected(mn, op, x, t, (var, j)), k * tol(cs), f"{msg}: {op} of m={mn[0]}, n={mn[1]}", k * ctol(cs))

    def finish(self):
        c = self.c
        for v, mn, op, var in self.kept:
            self.compare(v, mn, op, var, "result returned earlier")
        for (m, n), p in self.pols.items():
            c.check(p.get_indices() == ((m, n), osa_of(m, n), noll_of(m, n), fringe_of(m, n)), "orders and indices stay")
            c.check(p.get_mn_orders() == (m, n), "orders stay")


def pairs_(c, mn, var):
    """a, then every b each followed by a again (chained, so the history grows)."""
    w = World(c)
    op = c.choice("op", OPS)
    big = mn[1] > 40
    w.run(mn, op, var, keep=True)
    k = 0
    for b in POLS:
        if b[1] > 40 and (big or op[0] == "triangular"):
            continue
        for o in OPS:
            k += 1
            w.run(b, o, (var + k) % 4, keep=k % 7 == 0, fresh=k % 5 == 0)
            if not big or k % 12 == 0:
                w.run(mn, op, (var, (var + k) % 4)[k % 3 == 0], fresh=k % 4 == 0)
    w.run(mn, op, var)
    w.finish()


def others(c, first):
    """Other library calls in between."""
    Z = c.Z
    w = World(c)
    for mn in POLS[:12]:
        w.run(mn, ("value", 0), first, keep=True)
    k = c.choice("call", list(range(8)))
    mn = POLS[c.choice("pol", [1, 4, 7, 11])]
    ps = [w.pol(q) for q in ((0, 0), (1, 1), (-2, 2), (1, 13))]
    a = [c.real(f"a{i}", -2, 2) for i in range(4)]
    if k == 0:
        Z.ZernPol.sum_zernikes(a, ps, w.r[0], w.t[0])
        Z.ZernPol.sum_zernikes(a, ps, w.ra[0], w.ta[1])
    elif k == 1:
        Z.ZernPol.sum_zernikes(a, ps, w.ra[1], w.ta[0], get_surface=True)
    elif k == 2:
        Z.generate_polynomials(4)
    elif k == 3:
        Z.ZernPol.gen_polar_coordinates(0.25, 1.0)
        Z.ZernPol.gen_zernikes_surface(a, ps, r_step=0.5, theta_rad_step=3.0)
    elif k == 4:
        Z.generate_phases_image(tuple(ps), tuple(a), 4, 3)
    elif k == 5:
        Z.fit_polynomials_vectors((ps[0], ps[1]), c.nparray([1.0, 2.0, 0.5]), c.nparray([0.5, 1.0, 0.0]), c.nparray([0.0, 1.0, 2.0]))
    elif k == 6:
        str(ps[1]), ps[1].get_polynomial_name(short=True), ps[0] == ps[1], ps[0] > ps[2], ps[3].normf()
        Z.ZernPol.osa2noll(5), Z.ZernPol.index2orders(fringe_index=8)
    else:
        f = Z.ZernPSF(tuple(ps[1:3]))
        c.outcome(lambda: f.set_physical_props(0.5, 0.6, [0.1, 0.2], 0.1))
    w.run(mn, ("value", 0), first)
    w.run(mn, ("radial_dr", 0), first)
    w.finish()


def owner(c, mn):
    """The owner changes an array between two calls; nothing of the old contents may be used again."""
    p = c.Z.ZernPol(m=mn[0], n=mn[1])
    r, t = c.array("r", 2, 0, 1), c.array("t", 2, 0, 6)
    x, y = c.real("x", 0, 1), c.real("y", 0, 6)
    cs = radial_coeffs(mn[1], mn[0])
    op = c.choice("op", OPS)

    def f(q):
        if op[0] == "value":
            return q.polynomial_value(r, t, use_exact_eq=bool(op[1]))
        if op[0] in ("radial", "radial_dr"):
            return getattr(q, op[0])(r, use_exact_eq=bool(op[1]))
        return getattr(q, op[0])(t)
    f(p)
    r[1], t[1] = x, y
    out = c.flat(f(p))
    out2 = c.flat(f(c.Z.ZernPol(m=mn[0], n=mn[1])))
    w = World.__new__(World)
    w.c, w.ref = c, {}
    k = norm_factor(mn[1], mn[0]) * max(1, mn[1] ** 2)
    for j, (a, b) in enumerate(zip(c.flat(r), c.flat(t))):
        v = w.expected(mn, op[0], a, b, j)
        c.close(out[j], v, k * tol(cs), "values after the array was changed by its owner", k * ctol(cs))
        c.close(out2[j], v, k * tol(cs), "values of a new instance after the array was changed by its owner", k * ctol(cs))


def taken(c, mn):
    """The caller changes a returned array; later calls do not show it."""
    w = World(c)
    op = c.choice("op", OPS)
    p = w.pol(mn)

    def f(q):
        if op[0] == "value":
            return q.polynomial_value(w.ra[0], w.ta[0], use_exact_eq=bool(op[1]))
        if op[0] in ("radial", "radial_dr"):
            return getattr(q, op[0])(w.ra[0], use_exact_eq=bool(op[1]))
        return getattr(q, op[0])(w.ta[0])
    v = f(p)
    w.compare(v, mn, op[0], 2)
    v[0] = c.real("x", -5, 5)
    v *= 3.0
    w.compare(f(p), mn, op[0], 2, "result after an earlier one was changed by its owner")
    w.compare(f(c.Z.ZernPol(m=mn[0], n=mn[1])), mn, op[0], 2, "result of a new instance after an earlier one was changed by its owner")


def taken_other(c, k):
    """The same for surfaces, sums, grids, images and sets."""
    Z = c.Z
    ps = [Z.ZernPol(m=m, n=n) for m, n in ((0, 0), (1, 1), (0, 2))]
    a, r, t = [c.real(f"a{i}", -2, 2) for i in range(3)], c.array("r", 2, 0, 1), c.array("t", 2, 0, 6)
    call = [lambda: Z.ZernPol.sum_zernikes(a, ps, r, t), lambda: Z.ZernPol.sum_zernikes(a, ps, r, t, get_surface=True),
            lambda: Z.ZernPol.gen_polar_coordinates(0.25, 1.0)[0], lambda: Z.ZernPol.gen_polar_coordinates(0.25, 1.0)[1],
            lambda: Z.ZernPol.gen_equal_polar_mesh(4)[0], lambda: Z.ZernPol.gen_equal_polar_mesh(4)[1],
            lambda: Z.generate_phases_image(tuple(ps), tuple(a), 4, 3), lambda: Z.ZernPol.gen_zernikes_surface(a, ps, r_step=0.5, theta_rad_step=3.0)[0],
            lambda: Z.fit_polynomials_vectors((ps[0], ps[1]), c.nparray([1.0, a[0], 0.5]), c.nparray([0.5, 1.0, 0.0]), c.nparray([0.0, 1.0, 2.0]))][k]
    v = call()
    old = c.flat(v)
    v[0] = c.real("x", -5, 5)
    c.closes(c.flat(call()), old, 1e-12, "result after an earlier one was changed by its owner")


def tasks(tier):
    t = []
    for mn in POLS:
        for v in (0, 3) if tier == "quick" else range(4):
            t.append(Task(pairs_, mn=mn, var=v, budget=400, validate=mn[1] < 20))
    t += [Task(others, first=v, budget=100) for v in range(4)]
    t += [Task(owner, mn=mn, budget=100) for mn in POLS if mn[1] < 30]
    t += [Task(taken, mn=mn, budget=100) for mn in POLS if mn[1] < 30] + [Task(taken_other, k=k) for k in range(9)]
    return t
