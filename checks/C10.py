"""Sums of polynomials: the linear combination at every point, on points and on surfaces."""
from run import Task
from checks.C05 import tol
from checks.common import norm_factor, radial_coeffs, znorm

SETS = [((0, 0),), ((-1, 1),), ((0, 0), (1, 1), (-2, 2)), ((2, 2), (0, 4), (0, 0)), ((-3, 3), (-3, 3), (1, 5)), ((0, 0), (0, 0)),
        ((1, 13), (0, 2), (-12, 12)), ((0, 12), (-1, 1), (0, 0), (4, 4))]
BOUNDS = ("8 sets of 1..4 polynomials (n <= 13, repeated ones included), coefficients any real in -5..5 (zero included) as list, tuple, array; points: scalars, "
          "lists, arrays of shapes (3,), (2, 2), mixed scalar / array; surfaces of all sizes 1..4 x 1..4 (6 x 6 thorough), any radii in [0, 1] and angles in [0, 6.28]")
OUTSIDE = "larger grids and sets; the polynomial values themselves for all orders are decided in C05 and C07"


def tols(ps):
    return max(tol(radial_coeffs(n, m)) * norm_factor(n, m) for m, n in ps) * 20


def setup(c, ps, ctype="list"):
    pols = [c.Z.ZernPol(m=m, n=n) for m, n in ps]
    a = [c.real(f"a{i}", -5, 5) for i in range(len(ps))]
    arg = {"list": list, "tuple": tuple, "array": c.nparray}[ctype](a)
    return pols, a, arg


def want(c, ps, a, r, t):
    s = 0.0
    for k, (m, n) in zip(a, ps):
        s = s + znorm(c, m, n, r, t) * k
    return s


def points(c, ps, kind, ctype):
    pols, a, arg = setup(c, ps, ctype)
    shape = {"scalar": (), "array": (3,), "2d": (2, 2), "list": (2,), "mixed_r": (3,), "mixed_t": (2,)}[kind]
    if kind == "scalar":
        r, th = c.real("r", 0, 1), c.real("theta", 0, 6.28)
        rs, ts = [r], [th]
    else:
        r, th = c.array("r", shape, 0, 1), c.array("theta", shape, 0, 6.28)
        rs, ts = c.flat(r), c.flat(th)
        if kind == "list":
            r, th = list(rs), list(ts)
        elif kind == "mixed_r":
            r, rs = rs[0], [rs[0]] * 3
        elif kind == "mixed_t":
            th, ts = ts[0], [ts[0]] * 2
    p2 = tuple(pols) if ctype == "tuple" else pols
    out = c.Z.ZernPol.sum_zernikes(arg, p2, r, th)
    plain = all(n == 0 for m, n in ps) and kind.startswith("mixed")
    if kind == "scalar" or plain:
        out = c.flat(out) * (len(rs) if plain and len(c.flat(out)) == 1 else 1)
    else:
        c.check(tuple(c.np.shape(out)) == shape, "shape of the sum")
        out = c.flat(out)
    c.check(len(out) == len(rs), "number of sums")
    for v, x, y in zip(out, rs, ts):
        c.close(v, want(c, ps, a, x, y), tols(ps), f"sum of {ps}")
    c.check(len(arg) == len(ps) and len(p2) == len(ps), "inputs keep their length")
    for x, y in zip(c.flat(arg), a):
        c.close(x, y, 0, "coefficients are not modified", 0)
    for (m, n), p in zip(ps, p2):
        c.check(p.get_mn_orders() == (m, n), "polynomials are not modified")
    if kind not in ("scalar",):
        for x, y in zip(c.flat(r) + c.flat(th), (rs if kind != "mixed_r" else rs[:1]) + (ts if kind != "mixed_t" else ts[:1])):
            c.close(x, y, 0, "points are not modified", 0)


def surface(c, ps, nr, nt, ctype):
    pols, a, arg = setup(c, ps, ctype)
    r, th = c.array("r", nr, 0, 1), c.array("theta", nt, 0, 6.28)
    rs, ts = c.flat(r), c.flat(th)
    fs = [c.Z.ZernPol.sum_zernikes]
    f = getattr(c.Z.ZernPol, "_sum_zernikes_meshgrid", None)
    for i, out in enumerate([c.Z.ZernPol.sum_zernikes(arg, pols, r, th, get_surface=True)] + ([f(arg, pols, r, th)] if f and nr + nt < 6 else [])):
        c.check(tuple(c.np.shape(out)) == (nr, nt), "shape of the surface")
        v = c.flat(out)
        for j in range(nr):
            for k in range(nt):
                c.close(v[j * nt + k], want(c, ps, a, rs[j], ts[k]), tols(ps), f"surface of {ps} at radius {j}, angle {k} of {nr} x {nt}")
    for x, y in zip(c.flat(r) + c.flat(th) + c.flat(arg), rs + ts + a):
        c.close(x, y, 0, "inputs are not modified", 0)


def refused(c):
    Z = c.Z.ZernPol
    pols = [Z(osa=i) for i in (0, 3, 4)]
    a = [c.real(f"a{i}", -5, 5) for i in range(3)]
    surf = c.bool("surface")
    if surf:
        r, th = c.array("r", c.choice("nr", [1, 2, 3]), 0, 1), c.array("theta", c.choice("nt", [1, 2, 3]), 0, 6)
    else:
        r, th = c.choice("points", [(0.5, 1.0), ([0.5, 0.1], [1.0, 2.0])])
    f = lambda x, y: Z.sum_zernikes(x, y, r, th, get_surface=surf)
    for i in range(4):
        for j in range(4):
            if i != j:
                c.raises(ValueError, lambda: f(a[:i], pols[:j]), f"{i} coefficients for {j} polynomials are refused")
    c.raises(ValueError, lambda: f([], []), "an empty sum is refused")
    c.raises(ValueError, lambda: f((), ()), "an empty sum is refused")
    bad = c.choice("entry", [1.0, "Z", None, (0, 0), c.Z])
    pos = c.choice("position", [0, 1, 2])
    q = list(pols)
    q[pos] = bad
    c.raises(ValueError, lambda: f(a, q), "an entry which is no polynomial is refused")
    if not surf:
        c.raises(ValueError, lambda: Z.sum_zernikes(a, pols, 1.5, 1.0), "a radius outside the circle is refused")
        c.raises(ValueError, lambda: Z.sum_zernikes(a, pols, c.nparray([0.1, 0.2]), c.nparray([0.1, 0.2, 0.3])), "different shapes are refused")


def tasks(tier):
    t = []
    deep = tier != "quick"
    for i, ps in enumerate(SETS):
        for j, kind in enumerate(("scalar", "array", "2d", "list", "mixed_r", "mixed_t")):
            for k, ct in enumerate(("list", "tuple", "array")):
                if deep or (i + j + k) % 3 == 0:
                    t.append(Task(points, ps=ps, kind=kind, ctype=ct))
    N = 7 if deep else 5
    for nr in range(1, N):
        for nt in range(1, N):
            for i, ps in enumerate(SETS):
                if deep or (i + nr + nt) % 4 == 0 or i == 2:
                    t.append(Task(surface, ps=ps, nr=nr, nt=nt, ctype=("list", "tuple", "array")[(i + nr) % 3], budget=200))
    t.append(Task(refused, budget=120))
    return t
