"""PSF settings: what is in effect is what was accepted last, as a whole."""
import inspect

from run import Task

BOUNDS = ("one and two polynomials (also the Airy case); two calls in a row of settings with NA -0.5..2, wavelength -0.5..2, pixel size -0.1..0.5, coefficients -3..3 (as number, list, array, wrong number "
          "of coefficients), kernel size -3..60, radius points 10..600, angle points 20..600, all symbolic, valid and not valid (two polynomials: two valid and four invalid triples, coefficients 0.01..0.1), estimates of the kernel size 3..61 symbolic; up to two other calls "
          "(calculation, cropping, convolution, saving) in between; compared with a fresh object that got the accepted calls only; kernels of free intensities 5 x 5")
OUTSIDE = "not-a-number and infinite values, direct assignment of attributes, printed notes, the parallel calculation (C25)"

PUBLIC = ("NA", "wavelength", "pixel_size", "expansion_coeff", "coefficients", "amplitudes", "kernel_size", "n_int_r_points", "n_int_phi_points", "k", "alpha", "airy")


class World:
    """Stand-ins of the kernel calculations that keep what they were asked for."""

    def __init__(self, c):
        self.c, self.calls, self.given = c, [], []
        zp = self.zp = c.mod("zernpsf")
        for name in ("get_psf_kernel", "get_psf_kernel_comp", "get_psf_kernel_zerns"):
            f = getattr(zp, name, None)
            if f is not None:
                c.patch(zp, name, self.stub(name, f))
        self.estimates, self.n = {}, 0
        c.patch(zp, "get_kernel_size", self.estimate)

    def estimate(self, *a, **k):
        """The same object of the comparison gets the same estimates in the same order of its calls."""
        key = (self.key, self.n)
        self.n += 1
        if key not in self.estimates:
            self.estimates[key] = 2 * self.c.int(f"half {self.key} {self.n}", 1, 30) + 1
        return self.estimates[key]

    def stub(self, name, f):
        try:
            sig = inspect.signature(f)
        except (TypeError, ValueError):
            sig = None

        def g(*a, **k):
            if sig is not None:
                b = sig.bind(*a, **k)
                b.apply_defaults()
                args = dict(b.arguments)
            else:
                args = {str(i): v for i, v in enumerate(a)} | k
            self.calls.append((name, args))
            return self.c.nparray([[0.1 + (i * 5 + j) % 7 / 10.0 if 0 < i < 4 and 0 < j < 4 else 0.002 for j in range(5)] for i in range(5)])
        return g


def plain(c, v):
    """Values in a comparable form."""
    if hasattr(v, "get_mn_orders"):
        return ["pol", *v.get_mn_orders()]
    if isinstance(v, (list, tuple)):
        return [x for e in v for x in plain(c, e)]
    if hasattr(v, "shape"):
        return list(c.flat(v)) if len(v.shape) else [v]
    return [v]


def same(c, a, b, what):
    x, y = plain(c, a), plain(c, b)
    c.check(len(x) == len(y), what)
    for p, q in zip(x, y):
        if p is None or q is None or isinstance(p, (str, bool)) or isinstance(q, (str, bool)):
            c.check((p is None) == (q is None) and (p is None or p == q), what)
        else:
            c.close(p, q, 1e-12, what, 1e-9)


def equal(c, w, a, b, acc, run=True, before=True):
    """Both objects are in the same state and ask for the same kernel."""
    for n in PUBLIC:
        if (hasattr(a, n) or hasattr(b, n)) and (before or n != "kernel_size"):
            same(c, getattr(a, n, None), getattr(b, n, None), f"{n} is what was accepted last")
    if not run:
        return
    del w.calls[:]
    a.calculate_psf_kernel(suppress_warnings=True, normalized=True, verbose_info=False, accelerated=acc)
    ca = w.calls[:]
    del w.calls[:]
    b.calculate_psf_kernel(suppress_warnings=True, normalized=True, verbose_info=False, accelerated=acc)
    cb = w.calls[:]
    c.check(len(ca) == len(cb), "the same calculation")
    for (n1, x), (n2, y) in zip(ca, cb):
        c.check(n1 == n2 and set(x) == set(y), "the same calculation")
        for k in x:
            same(c, x[k], y[k], f"the kernel is calculated with the accepted settings ({k})")
    same(c, a.kernel_size, b.kernel_size, "kernel size after the calculation")


def state(c, a):
    return {n: plain(c, getattr(a, n)) for n in PUBLIC if hasattr(a, n)}


def unchanged(c, before, a, what):
    for n, v in before.items():
        same(c, getattr(a, n, None), v, f"{n} of {what}")


def make(c, w, orders):
    pols = [c.Z.ZernPol(m=m, n=n) for m, n in orders]
    return w.zp.ZernPSF(pols if len(pols) > 1 else pols[0])


def physical(c, p, orders, form):
    n = len(orders) + (form == "wrong")
    if len(orders) == 1:
        na, wl, pix = c.real(p + "na", -0.5, 2), c.real(p + "wl", -0.5, 2), c.real(p + "pix", -0.1, 0.5)
    else:
        na, wl, pix = c.choice(p + "settings", [(0.9, 0.5, 0.05), (0.8, 0.9, 0.06), (0.0, 0.5, 0.05), (0.9, -0.4, 0.05), (0.9, 0.5, 0.0), (0.9, 0.5, 0.2)])
    co = [c.real(f"{p}coef{i}", *((-3, 3) if len(orders) == 1 else (0.01, 0.1))) for i in range(n)]
    v = co[0] if n == 1 and form != "list" else c.nparray(co) if form == "array" else list(co)
    return lambda psf: psf.set_physical_props(na, wl, list(v) if isinstance(v, list) else v.copy() if hasattr(v, "copy") and n > 1 else v, pix)


def calc(c, p):
    k, r, f = c.int(p + "size", -3, 60), c.int(p + "r", 10, 600), c.int(p + "phi", 20, 600)
    return lambda psf: psf.set_calculation_props(k, r, f)


def quiet(c, psf):
    return psf.calculate_psf_kernel(suppress_warnings=True, verbose_info=False, accelerated=False)


def twins(c, w, a, b, key, op):
    """The call on a; on the twin b only if it was accepted."""
    w.key, w.n = key, 0
    r, v = c.outcome(lambda: op(a), ValueError)
    if r == "ok":
        w.key, w.n = key, 0
        op(b)
    return r


def history(c, orders, first, second, form, between, acc):
    w = World(c)
    a, b = make(c, w, orders), make(c, w, orders)
    third = make(c, w, orders)
    untouched = state(c, third)
    accepted, ready = 0, len(orders) == 1   # several polynomials need their amplitudes
    for i, kind in enumerate((first, second)):
        op = physical(c, f"{i} ", orders, form if kind == "phys" else "wrong") if kind in ("phys", "wrong") else calc(c, f"{i} ") if kind == "calc" else None
        if op is not None:
            r = twins(c, w, a, b, i, op)
            accepted += r == "ok"
            ready = ready or r == "ok" and kind == "phys"
            unchanged(c, untouched, third, "another object")
            if kind == "wrong":
                c.check(r == "raised", "a wrong number of coefficients is refused")
        if i == 0:
            if between == "calculate" and ready:
                quiet(c, a)
            elif between == "crop" and ready:
                quiet(c, a)
                a.crop_kernel()
            elif between == "convolute":
                a.convolute_img(c.np.asarray([[1.0, 2.0], [3.0, 4.0]]))
    if between == "crop" and r == "raised":   # the cropped size is in effect
        return
    equal(c, w, a, b, acc, ready, accepted > 0 or between == "")


def given(c, orders, acc):
    """Sequences given by the caller and changed by it afterwards."""
    w = World(c)
    w.key = 0
    pols = [c.Z.ZernPol(m=m, n=n) for m, n in orders]
    mine = list(pols)
    kind = c.choice("coefficients", ["list", "array"])
    co = [c.real(f"coef{i}", -3, 3) for i in range(len(orders))]
    new = [c.real(f"new{i}", -3, 3) for i in range(len(orders))]
    arr = c.nparray(co) if kind == "array" else list(co)
    a, b = w.zp.ZernPSF(mine), w.zp.ZernPSF(list(pols))
    a.set_physical_props(0.9, 0.55, arr, 0.1)
    w.n = 0
    b.set_physical_props(0.9, 0.55, list(co), 0.1)
    for i, v in enumerate(new):
        arr[i] = v
    same(c, a.coefficients, b.coefficients, "coefficients are taken over when they are set")
    how = c.choice("polynomials", ["kept", "reversed", "extended", "emptied"])
    if how == "reversed":
        mine.reverse()
    elif how == "extended":
        mine.append(c.Z.ZernPol(m=0, n=4))
    elif how == "emptied":
        mine.clear()
    equal(c, w, a, b, acc)


def apart(c, orders, acc):
    """Two objects of the same polynomials: settings of one do not reach the other."""
    w = World(c)
    pols = [c.Z.ZernPol(m=m, n=n) for m, n in orders]
    seq = pols if len(pols) > 1 else pols[0]
    a, b, other = w.zp.ZernPSF(seq), w.zp.ZernPSF(seq), w.zp.ZernPSF(seq)
    one = physical(c, "one ", orders, "array")
    w.key, w.n = "one", 0
    if c.outcome(lambda: one(a), ValueError)[0] == "raised":
        return
    w.key, w.n = "one", 0
    one(b)
    two = calc(c, "two ") if c.choice("change", ["physical", "calculation"]) == "calculation" else physical(c, "two ", orders, "array")
    before, new = state(c, a), state(c, w.zp.ZernPSF(seq))
    w.key, w.n = "two", 0
    c.outcome(lambda: two(other), ValueError)
    if len(orders) == 1:
        quiet(c, other)
    unchanged(c, before, a, "another object")
    unchanged(c, new, w.zp.ZernPSF(seq), "a new object")
    equal(c, w, a, b, acc)


def repeated(c, orders, acc, size):
    """Without further settings the same kernel is calculated again, also the explicit size without physical properties."""
    w = World(c)
    w.key, w.n = 0, 0
    a = make(c, w, orders)
    if size:
        k = c.int("size", 3, 60)
        a.set_calculation_props(k, 100, 120)
    n = a.kernel_size
    if len(orders) > 1:
        a.set_physical_props(0.9, 0.55, [0.1] * len(orders), 0.1)
        if size:
            a.set_calculation_props(k, 100, 120)
        n = a.kernel_size
    out = []
    for _ in range(3):
        del w.calls[:]
        a.calculate_psf_kernel(suppress_warnings=c.choice(f"quiet{_}", [True, False]), verbose_info=False, accelerated=acc)
        if size:
            c.check(a.kernel_size == n, "the size set is kept")
        out.append((a.kernel_size, w.calls[:]))
    for s, x in out[1:]:
        same(c, s, out[0][0], "the same size again")
        c.check(len(x) == len(out[0][1]), "the same calculation again")
        for (n1, p), (n2, q) in zip(x, out[0][1]):
            c.check(n1 == n2, "the same calculation again")
            for k in p:
                if k not in ("suppress_warns",):
                    same(c, p[k], q[k], f"the same calculation again ({k})")
                if k == "kernel_size":
                    same(c, p[k], s, "the kernel has the size of the object")


ONE, PISTON, TWO = ((1, 3),), ((0, 0),), ((0, 2), (-1, 3))


def tasks(tier):
    th = tier == "thorough"
    t = []
    kinds = ("phys", "calc", "wrong")
    for orders in (ONE, PISTON, TWO):
        forms = ("number",) if len(orders) == 1 else ("list", "array")
        if orders == ONE:
            forms += ("list",)
        for form in forms:
            for first in ("phys", "calc"):
                for second in kinds:
                    for between in ("", "calculate") + (("convolute",) if th else ()) + (("crop",) if second != "wrong" and (th or form in ("number", "array")) else ()):
                        t.append(Task(history, orders=orders, first=first, second=second, form=form, between=between, acc=(len(t) % 2 == 0)))
    for acc in (True, False):
        t.append(Task(given, orders=TWO, acc=acc))
        for o in (ONE, TWO):
            t.append(Task(apart, orders=o, acc=acc))
        for o in (ONE, PISTON, TWO):
            for size in (True, False):
                t.append(Task(repeated, orders=o, acc=acc, size=size))
    return t
