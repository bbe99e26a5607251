"""Acceleration by numba is optional: what is used, what is said, and that preparing it changes nothing else."""
from run import Task
from checks.C20 import physical
from checks.C29 import fixed_stubs
from checks.C31 import World, equal, make, state, unchanged

BOUNDS = ("with and without numba; accelerated None, True and False, normalised or not, warnings suppressed or not, all physical properties of C20 symbolic with one and two polynomials and the Airy case, kernels "
          "3 x 3 and 5 x 5 of free intensities; precompilation with versions 0.47.0 .. 1.2.3 and unusual version texts, an object with symbolic settings made before")
OUTSIDE = "numba itself and the speed; texts of messages and reports"

PHYS = (0.9, 0.55, 0.1)


def two(c, orders, size, phys):
    zp = c.mod("zernpsf")
    c.patch(zp, "get_kernel_size", lambda *a, **k: size)
    out = []
    co = [c.real("coef", 0.001, 0.008), 0.01][:len(orders)]
    for _ in range(2):
        psf = zp.ZernPSF([c.Z.ZernPol(m=m, n=n) for m, n in orders]) if len(orders) > 1 else zp.ZernPSF(c.Z.ZernPol(m=orders[0][0], n=orders[0][1]))
        psf.set_physical_props(phys[0], phys[1], list(co) if len(orders) > 1 else co[0], phys[2])
        psf.kernel_size = size
        psf.n_int_r_points, psf.n_int_phi_points = 20, 36
        out.append(psf)
    return out


def missing(c, orders, size, norm):
    """Without numba every kernel is the plain one."""
    acc, quiet = c.choice("accelerated", [None, True]), c.choice("quiet", [True, False])
    a, b = two(c, orders, size, physical(c))
    vals = [c.real(f"I{e}", 1e-3 if e == size * size // 2 else 0, 5) for e in range(size * size)]
    calls, m = [], c.mod("calculations.calc_psfs")

    def f(*x, **k):
        calls.append((x, k))
        return vals[len(calls) - 1]
    for name in ("get_psf_point_r", "get_psf_point_r_parallel", "get_psf_point_r_pols"):
        c.patch(m, name, f)
    n = len(c.warnings)
    k1 = a.calculate_psf_kernel(suppress_warnings=quiet, normalized=norm, accelerated=acc)
    n1, first = len(c.warnings) - n, len(calls)
    del calls[:]
    k2 = b.calculate_psf_kernel(suppress_warnings=quiet, normalized=norm, accelerated=False)
    n2 = len(c.warnings) - n - n1
    c.check(first == len(calls), "as many intensities as in the plain calculation")
    c.closes(c.flat(k1), c.flat(k2), 1e-12, "kernel without numba")
    c.check(tuple(c.np.shape(k1)) == tuple(c.np.shape(k2)), "size of the kernel without numba")
    c.check(n1 == n2 + (acc is True and not quiet), "one more warning exactly when the acceleration was requested explicitly")


def chosen(c, orders, numba):
    """Which of the two calculations is used."""
    a, b = two(c, orders, 3, PHYS)
    zp = c.mod("zernpsf")
    level = [c.real("level 0", 0.1, 1), c.real("level 1", 2, 3)]
    used = []

    def stub(i):
        def f(*x, **k):
            used.append(i)
            return c.nparray([[level[i]] * 3 for _ in range(3)])
        return f
    for name, i in (("get_psf_kernel", 0), ("get_psf_kernel_zerns", 0), ("get_psf_kernel_comp", 1)):
        if hasattr(zp, name):
            c.patch(zp, name, stub(i))
    acc = c.choice("accelerated", [None, True, False])
    k = a.calculate_psf_kernel(suppress_warnings=True, accelerated=acc)
    if not used:
        return
    c.check(len(used) == 1, "one calculation")
    c.close(k[1, 1], level[1 if numba and acc is not False else 0], 1e-12, "accelerated exactly when numba is there and acceleration is not switched off", 1e-12)
    c.check(a.kernel is k, "the kernel is stored")


def prepare(c, numba, warned):
    """Precompilation: a pair of calculated objects, a warning for an old version, and no influence on others."""
    w = World(c)
    w.key, w.n = "x", 0
    orders = ((1, 3),)
    a, b = make(c, w, orders), make(c, w, orders)
    na, wl, co = c.real("na", 0.1, 1.4), c.real("wl", 0.3, 1), c.real("coef", -0.5, 0.5)
    a.set_physical_props(na, wl, co, wl * 0.1)
    w.n = 0
    b.set_physical_props(na, wl, co, wl * 0.1)
    before, new = state(c, a), state(c, make(c, w, orders))
    n = len(c.warnings)
    w.key, w.n = "y", 0
    out = c.Z.force_get_psf_compilation(c.choice("report", [True, False]))
    n = len(c.warnings) - n
    c.check((n > 0) == warned, "a warning exactly for a missing, too old or unreadable numba")
    c.check((out is None) == (numba is None), "a result exactly when numba is there")
    if out is not None:
        c.check(len(out) == 2 and all(isinstance(x, c.Z.ZernPSF) for x in out), "the two objects used")
        for x in out:
            c.check(len(c.np.shape(x.kernel)) == 2, "their kernels are calculated")
        c.check(out[0].zernpol is not None and len(out[1].polynomials) > 1, "one of a single polynomial and one of several ones")
    unchanged(c, before, a, "another object")
    unchanged(c, new, make(c, w, orders), "a new object")
    equal(c, w, a, b, None)


VERSIONS = [("0.47.0", True), ("0.56.4", True), ("0.56.0", True), ("0.57.0", True), ("0.57.1", False), ("0.57.2", False), ("0.58.0", False), ("0.60.0", False), ("0.61.2", False),
            ("1.0.0", False), ("1.2.3", False), ("0.x.1", True), (None, True)]


def tasks(tier):
    t = []
    for o in ([(0, 4)], [(0, 0)], [(1, 1), (0, 2)]):
        for norm in (False, True):
            t += [Task(missing, orders=o, size=s, norm=norm, opts={"numba": None}, budget=100) for s in ((3, 5, 7) if tier != "quick" else (3, 5))]
        t += [Task(chosen, orders=o, numba=x, opts={} if x else {"numba": None}) for x in (True, False)]
    t += [Task(prepare, numba=v, warned=x, opts={"numba": v}) for v, x in VERSIONS]
    return t
