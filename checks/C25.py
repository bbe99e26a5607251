"""Parallel computation returns the sequential results in order, in any schedule."""
import functools
import os

from run import Task
from symz import sched
from checks.C05 import tol

BOUNDS = ("the interleaving of the worker processes and the manager is chosen by the solver, exactly up to a number of held-back polls: 2 workers with 2..6 parameters (7, 5, 4, 3, 2 times a worker "
          "that could go on is held back while the manager polls it), 3 with 3..5 (3, 2, 2) and 4 with 4..5 (2, 1), thorough two more each; 2 or 3 rounds with new parameters (2 or 1); every numeric "
          "parameter value; equal parameters among the symbolic ones; two managers used alternately; closing at once, after rounds and twice; refused arguments; the PSF point routine (2 x 10 and 3 x 12 integration points, any coefficient, "
          "radius and angle, once held back) and 3 x 3 kernels with the 4 workers of the class (thorough: once held back)")
OUTSIDE = ("a compute function that raises or kills its process; the transport inside the queues of the operating system (the model delivers items in order, copied, after a finite time); functions that use "
           "global state; more workers or parameters; several polynomials (not supported by the parallel routines)")
ASSUMPTIONS = ["multiprocessing.Event, Queue and Process behave as documented: operations on one of them are atomic and ordered"]


def simulated(fn):
    @functools.wraps(fn)
    def g(c, **kw):
        sim = sched.CURRENT
        sim.c = c
        try:
            fn(c, sim, **kw)
        except sched.Deadlock as e:
            c.check(False, f"the computation ends ({e})")
        finally:
            sim.kill()
    return g


def function(x):
    return 3 * x - 1


def described(x):
    return (x[0], 2 * x[1], "done") if x is not None else None


def manager(c, sim, params, workers, delays, extra=0, func=function, **kw):
    m = c.mod("utils.intmproc").DispenserManager(func, params, workers, **kw)
    sim.delays, sim.extra = delays, extra
    return m


def same(c, got, params, what, func=function):
    c.check(isinstance(got, list) and len(got) == len(params), f"{what}: one result per parameter")
    for i, (g, p) in enumerate(zip(got, params)):
        c.check(g is not None, f"{what}: result {i} was computed")
        c.close(g, func(p), 0, f"{what}: result {i} belongs to parameter {i}", 0)


def numbers(c, n, tag):
    return [c.real(f"{tag}{i}", -100, 100) for i in range(n)]


@simulated
def one(c, sim, workers, n, delays, extra):
    ps = numbers(c, n, "p")
    m = manager(c, sim, list(ps), workers, delays, extra)
    got = m.compute()
    same(c, got, ps, "one round")
    closed(c, sim, m)


def closed(c, sim, m):
    sim.delays = min(sim.delays, 1)
    m.close()
    sim.delays = sim.extra = 0
    c.check(sim.settle() == 0, "no worker is left after closing")
    before = len(c.warnings)
    c.check(m.compute() is None and len(c.warnings) == before + 1, "a closed manager computes nothing and warns")
    m.close()


@simulated
def rounds(c, sim, workers, counts, delays):
    old = []
    ps = numbers(c, counts[0], "a")
    m = manager(c, sim, list(ps), workers, delays)
    for k, n in enumerate(counts):
        if k and n:
            ps = numbers(c, n, "abcd"[k])
            m.update_params(list(ps))
        got = m.compute()
        same(c, got, ps, f"round {k + 1}")
        old.append((got, ps))
        for q, (g, p) in enumerate(old):
            same(c, g, p, f"results of round {q + 1} after round {k + 1}")
    closed(c, sim, m)


@simulated
def two(c, sim, delays):
    a, b = numbers(c, 2, "a"), numbers(c, 3, "b")
    m1, m2 = manager(c, sim, list(a), 2, 0), manager(c, sim, list(b), 2, 0, func=double)
    sim.delays = delays
    for step in range(2):
        same(c, m1.compute(), a, "first manager")
        same(c, m2.compute(), b, "second manager", double)
    first = c.bool("close the first one")
    x, y = (m1, m2) if first else (m2, m1)
    x.close()
    sim.delays, keep = 0, sim.delays
    c.check(sim.settle() == 2, "closing stops the workers of this manager only")
    sim.delays = keep
    same(c, y.compute(), b if first else a, "the other manager goes on", double if first else function)
    closed(c, sim, y)


def double(x):
    return 2 * x


@simulated
def items(c, sim, delays):
    """Parameters and results that are not numbers."""
    v = numbers(c, 2, "v")
    ps = [("x", v[0]), None, ("y", v[1]), ("Started", 0.0)]
    m = manager(c, sim, list(ps), 2, delays, func=described)
    for r in range(2):
        got = m.compute()
        c.check(isinstance(got, list) and len(got) == 4 and got[1] is None, "one result per parameter")
        for i in (0, 2, 3):
            c.check(got[i] is not None and got[i][0] == ps[i][0] and got[i][2] == "done", f"result {i} belongs to parameter {i}")
            c.close(got[i][1], 2 * ps[i][1], 0, f"value of result {i}", 0)
    m.close()
    c.check(sim.settle() == 0, "no worker is left after closing")


@simulated
def repeated(c, sim, workers, delays):
    """Equal parameters get their results separately."""
    v = c.real("v", -100, 100)
    ps = [2.5, v, 2.5, 2.5, v][:workers + 2]
    m = manager(c, sim, list(ps), workers, delays)
    for r in range(2):
        same(c, m.compute(), ps, f"round {r} with equal parameters")
    closed(c, sim, m)


@simulated
def early(c, sim, how, workers):
    """Closing without computing, the object going away, verbose output."""
    ps = numbers(c, workers + 1, "p")
    m = manager(c, sim, list(ps), workers, 2 * workers, verbose_info=how == "verbose")
    if how == "close":
        closed(c, sim, m)
    elif how == "delete":
        del m
        import gc
        gc.collect()
        sim.delays = 0
        c.check(sim.settle() == 0, "no worker is left when the manager is deleted")
    else:
        sim.delays = 1
        same(c, m.compute(), ps, "with verbose output")
        closed(c, sim, m)


@simulated
def refused(c, sim, what):
    D = c.mod("utils.intmproc").DispenserManager
    ps = numbers(c, 4, "p")
    if what == "function":
        c.raises(TypeError, lambda: D(3, ps, 2), "something that is not callable")
        c.raises(TypeError, lambda: D(None, ps, 2), "something that is not callable")
    elif what == "empty":
        c.raises(TypeError, lambda: D(function, [], 2), "no parameters")
    elif what == "few":
        c.raises(ValueError, lambda: D(function, ps[:2], 3), "fewer parameters than workers")
        c.raises(ValueError, lambda: D(function, ps[:3]), "fewer parameters than workers by default")
    elif what == "update":
        m = D(function, ps, 3)
        c.raises(TypeError, lambda: m.update_params([]), "no parameters")
        c.raises(ValueError, lambda: m.update_params(ps[:2]), "fewer parameters than workers")
        same(c, m.compute(), ps, "after refused parameters")
    else:
        before = len(c.warnings)
        n = {"default": None, "one": 1, "none": 0, "negative": -3, "many": 9, "two": 2, "all": 4}[what]
        m = D(function, ps, n)
        warned = what in ("one", "none", "negative", "many")
        c.check(len(c.warnings) - before == (1 if warned else 0), "a warning if and only if the number of workers is not usable")
        c.check(len(sim.workers) == m.workers_number == (2 if what == "two" else 4), "the number of workers, by default half of the processors")
        c.check(m.get_max_workers() == 8, "the number of processors")
        same(c, m.compute(), ps, "any number of workers")
        other = D(function, ps)
        c.check(other.workers_number == 4 and len(c.warnings) - before == (1 if warned else 0), "the default of later managers is not changed")
    c.check(what in ("function", "empty", "few") and len(sim.workers) == 0 or len(sim.workers) > 0, "refused arguments start no process")


def psf_of(c, m, n, nr, nphi, coef=None):
    psf = c.mod("zernpsf").ZernPSF(c.Z.ZernPol(m=m, n=n))
    psf.set_physical_props(0.5, 0.6, c.real("coef", -0.5, 0.5) if coef is None else coef, 0.1)
    psf.n_int_r_points, psf.n_int_phi_points = nr, nphi
    return psf


@simulated
def point(c, sim, m, n, nr, nphi, delays):
    """A PSF point: before, with, with other values and after the workers."""
    psf = psf_of(c, m, n, nr, nphi)
    r, th = c.real("r", 0, 20), c.real("theta", 0, 6.28)
    plain = c.mod("calculations.calc_psfs").get_psf_point_r(psf.zernpol, r, th, psf.alpha, nr, nphi)
    a = psf.get_psf_point_r_parallel(r, th)
    psf.initialize_parallel_workers()
    c.check(len(sim.workers) > 0, "workers are started")
    sim.delays = delays
    b = psf.get_psf_point_r_parallel(r, th)
    sim.delays = 0
    psf.initialize_parallel_workers()
    other = psf.get_psf_point_r_parallel(2.0, 1.0)
    psf.deinitialize_workers()
    c.check(sim.settle() == 0, "no worker is left")
    psf.deinitialize_workers()
    after = psf.get_psf_point_r_parallel(r, th)
    c.close(a, plain, 1e-9, "without workers the point is the plain one")
    c.close(b, plain, 1e-9, "with workers the point is the plain one")
    c.close(after, plain, 1e-9, "after the workers the point is the plain one")
    c.close(other, c.mod("calculations.calc_psfs").get_psf_point_r(psf.zernpol, 2.0, 1.0, psf.alpha, nr, nphi), 1e-9, "another point with the same workers")


@simulated
def kernels(c, sim, workers, normalize, delays):
    """The kernel by workers is the kernel without them."""
    psf = psf_of(c, -1, 3, 2, 10, 0.3)
    psf.kernel_size = 3
    plain = list(c.flat(psf.calculate_psf_kernel(normalized=normalize)))
    psf2 = psf_of(c, -1, 3, 2, 10, 0.3)
    psf2.kernel_size = 3
    if workers:
        psf2.initialize_parallel_workers()
        sim.delays = delays
    k = psf2.get_kernel_parallel(normalize)
    c.check(tuple(c.np.shape(k)) == (3, 3), "size of the kernel")
    for e, (x, y) in enumerate(zip(c.flat(k), plain)):
        c.close(x, y, 1e-9, f"entry {e} of the kernel")
    psf2.deinitialize_workers()
    c.check(sim.settle() == 0, "no worker is left")


@simulated
def airy(c, sim):
    psf = psf_of(c, 0, 0, 2, 10)
    psf.initialize_parallel_workers()
    c.check(len(sim.workers) == 0, "the Airy pattern needs no workers")
    r = c.real("r", 0, 5)
    c.close(psf.get_psf_point_r_parallel(r, 1.0), c.mod("calculations.calc_psfs").get_psf_point_r(psf.zernpol, r, 1.0, psf.alpha, 2, 10), 1e-9, "the point of the piston")
    psf.deinitialize_workers()


def tasks(tier):
    deep = tier != "quick"
    o = dict(opts={"mp": sched.factory}, max_paths=100000, budget=400)
    t = []
    for w, n, d in [(2, 2, 7), (2, 3, 5), (2, 4, 4), (2, 5, 3), (2, 6, 2), (3, 3, 3), (3, 4, 2), (3, 5, 2), (4, 4, 2), (4, 5, 1)] + ([(2, 7, 5), (3, 7, 4), (4, 8, 3)] if deep else []):
        t.append(Task(one, workers=w, n=n, delays=d + (2 if deep else 0), extra=1 if n < 4 else 0, **o))
    for w, counts, d in ((2, (2, 3), 2), (2, (3, 2), 2), (2, (2, 0, 0), 2), (2, (2, 4, 2), 1), (3, (3, 4), 1), (3, (4, 3, 3), 1)):
        t.append(Task(rounds, workers=w, counts=counts, delays=d + (1 if deep else 0), **o))
    t.append(Task(two, delays=2 if deep else 1, **o))
    t += [Task(repeated, workers=w, delays=1 if deep else 0, **o) for w in (2, 3)]
    t.append(Task(items, delays=4 if deep else 2, **o))
    t += [Task(early, how=h, workers=w, **o) for h in ("close", "delete", "verbose") for w in (2, 3)]
    t += [Task(refused, what=w, **o) for w in ("function", "empty", "few", "update", "default", "one", "none", "negative", "many", "two", "all")]
    t += [Task(point, m=m, n=n, nr=nr, nphi=nphi, delays=1 if deep or m < 0 else 0, **o) for m, n, nr, nphi in ((-1, 3, 2, 10), (2, 2, 3, 12), (0, 4, 2, 11))]
    t += [Task(kernels, workers=w, normalize=z, delays=1 if deep else 0, **o) for w in (False, True) for z in (False, True)]
    t.append(Task(airy, **o))
    return t
