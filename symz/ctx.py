"""The interface harnesses are written against: one harness runs symbolically (solver) and concretely (replay)."""
import importlib
import math
import os
import random as _random
import shutil
import sys
import tempfile
import time as _time
import warnings as _warnings
from fractions import Fraction

import numpy as real_np

from . import core, loader, npshim, plots
from .core import SymBool, SymComplex, SymInt, SymNum, SymReal, is_sym


class Info:
    def __init__(self, kind, lo, hi, name):
        self.kind, self.lo, self.hi, self.name = kind, lo, hi, name


class CheckFailed(Exception):
    pass


class Skip(Exception):
    """The concrete assignment does not satisfy an assumption of the harness."""


class Base:
    def poly(self, coeffs, r):
        """Exact value of sum c*r**k for a dict {k: c}."""
        x = r if is_sym(r) else Fraction(float(r))
        t = Fraction(0)
        if is_sym(r):
            p = core.Poly({})
            b = core.SymNum.of(r).p
            for k, c in coeffs.items():
                p = p + b.pow(k).scale(Fraction(c))
            return core.mk(p, False)
        for k, c in coeffs.items():
            t += Fraction(c) * x ** k
        return float(t)

    def raises(self, exc, fn, msg):
        """fn() must raise one of exc."""
        try:
            v = fn()
        except exc:
            self.check(True, msg)
            return
        except Exception as e:
            self.check(False, f"{msg}: expected {exc!r}, got {type(e).__name__}: {str(e)[:80]}")
            return
        self.check(False, f"{msg}: no exception, returned {_short(v)}")

    def outcome(self, fn, exc=(ValueError,)):
        """('ok', value) or ('raised', exception) for the listed exception types."""
        try:
            return "ok", fn()
        except exc as e:
            return "raised", e

    def closes(self, a, b, tol, msg, ctol=None):
        """Elementwise close of nested sequences / arrays of equal shape."""
        if isinstance(a, real_np.ndarray) or isinstance(b, real_np.ndarray) or isinstance(a, (list, tuple)):
            sa, sb = _shape(a), _shape(b)
            self.check(sa == sb, f"{msg}: shape {sa} instead of {sb}")
            for i, (x, y) in enumerate(zip(_flat(a), _flat(b))):
                self.close(x, y, tol, f"{msg} [{i}]", ctol)
        else:
            self.close(a, b, tol, msg, ctol)

    def flat(self, a):
        return list(_flat(a))

    def cleanup(self):
        if getattr(self, "_tmp", None):
            os.chdir("/")
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def _short(v):
    try:
        return repr(v)[:60]
    except Exception:
        return "?"


def _shape(a):
    if isinstance(a, real_np.ndarray):
        return a.shape
    if isinstance(a, (list, tuple)):
        return (len(a),) + (_shape(a[0]) if len(a) and isinstance(a[0], (list, tuple, real_np.ndarray)) else ())
    return ()


def _flat(a):
    if isinstance(a, npshim.SArr):
        for x in a.raw().flat:
            yield x
    elif isinstance(a, real_np.ndarray):
        for x in a.flat:
            yield x.item() if isinstance(x, real_np.generic) else x
    elif isinstance(a, (list, tuple)):
        for x in a:
            yield from _flat(x)
    else:
        yield a


class SymCtx(Base):
    symbolic = True

    def __init__(self, engine, scratch=False, **pkg):
        self.e = engine
        self.np = npshim.NP
        self._tmp = None
        if scratch:
            self._tmp = tempfile.mkdtemp(prefix="symz_")
            os.chdir(self._tmp)
        self._pkgkw = pkg
        self.pkg = loader.Package(scratch=self._tmp, **pkg)
        self.scratch = self._tmp

    int_types = loader.INT

    @property
    def Z(self):
        return self.pkg.load("zernpy")

    def mod(self, name):
        return self.pkg.load("zernpy." + name if name else "zernpy")

    def patch(self, mod, name, f):
        setattr(mod, name, f)

    def load_as_main(self):
        raise NotImplementedError

    # inputs
    def _atom(self, name, isint, lo, hi):
        if name in self.e.inputs:
            raise RuntimeError("duplicate input " + name)
        a = core.ATOMS.new(name, isint=isint, lo=None if lo is None else Fraction(lo), hi=None if hi is None else Fraction(hi))
        self.e.inputs[name] = (a, Info("int" if isint else "real", lo, hi, name))
        self.e.use_atom(a)
        return a

    def real(self, name, lo, hi, nonzero=False, np=False):
        a = self._atom(name, False, lo, hi)
        v = SymReal(core.Poly.atom(a))
        if nonzero:
            self.e.assume(v != 0)
        return v

    def int(self, name, lo, hi):
        a = self._atom(name, True, lo, hi)
        return SymInt(core.Poly.atom(a))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[self.e.concretise(i)]

    def bool(self, name):
        return self.choice(name, [False, True])

    def array(self, name, shape, lo, hi, isint=False, dtype=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = real_np.empty(shape, dtype=object)
        for i in real_np.ndindex(*shape):
            nm = name + "_" + "_".join(map(str, i))
            o[i] = self.int(nm, lo, hi) if isint else self.real(nm, lo, hi)
        dt = real_np.dtype(dtype) if dtype else (npshim.I64 if isint else npshim.F64)
        return npshim.wrap(o, dt)

    def nparray(self, seq, dtype=None):
        return npshim.asarr(seq, dtype)

    def assume(self, c):
        self.e.assume(c)

    def close(self, a, b, tol, msg, ctol=None):
        a, b = _scal(a), _scal(b)
        self.e.close(a, b, tol, msg)

    def check(self, c, msg):
        self.e.check(c, msg)

    def decide(self, c):
        return bool(c)

    def concrete(self, x):
        return core.ENGINE.concretise(x) if is_sym(x) else x

    # maths
    cos = staticmethod(core.fn_cos)
    sin = staticmethod(core.fn_sin)
    sqrt = staticmethod(core.fn_sqrt)
    ite = staticmethod(core.ite)

    def cexp(self, x):
        """exp(i x)"""
        return core.fn_exp(SymComplex.of(x) * 1j)

    def jv(self, n, x):
        return loader.sym_jv(n, x)

    def all(self, cs):
        r = True
        for c in cs:
            r = c if r is True else (r if c is True else (False if c is False or r is False else r & c))
        return r

    def any(self, cs):
        r = False
        for c in cs:
            r = c if r is False else (r if c is False else (True if c is True or r is True else r | c))
        return r

    def neg(self, c):
        return ~c if isinstance(c, SymBool) else not c

    def max(self, xs):
        return core.sym_max(xs)

    def min(self, xs):
        return core.sym_max(xs, -1)

    @property
    def warnings(self):
        return self.pkg.warnings

    @property
    def book(self):
        return self.pkg.book

    def figure(self):
        return self.pkg.ext["matplotlib"].pyplot.figure()


def _scal(x):
    if isinstance(x, npshim.SArr) and x.size == 1:
        return x.raw().reshape(-1)[0]
    if isinstance(x, real_np.ndarray) and x.size == 1:
        return x.reshape(-1)[0].item()
    if isinstance(x, real_np.generic):
        return x.item()
    return x


class _Clock:
    def __init__(self, sleep):
        self.sleep = sleep

    def __getattr__(self, n):
        return getattr(_time, n)


class ConcCtx(Base):
    """Runs the harness with one assignment on the real modules."""
    symbolic = False
    int_types = int

    def __init__(self, assignment, scratch=False, validate=False, no_joblib=True, mp=None, rnd=None, numba=True):
        self.a = assignment
        self.np = real_np
        self.validate = validate
        self._tmp = None
        if scratch:
            self._tmp = tempfile.mkdtemp(prefix="symz_")
            os.chdir(self._tmp)
        self.scratch = self._tmp
        self.warnings = []
        self._book = self._unplot = None
        for k in [k for k in sys.modules if k == "zernpy" or k.startswith("zernpy.")]:
            del sys.modules[k]
        src = str(loader.SRC.parent)
        if src not in sys.path:
            sys.path.insert(0, src)
        if no_joblib:
            sys.modules["joblib"] = None
        self._undo = []
        if numba is not True:
            import importlib.metadata as im
            import scipy.ndimage, scipy.special, matplotlib.pyplot   # noqa: they look at versions themselves
            old, new = im.version, loader._Metadata(numba)
            im.version = lambda name: new.version(name) if name.lower() == "numba" else old(name)
            self._undo.append(lambda: setattr(im, "version", old))
            if numba is None:
                had = sys.modules.get("numba")
                sys.modules["numba"] = None
                self._undo.append(lambda: sys.modules.pop("numba") if had is None else sys.modules.__setitem__("numba", had))
            else:
                import numba as nb
                real = nb.__version__
                nb.__version__ = numba
                self._undo.append(lambda: setattr(nb, "__version__", real))
        if rnd is not None:
            import numpy.random, scipy.ndimage, scipy.special, matplotlib.pyplot   # noqa: they import random themselves
            sys.modules["random"] = npshim.ShimModule("random", rnd)
        else:
            sys.modules["random"] = _random
        import multiprocessing
        self._mp_real = sys.modules["multiprocessing"]
        if mp is not None:
            import numba, scipy.ndimage, scipy.special, matplotlib.pyplot   # noqa: they import multiprocessing themselves
            sys.modules["multiprocessing"] = npshim.ShimModule("multiprocessing", mp)
            sys.modules["time"] = npshim.ShimModule("time", _Clock(mp.sleep))
        try:
            self.Z = importlib.import_module("zernpy")
            for m in ("zernikepol", "zernpsf", "utils.intmproc", "calculations.calc_psfs"):
                importlib.import_module("zernpy." + m)
        finally:
            sys.modules["multiprocessing"] = self._mp_real
            sys.modules["time"] = _time
            sys.modules["random"] = _random
        self._old = _warnings.showwarning
        _warnings.resetwarnings()
        _warnings.simplefilter("always")
        _warnings.showwarning = lambda m, c, *a, **k: self.warnings.append(str(m)) if issubclass(c, UserWarning) else None

    @property
    def book(self):
        """Records of everything drawn from the first access on."""
        if self._book is None:
            self._book = plots.Book()
            self._unplot = plots.record_real(self._book)
        return self._book

    def figure(self):
        self.book
        import matplotlib.pyplot
        return matplotlib.pyplot.figure()

    def mod(self, name):
        return importlib.import_module("zernpy." + name if name else "zernpy")

    def patch(self, mod, name, f):
        setattr(mod, name, f)

    def _get(self, name, lo, hi):
        v = self.a.get(name)
        if v is None:
            v = generic(name, lo, hi, 0)
        return v

    def real(self, name, lo, hi, nonzero=False, np=False):
        v = float(self._get(name, lo, hi))
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        if nonzero and v == 0:
            raise Skip(name)
        return v

    def int(self, name, lo, hi):
        v = int(self._get(name, lo, hi))
        return v

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.a.get(name) or 0) % len(options)]

    def bool(self, name):
        return self.choice(name, [False, True])

    def array(self, name, shape, lo, hi, isint=False, dtype=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = real_np.empty(shape, dtype=dtype or (int if isint else float))
        for i in real_np.ndindex(*shape):
            nm = name + "_" + "_".join(map(str, i))
            o[i] = self.int(nm, lo, hi) if isint else self.real(nm, lo, hi)
        return o

    def nparray(self, seq, dtype=None):
        return real_np.asarray(seq, dtype=dtype)

    def assume(self, c):
        if not c:
            raise Skip("assumption")

    def close(self, a, b, tol, msg, ctol=None):
        a, b = _scal(a), _scal(b)
        t = max(float(tol) * 0.5, ctol if ctol is not None else 0.0)
        if self.validate:
            t = max(t, 1e-6 * (1 + abs(b)))
        if not abs(a - b) <= t:
            raise CheckFailed(f"{msg}: got {a!r}, expected {b!r}")

    def check(self, c, msg):
        if not c:
            raise CheckFailed(msg)

    def decide(self, c):
        return bool(c)

    def concrete(self, x):
        return x

    cos, sin, sqrt = staticmethod(math.cos), staticmethod(math.sin), staticmethod(math.sqrt)

    def ite(self, c, a, b):
        return a if c else b

    def cexp(self, x):
        import cmath
        return cmath.exp(1j * x)

    def jv(self, n, x):
        from scipy.special import jv
        return float(jv(n, x))

    def all(self, cs):
        return all(list(cs))

    def any(self, cs):
        return any(list(cs))

    def neg(self, c):
        return not c

    def max(self, xs):
        return max(xs)

    def min(self, xs):
        return min(xs)

    def cleanup(self):
        _warnings.showwarning = self._old
        for f in self._undo:
            f()
        if self._unplot is not None:
            self._unplot()
        super().cleanup()


def generic(name, lo, hi, k):
    """A deterministic 'generic' value inside the bounds."""
    lo = -1.0 if lo is None else float(lo)
    hi = lo + 2.0 if hi is None else float(hi)
    rnd = _random.Random(f"{name}/{k}")
    return lo + (hi - lo) * (0.05 + 0.9 * rnd.random())


def candidates(model, inputs):
    """Concrete assignments to try when replaying a solver model."""
    base, unp = {}, []
    pinned = model.get("__pinned__", set())
    fns = model.get("__fns__", {})
    for n, (at, info) in inputs.items():
        v = model.get(n)
        if info.kind == "int":
            base[n] = int(v) if v is not None else int(info.lo)
        else:
            base[n] = float(v) if v is not None else None
            if n not in pinned or v is None:
                unp.append(n)
    out = []
    g = dict(base)
    for n in unp:
        i = inputs[n][1]
        g[n] = generic(n, i.lo, i.hi, 0)
    out.append(g)
    # angles fixed through cos/sin values only
    for fn, lst in fns.items():
        if fn not in ("cos", "sin"):
            continue
        for p, v in lst:
            ts = [(k, c) for k, c in p.t.items()]
            if len(ts) != 1 or len(ts[0][0]) != 1 or ts[0][0][0][1] != 1 or v is None:
                continue
            (aid, _), c = ts[0][0][0], float(ts[0][1])
            nm = next((n for n, (at, _) in inputs.items() if at.id == aid), None)
            if nm is None:
                continue
            cv = max(-1.0, min(1.0, float(v)))
            b0 = math.acos(cv) if fn == "cos" else math.asin(cv)
            for b in ((b0, -b0) if fn == "cos" else (b0, math.pi - b0)):
                for j in (0, 1, 2):
                    h = dict(g)
                    h[nm] = (b + 2 * math.pi * j) / c
                    out.append(h)
    full = dict(base)
    for n in unp:
        if full[n] is None:
            full[n] = generic(n, inputs[n][1].lo, inputs[n][1].hi, 0)
    out.append(full)
    for k in range(1, 9):
        h = {}
        for n, (at, info) in inputs.items():
            h[n] = base[n] if info.kind == "int" else generic(n, info.lo, info.hi, k)
        out.append(h)
    seen, res = set(), []
    for h in out:
        key = tuple(sorted(h.items()))
        if key not in seen:
            seen.add(key)
            res.append(h)
    return res[:40]
