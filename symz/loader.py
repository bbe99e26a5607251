"""Loads /repo's current zernpy source with stand-ins for builtins, numpy, math, ... so that it runs on symbolic values."""
import builtins
import cmath
import json as real_json
import math
import os
import sys
import types
from pathlib import Path

import numpy as real_np

from . import core, npshim, plots
from .core import SymBool, SymComplex, SymInt, SymNum, SymReal, Unsupported, is_sym

SRC = Path(os.environ.get("ZERNPY_SRC", "/repo/src")) / "zernpy"
_CODE = {}


# ------------------------------------------------------------------ builtins
class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or cls._sym(x)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real) or type.__subclasscheck__(cls, c)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        return getattr(type.__getattribute__(cls, "_real"), n)

    def __repr__(cls):
        return repr(cls._real)


def _unbox(x):
    if isinstance(x, npshim.SArr):
        if x.size != 1:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        if x.ndim > 0:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return x.raw().reshape(-1)[0]
    return x


def _conv_int(x=0, *a):
    x = _unbox(x)
    if isinstance(x, SymComplex):
        raise TypeError("int() argument must be a real number, not 'complex'")
    if isinstance(x, SymNum):
        r = core.sym_trunc(x)
        return SymInt(r.p) if isinstance(r, SymInt) else r
    if isinstance(x, SymBool):
        return SymNum.of(x)
    if isinstance(x, str) and "<sym" in x:
        raise core.Unsupported("number read from the text of a symbolic value")
    return int(x, *a)


def _conv_float(x=0.0):
    x = _unbox(x)
    if isinstance(x, SymComplex):
        raise TypeError("float() argument must be a real number, not 'complex'")
    if isinstance(x, SymNum):
        return SymReal(x.p)
    if isinstance(x, SymBool):
        return SymReal(SymNum.of(x).p)
    if isinstance(x, str) and "<sym" in x:
        return core.parse_number(x)
    return float(x)


def _conv_bool(x=False):
    if isinstance(x, SymBool):
        return x
    return bool(x)


def _conv_complex(re=0.0, im=0.0):
    re, im = _unbox(re), _unbox(im)
    if is_sym(re) or is_sym(im):
        return SymComplex.of(re) + SymComplex.of(im) * 1j
    return complex(re, im) if not isinstance(re, complex) else re


def _shim_cls(real, conv, sym):
    return _Meta(real.__name__, (), {"_real": real, "_conv": staticmethod(conv), "_sym": staticmethod(sym)})


INT = _shim_cls(int, _conv_int, lambda x: isinstance(x, SymInt) and not x.npint or isinstance(x, SymBool))
FLOAT = _shim_cls(float, _conv_float, lambda x: isinstance(x, SymReal))
BOOL = _shim_cls(bool, _conv_bool, lambda x: isinstance(x, SymBool))
COMPLEX = _shim_cls(complex, _conv_complex, lambda x: isinstance(x, SymComplex))


def _type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, npshim.SArr):
        return real_np.ndarray
    for c in (BOOL, INT, FLOAT, COMPLEX):
        if c._sym(x):
            return c
    t = type(x)
    return {int: INT, float: FLOAT, bool: BOOL, complex: COMPLEX}.get(t, t)


TYPE = _Meta("type", (), {"_real": type, "_conv": staticmethod(_type), "_sym": staticmethod(lambda x: False)})


def _minmax(real, sign):
    def f(*a, **k):
        xs = a
        if len(a) == 1:
            xs = list(a[0])
            if not xs:
                return real(xs, **k)
        if not k and any(is_sym(x) for x in xs) and not any(isinstance(x, real_np.ndarray) for x in xs):
            if all(isinstance(x, (int, float, SymNum, SymBool, real_np.generic)) for x in xs):
                return core.sym_max([npshim.item_(x) for x in xs], sign)
        return real(xs, **k)
    return f


def _sum(xs, start=0):
    t = start
    for x in xs:
        t = t + x
    return t


# ------------------------------------------------------------------ math
def _m1(symf, realf):
    def f(x):
        x = _unbox(x)
        return symf(x) if is_sym(x) else realf(x)
    return f


class MathNS:
    cos = staticmethod(_m1(core.fn_cos, math.cos))
    sin = staticmethod(_m1(core.fn_sin, math.sin))
    sqrt = staticmethod(_m1(core.fn_sqrt, math.sqrt))
    exp = staticmethod(_m1(core.fn_exp, math.exp))
    floor = staticmethod(_m1(core.sym_floor, math.floor))
    ceil = staticmethod(_m1(lambda x: -core.sym_floor(-x), math.ceil))
    trunc = staticmethod(_m1(core.sym_trunc, math.trunc))
    fabs = staticmethod(_m1(abs, math.fabs))
    isnan = staticmethod(_m1(lambda x: False, math.isnan))
    isinf = staticmethod(_m1(lambda x: False, math.isinf))
    isfinite = staticmethod(_m1(lambda x: True, math.isfinite))
    radians = staticmethod(_m1(lambda x: x * (math.pi / 180), math.radians))

    @staticmethod
    def factorial(x):
        return math.factorial(core.ENGINE.concretise(x) if is_sym(x) else npshim.item_(x))

    @staticmethod
    def comb(a, b):
        c = core.ENGINE.concretise if core.ENGINE else int
        return math.comb(c(a), c(b))

    @staticmethod
    def atan2(y, x):
        return npshim._uf_atan2(y, x) if is_sym(y) or is_sym(x) else math.atan2(y, x)

    @staticmethod
    def hypot(*a):
        return core.fn_sqrt(_sum([x * x for x in a])) if any(is_sym(x) for x in a) else math.hypot(*a)

    @staticmethod
    def pow(x, y):
        return core.sympow(SymReal(SymNum.of(x).p) if is_sym(x) else x, y) if is_sym(x) or is_sym(y) else math.pow(x, y)

    @staticmethod
    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if is_sym(a) or is_sym(b):
            return abs(a - b) <= core.sym_max([core.sym_max([abs(a), abs(b)]) * rel_tol, abs_tol])
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    @staticmethod
    def fsum(x):
        return _sum(list(x), 0.0)

    @staticmethod
    def prod(xs, start=1):
        for x in xs:
            start = start * x
        return start

    def __getattr__(self, n):
        r = getattr(math, n)
        if not callable(r):
            return r

        def f(*a):
            if any(is_sym(x) for x in a):
                if n in ("gcd", "isqrt", "perm", "lcm"):
                    return r(*[core.ENGINE.concretise(x) if is_sym(x) else x for x in a])
                raise Unsupported(f"math.{n} of a symbolic value")
            return r(*a)
        return f


class CMathNS:
    @staticmethod
    def exp(x):
        return core.fn_exp(x) if is_sym(x) else cmath.exp(x)

    def __getattr__(self, n):
        r = getattr(cmath, n)
        if not callable(r):
            return r

        def f(*a):
            if any(is_sym(x) for x in a):
                raise Unsupported(f"cmath.{n} of a symbolic value")
            return r(*a)
        return f


class FunctoolsNS:
    """functools with unbounded caches (the size of a cache only matters for speed)."""
    @staticmethod
    def lru_cache(maxsize=128, typed=False):
        import functools
        if callable(maxsize):
            return functools.lru_cache(maxsize=None)(maxsize)
        return functools.lru_cache(maxsize=None, typed=typed)

    def __getattr__(self, n):
        import functools
        return getattr(functools, n)


# ------------------------------------------------------------------ scipy
def sym_convolve(image, weights, output=None, mode="reflect", cval=0.0, origin=0, **k):
    """scipy.ndimage.convolve on object arrays (documented definition; validated concretely against scipy)."""
    a, w = npshim.asarr(image), npshim.asarr(weights)
    if not a.symbolic() and not w.symbolic():
        from scipy.ndimage import convolve
        return npshim.lift(convolve(a.lower(), w.lower(), mode=mode, cval=cval, origin=origin))
    if a.ndim != 2 or w.ndim != 2:
        if a.ndim != w.ndim:
            raise RuntimeError("filter weights array has incorrect shape.")
        raise Unsupported("convolve of non-2D arrays")
    if origin != 0 or output is not None:
        raise Unsupported("convolve origin/output")
    h, wd = a.shape
    kh, kw = w.shape
    A, W = a.raw(), w.raw()

    def idx(i, n):
        if 0 <= i < n:
            return i
        if mode in ("reflect", "grid-mirror"):
            i %= 2 * n
            return i if i < n else 2 * n - 1 - i
        if mode == "mirror":
            if n == 1:
                return 0
            i %= 2 * n - 2
            return i if i < n else 2 * n - 2 - i
        if mode == "nearest":
            return min(max(i, 0), n - 1)
        if mode in ("wrap", "grid-wrap"):
            return i % n
        if mode in ("constant", "grid-constant"):
            return None
        raise RuntimeError("boundary mode not supported")
    out = real_np.empty((h, wd), dtype=object)
    for i in range(h):
        for j in range(wd):
            s = []
            for p in range(kh):
                for q in range(kw):
                    # convolution: out[i, j] = sum_pq w[p, q] * a[i - p + ch, j - q + cw]
                    y, x = idx(i - p + kh // 2 - (0 if kh % 2 else 1), h), idx(j - q + kw // 2 - (0 if kw % 2 else 1), wd)
                    v = cval if y is None or x is None else A[y, x]
                    s.append(npshim.EL["*"](W[p, q], v))
            out[i, j] = core_float(npshim._sum(s))
    dt = a.sdt
    if dt.kind in "iub":
        o = npshim.wrap(out, npshim.F64)
        return o.astype(dt)
    return npshim.wrap(out, dt)


def core_float(x):
    return SymReal(x.p) if isinstance(x, SymNum) else float(x)


def sym_jv(v, z):
    def f(a, b):
        if is_sym(a) or is_sym(b):
            one = core.Fraction(1)
            return core.fn_uf("jv", [a, b], -one, one)
        from scipy.special import jv
        return float(jv(a, b))
    return npshim.ew(f, npshim.F64, v, z)


class NumericProxy:
    """Any other numeric library: concrete arguments go to the real thing, symbolic ones are not encoded."""
    SPECIAL = {("scipy.ndimage", "convolve"): sym_convolve, ("scipy.special", "jv"): sym_jv,
               ("scipy.special", "jn"): sym_jv, ("scipy.linalg", "lstsq"): None}

    def __init__(self, name):
        self._name = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        s = self.SPECIAL.get((self._name, n))
        if s is not None:
            return s
        import importlib
        try:
            m = importlib.import_module(f"{self._name}.{n}")
            return NumericProxy(f"{self._name}.{n}")
        except ImportError:
            pass
        r = getattr(importlib.import_module(self._name), n)
        if isinstance(r, types.ModuleType):
            return NumericProxy(r.__name__)
        if isinstance(r, type) or not callable(r):
            return r
        return npshim._fallback(r, f"{self._name}.{n}")


# ------------------------------------------------------------------ files
class JsonNS:
    """json on values that may be symbolic: symbolic numbers are written as tokens and restored when read."""
    JSONDecodeError = real_json.JSONDecodeError

    def __init__(self, tokens):
        self._tok = tokens

    def _enc(self, d):
        if isinstance(d, SymNum) and not (isinstance(d, SymInt) and d.npint):
            self._tok.append(d)
            return f"\u0001symz:{len(self._tok) - 1}"
        if is_sym(d) or isinstance(d, npshim.SArr):
            raise TypeError(f"Object of type {_type(d).__name__} is not JSON serializable")
        if isinstance(d, dict):
            for k in d:
                if is_sym(k):
                    raise Unsupported("symbolic key in JSON")
            return {k: self._enc(v) for k, v in d.items()}
        if isinstance(d, (list, tuple)):
            return [self._enc(x) for x in d]
        return d

    def _dec(self, d):
        if isinstance(d, str) and d.startswith("\u0001symz:"):
            return self._tok[int(d[6:])]
        if isinstance(d, dict):
            return {k: self._dec(v) for k, v in d.items()}
        if isinstance(d, list):
            return [self._dec(x) for x in d]
        return d

    def dumps(self, o, **k):
        return real_json.dumps(self._enc(o), **k)

    def dump(self, o, f, **k):
        f.write(self.dumps(o, **k))

    def loads(self, s, **k):
        return self._dec(real_json.loads(s, **k))

    def load(self, f, **k):
        return self.loads(f.read(), **k)


# ------------------------------------------------------------------ the package
class _Metadata:
    """importlib.metadata with another version of numba."""

    def __init__(self, numba):
        self.numba = numba

    def version(self, name):
        import importlib.metadata as im
        if name.lower() == "numba":
            if self.numba is None:
                raise im.PackageNotFoundError(name)
            return self.numba
        return im.version(name)

    def __getattr__(self, n):
        import importlib.metadata as im
        return getattr(im, n)


class Package:
    """One fresh instance of the zernpy package executed on the stand-ins."""

    def __init__(self, scratch=None, no_joblib=True, mp=None, rnd=None, numba=True):
        self.numba = numba   # None: not installed; a text: this version
        self.modules = {}
        self.warnings = []
        self.calls = []
        self.book = plots.Book()
        self.tokens = []
        self.scratch = scratch
        self.rnd = rnd
        self.mp = mp
        self.ext = self._externals(no_joblib)
        self.builtins = self._builtins()

    def _builtins(self):
        b = dict(vars(builtins))
        b.update(int=INT, float=FLOAT, bool=BOOL, complex=COMPLEX, type=TYPE, min=_minmax(min, -1), max=_minmax(max, 1), sum=_sum,
                 print=lambda *a, **k: None, __import__=self._import, open=self._open,
                 input=lambda *a: (_ for _ in ()).throw(Unsupported("input()")))
        return b

    def _open(self, path, mode="r", *a, **k):
        p = Path(path).resolve()
        if self.scratch is None or not str(p).startswith(str(Path(self.scratch).resolve())):
            if any(c in mode for c in "wax+"):
                raise Unsupported(f"write outside the scratch folder: {p}")
        return open(path, mode, *a, **k)

    def _externals(self, no_joblib):
        pkg = self
        self_mp = self.mp

        class Warn(types.ModuleType):
            def warn(self, msg, *a, **k):
                pkg.warnings.append(msg)

            def __getattr__(self, n):
                import warnings as w
                return getattr(w, n)

        class Clock:
            sleep = staticmethod(getattr(self_mp, "sleep", None) or (lambda *a: None))

            def __getattr__(self, n):
                return lambda *a: 0.0

        ext = {"numpy": npshim.numpy_module, "math": npshim.ShimModule("math", MathNS()), "cmath": npshim.ShimModule("cmath", CMathNS()),
               "warnings": Warn("warnings"), "time": npshim.ShimModule("time", Clock()),
               "json": npshim.ShimModule("json", JsonNS(self.tokens)), "scipy": NumericProxy("scipy"),
               "matplotlib": plots.Matplotlib(self.book)}

        class Numba:
            @staticmethod
            def njit(*a, **k):
                if len(a) == 1 and callable(a[0]) and not k:
                    return a[0]
                return lambda f: f
            jit = vectorize = guvectorize = njit
            prange = staticmethod(range)

            def __getattr__(self, n):
                return _Any()
        if isinstance(self.numba, str):
            Numba.__version__ = self.numba
        if self.numba is not None:
            ext["numba"] = npshim.ShimModule("numba", Numba())
        ext["functools"] = npshim.ShimModule("functools", FunctoolsNS())
        if self.rnd is not None:
            ext["random"] = npshim.ShimModule("random", self.rnd)
        if self.mp is not None:
            ext["multiprocessing"] = npshim.ShimModule("multiprocessing", self.mp)
        self.no_joblib = no_joblib
        return ext

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            base = globals["__package__"].split(".")
            base = base[:len(base) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
            return self._local(full, fromlist)
        top = name.split(".")[0]
        if top == "zernpy":
            m = self._local(name, fromlist)
            return m if fromlist else self.modules["zernpy"]
        if top in self.ext:
            m = self.ext[top]
            if fromlist:
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
            return m
        if top == "numba":
            raise ModuleNotFoundError("No module named 'numba'")
        if name == "importlib.metadata" and self.numba is not True:
            m = npshim.ShimModule("importlib.metadata", _Metadata(self.numba))
            return m if fromlist else types.SimpleNamespace(metadata=m)
        if top == "joblib" and self.no_joblib:
            raise ModuleNotFoundError("No module named 'joblib'")
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _local(self, full, fromlist):
        m = self.load(full)
        for f in fromlist or ():
            if f != "*" and not hasattr(m, f):
                try:
                    setattr(m, f, self.load(f"{full}.{f}"))
                except ModuleNotFoundError:
                    pass
        return m

    def load(self, full):
        if full in self.modules:
            return self.modules[full]
        rel = full.split(".")[1:]
        base = SRC.joinpath(*rel)
        ispkg = (base / "__init__.py").is_file()
        path = base / "__init__.py" if ispkg else base.with_suffix(".py")
        if not path.is_file():
            raise ModuleNotFoundError(f"No module named {full!r}")
        for i in range(1, len(full.split("."))):  # parents first
            parent = ".".join(full.split(".")[:i])
            if parent not in self.modules:
                self.load(parent)
                if full in self.modules:
                    return self.modules[full]
        m = types.ModuleType(full)
        m.__file__ = str(path)
        m.__package__ = full if ispkg else full.rpartition(".")[0]
        if ispkg:
            m.__path__ = [str(base)]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[full] = m
        try:
            exec(code_of(path), m.__dict__)
        except BaseException:
            self.modules.pop(full, None)
            raise
        par, _, leaf = full.rpartition(".")
        if par:
            setattr(self.modules[par], leaf, m)
        return m


class _Any:
    def __call__(self, *a, **k):
        return self

    def __getattr__(self, n):
        return self

    def __getitem__(self, i):
        return self


def code_of(path):
    key = str(path)
    st = os.stat(path)
    c = _CODE.get(key)
    if c is None or c[0] != (st.st_mtime_ns, st.st_size):
        src = Path(path).read_text(encoding="utf-8")
        _CODE[key] = ((st.st_mtime_ns, st.st_size), compile(src, key, "exec", dont_inherit=True))
        c = _CODE[key]
    return c[1]


# ------------------------------------------------------------------ which functions were encoded
EXECUTED = set()
_MON = None


def monitor():
    """Record (cheaply) every function of the package that is executed."""
    global _MON
    if _MON is not None:
        return
    mon = sys.monitoring
    _MON = 4
    mon.use_tool_id(_MON, "symz")
    pref = str(SRC)

    def start(code, off):
        if code.co_filename.startswith(pref) and code.co_name not in ("<module>",):
            EXECUTED.add(f"{os.path.relpath(code.co_filename, pref)}:{code.co_qualname}")
        return mon.DISABLE
    mon.register_callback(_MON, mon.events.PY_START, start)
    mon.set_events(_MON, mon.events.PY_START)
