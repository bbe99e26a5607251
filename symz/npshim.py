"""numpy stand-in for the symbolic execution: ndarray subclass with object elements plus a logical dtype."""
import builtins
import functools
import inspect
import math
import numbers
import re
import types

import numpy as real

from . import core
from .core import (SymBool, SymComplex, SymInt, SymNum, SymReal, Unsupported, fn_cos, fn_exp, fn_sin, fn_sqrt, is_sym,
                   ite, mk, sym_floor, sym_max, sym_round, sym_trunc)

nd = real.ndarray
OBJ = real.dtype(object)
F64, I64, B8, C128 = (real.dtype(x) for x in ("float64", "int64", "bool", "complex128"))


def ndt(dt):
    """Real numpy dtype of a dtype-like object (shim classes included)."""
    if dt is None:
        return None
    n = getattr(dt, "_real", None)
    if n is not None:
        dt = n
    return real.dtype(dt)


def kind_of(x):
    """Logical dtype of one scalar (weak python types reported as python types)."""
    if isinstance(x, SymBool) or isinstance(x, (bool, real.bool_)):
        return B8
    if isinstance(x, SymComplex):
        return C128
    if isinstance(x, SymInt):
        return I64
    if isinstance(x, SymReal):
        return F64
    if isinstance(x, real.generic):
        return x.dtype
    if isinstance(x, int):
        return I64
    if isinstance(x, float):
        return F64
    if isinstance(x, complex):
        return C128
    return OBJ


def elem(x, dt):
    """Element as stored in an array of logical dtype dt (numpy casting rules of assignment)."""
    k = dt.kind
    if k == "f":
        if isinstance(x, SymNum):
            if dt.itemsize < 8:
                raise Unsupported(f"symbolic value stored as {dt}")
            return SymReal(x.p) if x.isint else x
        if isinstance(x, SymBool):
            return SymReal(SymNum.of(x).p)
        if isinstance(x, (SymComplex,)) or (isinstance(x, numbers.Complex) and not isinstance(x, numbers.Real)):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        if dt.itemsize < 8:
            return float(dt.type(x))
        return float(x)
    if k in "iu":
        if isinstance(x, SymNum):
            r = sym_trunc(x)
            if not isinstance(r, SymNum):
                return int(dt.type(r))
            info = real.iinfo(dt)
            lo, hi = r.p.bounds()
            if lo is None or hi is None or lo < info.min or hi > info.max:
                if dt.itemsize < 8:
                    ok = (r >= int(info.min)), (r <= int(info.max))
                    if not (bool(ok[0]) and bool(ok[1])):
                        raise Unsupported(f"integer overflow in {dt}")
            return r
        if isinstance(x, SymBool):
            return SymNum.of(x)
        return int(dt.type(x)) if isinstance(x, int) else int(real.asarray(x).astype(dt))
    if k == "b":
        if isinstance(x, SymBool):
            return x
        if is_sym(x):
            return x != 0
        return bool(x)
    if k == "c":
        if isinstance(x, SymComplex):
            return x
        if is_sym(x):
            return SymComplex.of(x)
        return complex(x)
    return x


def np_scalar(x, dt):
    """Value handed out for a single element."""
    if isinstance(x, SymInt):
        return SymInt(x.p, True)
    if is_sym(x):
        return x
    if dt.kind in "fiubc":
        return dt.type(x)
    return x


class SArr(nd):
    def __new__(cls, data, dt):
        a = real.empty(real.shape(data) if not isinstance(data, nd) else data.shape, dtype=object)
        a[...] = data
        r = nd.view(a, cls)
        r.sdt = dt
        return r

    def __array_finalize__(self, obj):
        self.sdt = getattr(obj, "sdt", F64)

    dtype = property(lambda self: self.sdt)

    # raw object view
    def raw(self):
        return nd.view(self, nd)

    def symbolic(self):
        return any(is_sym(x) for x in self.raw().flat)

    def lower(self):
        """Concrete numpy array with the logical dtype."""
        r = self.raw()
        out = real.empty(r.shape, dtype=self.sdt)
        for i, x in real.ndenumerate(r):
            out[i] = x
        return out

    def __getitem__(self, i):
        i = fix_index(i)
        r = nd.__getitem__(self.raw(), i)
        if isinstance(r, nd) and not (r.ndim == 0 and not _has_ellipsis(i)):
            r = nd.view(r, SArr)
            r.sdt = self.sdt
            return r
        if isinstance(r, nd):
            r = r[()]
        return np_scalar(r, self.sdt)

    def __setitem__(self, i, v):
        raw = self.raw()
        m = i if isinstance(i, SArr) and i.sdt.kind == "b" else None
        if m is not None and m.symbolic() and not isinstance(v, (nd, list, tuple)):
            v = elem(v, self.sdt)
            for j, b in real.ndenumerate(m.raw()):
                if raw.ndim != m.ndim:
                    raise Unsupported("partial mask assignment")
                raw[j] = ite(b, v, raw[j])
            return
        i = fix_index(i)
        if isinstance(v, (nd, list, tuple)):
            v = asarr(v)
            w = real.empty(v.shape, dtype=object)
            for j, x in real.ndenumerate(v.raw()):
                w[j] = elem(x, self.sdt)
            raw[i] = w
        else:
            raw[i] = elem(v, self.sdt)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for k in range(self.shape[0]):
            yield self[k]

    def __contains__(self, x):
        return any(bool(y == x) for y in self.raw().flat)

    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        if method == "reduce" and uf is real.add:
            return np_sum(inputs[0], **kw)
        if method == "reduce" and uf in (real.maximum, real.minimum):
            return np_max(inputs[0], **kw) if uf is real.maximum else np_min(inputs[0], **kw)
        if method != "__call__":
            raise Unsupported(f"ufunc method {uf.__name__}.{method}")
        if kw.get("where", True) is not True:
            raise Unsupported("ufunc where=")
        f = UFUNCS.get(uf.__name__)
        if f is None:
            if not any(any_sym(x) for x in inputs):
                r = uf(*[lower(x) for x in inputs])
            else:
                raise Unsupported(f"numpy.{uf.__name__} on symbolic values")
            r = lift(r)
        else:
            r = f(*inputs)
        if out is not None:
            o = out[0]
            rd = r.sdt if isinstance(r, SArr) else kind_of(r)
            if not real.can_cast(rd, o.sdt, "same_kind"):
                raise TypeError(f"Cannot cast ufunc '{uf.__name__}' output from {rd!r} to {o.sdt!r} with casting rule 'same_kind'")
            if real.shape(r) != o.shape and real.broadcast_shapes(real.shape(r), o.shape) != o.shape:
                raise ValueError("non-broadcastable output operand")
            o[...] = r
            return o
        return r

    def __array_function__(self, func, typs, args, kwargs):
        name = func.__name__
        f = getattr(NP, name, None)
        if f is None or f is func:
            raise Unsupported(f"numpy.{name}")
        return f(*args, **kwargs)

    def __bool__(self):
        if self.size == 1:
            return bool(self.raw().flat[0])
        if self.size == 0:
            raise ValueError("The truth value of an empty array is ambiguous")
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __index__(self):
        return int(self.raw()[()])

    def __int__(self):
        return int(self.raw().reshape(-1)[0]) if self.size == 1 else nd.__int__(self.raw())

    def __float__(self):
        return float(self.raw().reshape(-1)[0]) if self.size == 1 else nd.__float__(self.raw())

    def __repr__(self):
        return f"SArr({self.raw()!r}, {self.sdt})"

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        return (SArr, (self.raw(), self.sdt))

    # methods --------------------------------------------------------
    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = ndt(dtype)
        out = real.empty(self.shape, dtype=object)
        for i, x in real.ndenumerate(self.raw()):
            out[i] = cast_el(x, dt)
        return wrap(out, dt)

    def copy(self, order="C"):
        return wrap(self.raw().copy(), self.sdt)

    def tolist(self):
        def py(x):
            return x.item() if isinstance(x, real.generic) else x
        return real.frompyfunc(py, 1, 1)(self.raw()).tolist() if self.size else self.raw().tolist()

    def item(self, *args):
        a = args
        return self.raw().item(*a)

    def sum(self, axis=None, dtype=None, keepdims=False, **k):
        return np_sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **k):
        return np_prod(self, axis=axis)

    def max(self, axis=None, **k):
        return np_max(self, axis=axis, **k)

    def min(self, axis=None, **k):
        return np_min(self, axis=axis, **k)

    def mean(self, axis=None, **k):
        return np_mean(self, axis=axis)

    def any(self, axis=None, **k):
        return np_any(self, axis=axis)

    def all(self, axis=None, **k):
        return np_all(self, axis=axis)

    def round(self, decimals=0, **k):
        return NP.round(self, decimals)

    def dot(self, b):
        return NP.dot(self, b)

    def clip(self, min=None, max=None, out=None):
        if out is not None:
            raise Unsupported("clip out=")
        return NP.clip(self, min, max)

    def cumsum(self, axis=None, **k):
        return NP.cumsum(self, axis)

    def argmax(self, axis=None, **k):
        return NP.argmax(self, axis)

    def nonzero(self):
        return real.nonzero(real.asarray([bool(x) for x in self.raw().flat]).reshape(self.shape))

    def fill(self, value):
        self[...] = value

    def conj(self):
        return NP.conj(self)

    conjugate = conj
    real = property(lambda self: NP.real(self))
    imag = property(lambda self: NP.imag(self))

    def __matmul__(self, o):
        return NP.dot(self, o)

    def view(self, *a, **k):
        return self if not a and not k else (_ for _ in ()).throw(Unsupported("ndarray.view"))

    def tobytes(self, *a):
        return self.lower().tobytes(*a)

    nbytes = property(lambda self: self.size * self.sdt.itemsize)
    itemsize = property(lambda self: self.sdt.itemsize)

    def std(self, axis=None, ddof=0, **k):
        return NP.std(self, axis, ddof)

    def var(self, axis=None, ddof=0, **k):
        return NP.var(self, axis, ddof)


def _inplace(name):
    base = getattr(nd, name)

    def f(self, o):
        return base(self, asarr(o) if is_sym(o) else o)
    f.__name__ = name
    return f


for _n in ("iadd", "isub", "imul", "itruediv", "ifloordiv", "imod", "ipow", "iand", "ior", "ixor"):
    setattr(SArr, f"__{_n}__", _inplace(f"__{_n}__"))


def _has_ellipsis(i):
    return i is Ellipsis or isinstance(i, tuple) and any(x is Ellipsis for x in i)


def fix_index(i):
    """Index with symbolic integers made concrete (path fork) and boolean masks decided (path fork)."""
    if isinstance(i, tuple):
        return tuple(fix_index(x) for x in i)
    if isinstance(i, slice):
        return slice(*(None if v is None else v.__index__() for v in (i.start, i.stop, i.step)))
    if isinstance(i, SymInt):
        return i.__index__()
    if isinstance(i, SArr):
        if i.sdt.kind == "b":
            return real.asarray([bool(x) for x in i.raw().flat], dtype=bool).reshape(i.shape)
        if i.sdt.kind in "iu":
            return real.asarray([int(x) for x in i.raw().flat], dtype=i.sdt).reshape(i.shape)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(i, list):
        return fix_index(asarr(i))
    if isinstance(i, (SymReal, float)):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are "
                         "valid indices")
    if isinstance(i, SymBool):
        return bool(i)
    return i


def wrap(objarr, dt):
    r = nd.view(objarr, SArr)
    r.sdt = dt
    return r


def any_sym(x):
    if isinstance(x, SArr):
        return x.symbolic()
    if isinstance(x, (list, tuple)):
        return any(any_sym(y) for y in x)
    if isinstance(x, dict):
        return any(any_sym(y) for y in x.values())
    return is_sym(x)


def lower(x):
    if isinstance(x, SArr):
        return x.lower()
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(lower(y) for y in x)
    if isinstance(x, dict):
        return {k: lower(v) for k, v in x.items()}
    n = getattr(x, "_real", None)
    return n if n is not None and isinstance(x, type) else x


def lift(x):
    """Results of real numpy calls become SArr."""
    if isinstance(x, nd) and not isinstance(x, SArr):
        if x.dtype == OBJ or x.dtype.kind not in "fiubc":
            return x
        out = real.empty(x.shape, dtype=object)
        for i, v in real.ndenumerate(x):
            out[i] = v.item()
        return wrap(out, x.dtype)
    if type(x) in (list, tuple):
        return type(x)(lift(y) for y in x)
    return x


def asarr(x, dt=None):
    """np.asarray."""
    dt = ndt(dt)
    if isinstance(x, SArr):
        return x if dt is None or dt == x.sdt else x.astype(dt)
    if isinstance(x, nd):
        x = lift(x)
        if not isinstance(x, SArr):
            raise Unsupported("object array")
        return asarr(x, dt)
    if isinstance(x, (list, tuple, range)):
        if any_sym(x) or any(isinstance(y, SArr) for y in _flat1(x)):
            items = [asarr(y) for y in x]
            shp = items[0].shape
            if any(i.shape != shp for i in items):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            d = dt or real.result_type(*[i.sdt for i in items])
            out = real.empty((len(items),) + shp, dtype=object)
            for k, it in enumerate(items):
                for j, v in real.ndenumerate(it.raw()):
                    out[(k,) + j] = cast_el(v, d)
            return wrap(out, d)
        r = real.asarray(list(x) if isinstance(x, range) else x)
        if dt is not None:
            r = r.astype(dt)
        if r.dtype == OBJ:
            raise Unsupported("object array")
        return lift(r)
    if is_sym(x):
        out = real.empty((), dtype=object)
        d = dt or kind_of(x)
        out[()] = cast_el(x, d)
        return wrap(out, d)
    if x is None or isinstance(x, (str, set, dict)) or not isinstance(x, (numbers.Number, real.generic)):
        r = real.asarray(x, dtype=dt)
        return lift(r) if r.dtype != OBJ else r
    return lift(real.asarray(x, dtype=dt))


def _flat1(x):
    for y in x:
        if isinstance(y, (list, tuple)):
            yield from _flat1(y)
        else:
            yield y


def cast_el(x, dt):
    """astype of one element (unlike assignment, complex -> real and wrapping casts are allowed)."""
    if dt.kind in "fiu" and isinstance(x, SymComplex):
        x = x.real
    if dt.kind in "iu" and not is_sym(x):
        with real.errstate(all="ignore"):
            return int(real.asarray(x).astype(dt))
    if dt.kind in "f" and isinstance(x, complex):
        x = x.real
    return elem(x, dt)


def cast_scalar(x, dt):
    d = ndt(dt)
    return np_scalar(cast_el(x, d), d)


# ------------------------------------------------------------------ elementwise machinery
def weak(x):
    """Operand of result_type: arrays/np scalars are strong, python scalars weak."""
    if isinstance(x, SArr):
        return x.sdt
    if isinstance(x, SymBool) or isinstance(x, bool):
        return B8
    if isinstance(x, SymInt):
        return I64 if x.npint else 1
    if isinstance(x, SymReal):
        return 1.0
    if isinstance(x, SymComplex):
        return 1j
    if isinstance(x, real.generic):
        return x.dtype
    if isinstance(x, (int, float, complex)):
        return type(x)(1)
    raise TypeError(f"unsupported operand for numpy arithmetic: {type(x)}")


def result_dt(*xs):
    ws = [weak(x) for x in xs]
    if all(isinstance(w, (int, float, complex)) and not isinstance(w, real.dtype) for w in ws):
        return real.result_type(*[real.asarray(w).dtype for w in ws])
    return real.result_type(*ws)


def item_(x):
    return x.item() if isinstance(x, real.generic) else x


def prep(x):
    if isinstance(x, (list, tuple, range)) or isinstance(x, nd) and not isinstance(x, SArr):
        return asarr(x)
    return x


def ew(f, dt, *xs, scalar_np=True):
    """Elementwise application with broadcasting; dt is the logical dtype of the result."""
    xs = [prep(x) for x in xs]
    if not any(isinstance(x, SArr) for x in xs):
        v = f(*[item_(x) for x in xs])
        return np_scalar(v, dt) if scalar_np and dt is not None else v
    arrs = [x.raw() if isinstance(x, SArr) else _obj0(item_(x)) for x in xs]
    b = real.broadcast(*arrs)
    out = real.empty(b.shape, dtype=object)
    fl = out.reshape(-1) if out.size else out
    k = 0
    for vals in b:
        fl[k] = elem(f(*vals), dt)
        k += 1
    out = fl.reshape(b.shape) if out.size else out
    if out.ndim == 0 and all(not isinstance(x, SArr) or x.ndim == 0 for x in xs):
        return np_scalar(out[()], dt)
    return wrap(out, dt)


def _obj0(x):
    a = real.empty((), dtype=object)
    a[()] = x
    return a


def _c(f, rf):
    """Elementwise operation: concrete operands go through numpy (inf/nan instead of exceptions)."""
    def g(a, b):
        if is_sym(a) or is_sym(b):
            return f(a, b)
        with real.errstate(all="ignore"):
            r = rf(a, b)
        return r.item() if isinstance(r, real.generic) else r
    return g


def _symdiv(a, b):
    if not is_sym(b) and b == 0:
        raise Unsupported("array division by zero of a symbolic value")
    try:
        return a / b
    except ZeroDivisionError:
        raise Unsupported("array division by zero of a symbolic value")


EL = {
    "+": _c(lambda a, b: a + b, lambda a, b: a + b),
    "-": _c(lambda a, b: a - b, lambda a, b: a - b),
    "*": _c(lambda a, b: a * b, lambda a, b: a * b),
    "/": _c(_symdiv, lambda a, b: real.true_divide(a, b)),
    "//": _c(lambda a, b: a // b, lambda a, b: real.floor_divide(a, b)),
    "%": _c(lambda a, b: a % b, lambda a, b: real.mod(a, b)),
    "**": _c(lambda a, b: a ** b, lambda a, b: real.power(a, b)),
}
CMP = {
    "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
    "==": lambda a, b: a == b, "!=": lambda a, b: a != b,
}


def binop(a, b, op):
    a, b = prep(a), prep(b)
    if op in CMP:
        if b is None or isinstance(b, str) or a is None or isinstance(a, str):
            if op in ("==", "!="):
                return ew(lambda x: op == "!=", B8, a if isinstance(a, SArr) else b)
            raise TypeError("unsupported comparison")
        return ew(CMP[op], B8, a, b)
    dt = result_dt(a, b)
    if op == "/" and dt.kind in "iub":
        dt = F64
    if op == "-" and dt.kind == "b":
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    if op == "**" and dt.kind in "iu":
        eb = b.raw().flat if isinstance(b, SArr) else [b]
        if any(not is_sym(x) and x < 0 for x in eb):
            raise ValueError("Integers to negative integer powers are not allowed.")
    if op == "*" and dt.kind == "b":
        return ew(lambda x, y: x & y, B8, a, b)
    return ew(EL[op], dt, a, b)


def _u1(f, dtf):
    def g(x, *a, **k):
        x = prep(x)
        return ew(f, dtf(result_dt(x)), x)
    return g


def _fdt(dt):
    return dt if dt.kind in "fc" else F64


def _s(symf, rf):
    def g(a):
        if is_sym(a):
            return symf(a)
        with real.errstate(all="ignore"):
            r = rf(a)
        return r.item() if isinstance(r, real.generic) else r
    return g


def _np_sqrt(x):
    if isinstance(x, SymComplex):
        raise Unsupported("complex sqrt")
    try:
        return fn_sqrt(x)
    except ValueError:
        raise Unsupported("numpy sqrt of a negative symbolic value")


def _sign(x):
    return ite(x > 0, 1, ite(x < 0, -1, 0, True), True)


def _and(a, b):
    r = (a & b) if is_sym(a) or is_sym(b) else (a & b)
    return r


def _tobool(x):
    if isinstance(x, SymBool):
        return x
    if is_sym(x):
        return x != 0
    return bool(x)


def _uf_atan2(y, x):
    return core.fn_uf("arctan2", [y, x], -core.Fraction(math.pi), core.Fraction(math.pi))


PLAIN = {int, float, bool, real.float64, real.int64}
UFUNCS = {
    "add": lambda a, b: binop(a, b, "+"), "subtract": lambda a, b: binop(a, b, "-"),
    "multiply": lambda a, b: binop(a, b, "*"), "divide": lambda a, b: binop(a, b, "/"),
    "true_divide": lambda a, b: binop(a, b, "/"), "floor_divide": lambda a, b: binop(a, b, "//"),
    "remainder": lambda a, b: binop(a, b, "%"), "mod": lambda a, b: binop(a, b, "%"),
    "power": lambda a, b: binop(a, b, "**"), "float_power": lambda a, b: binop(asarr(a, F64) if isinstance(a, SArr) else a, b, "**"),
    "less": lambda a, b: binop(a, b, "<"), "less_equal": lambda a, b: binop(a, b, "<="),
    "greater": lambda a, b: binop(a, b, ">"), "greater_equal": lambda a, b: binop(a, b, ">="),
    "equal": lambda a, b: binop(a, b, "=="), "not_equal": lambda a, b: binop(a, b, "!="),
    "negative": _u1(lambda x: -x, lambda d: d), "positive": _u1(lambda x: x, lambda d: d),
    "absolute": _u1(lambda x: abs(x), lambda d: F64 if d.kind == "c" else d),
    "fabs": _u1(lambda x: abs(x), _fdt),
    "square": _u1(lambda x: x * x, lambda d: d),
    "sqrt": _u1(_s(_np_sqrt, real.sqrt), _fdt), "cos": _u1(_s(fn_cos, real.cos), _fdt), "sin": _u1(_s(fn_sin, real.sin), _fdt),
    "exp": _u1(_s(fn_exp, real.exp), _fdt),
    "sign": _u1(_s(_sign, real.sign), lambda d: d),
    "floor": _u1(_s(sym_floor, real.floor), _fdt), "ceil": _u1(_s(lambda x: -sym_floor(-x), real.ceil), _fdt),
    "rint": _u1(_s(lambda x: sym_round(x), real.rint), _fdt), "trunc": _u1(_s(sym_trunc, real.trunc), _fdt),
    "logical_and": lambda a, b: ew(lambda x, y: _tobool(x) & _tobool(y), B8, a, b),
    "logical_or": lambda a, b: ew(lambda x, y: _tobool(x) | _tobool(y), B8, a, b),
    "logical_not": lambda a: ew(lambda x: ~_tobool(x) if is_sym(x) else not x, B8, a),
    "logical_xor": lambda a, b: ew(lambda x, y: _tobool(x) ^ _tobool(y), B8, a, b),
    "bitwise_and": lambda a, b: ew(_and, result_dt(prep(a), prep(b)), a, b),
    "bitwise_or": lambda a, b: ew(lambda x, y: x | y, result_dt(prep(a), prep(b)), a, b),
    "bitwise_xor": lambda a, b: ew(lambda x, y: x ^ y, result_dt(prep(a), prep(b)), a, b),
    "invert": lambda a: ew(lambda x: ~x if is_sym(x) else (not x if isinstance(x, bool) else ~x), result_dt(prep(a)), a),
    "maximum": lambda a, b: ew(lambda x, y: sym_max([x, y]) if is_sym(x) or is_sym(y) else real.maximum(x, y).item(),
                               result_dt(prep(a), prep(b)), a, b),
    "minimum": lambda a, b: ew(lambda x, y: sym_max([x, y], -1) if is_sym(x) or is_sym(y) else real.minimum(x, y).item(),
                               result_dt(prep(a), prep(b)), a, b),
    "arctan2": lambda a, b: ew(lambda y, x: _uf_atan2(y, x) if is_sym(x) or is_sym(y) else real.arctan2(y, x).item(), F64, a, b),
    "isnan": lambda a: ew(lambda x: False if is_sym(x) else bool(real.isnan(x)), B8, a),
    "isfinite": lambda a: ew(lambda x: True if is_sym(x) else bool(real.isfinite(x)), B8, a),
    "isinf": lambda a: ew(lambda x: False if is_sym(x) else bool(real.isinf(x)), B8, a),
    "conjugate": _u1(lambda x: x.conjugate(), lambda d: d),
    "hypot": lambda a, b: ew(lambda x, y: _np_sqrt(x * x + y * y) if is_sym(x) or is_sym(y) else math.hypot(x, y), F64, a, b),
    "deg2rad": _u1(lambda x: x * (math.pi / 180), _fdt), "radians": _u1(lambda x: x * (math.pi / 180), _fdt),
}
UFUNCS["fmax"], UFUNCS["fmin"] = UFUNCS["maximum"], UFUNCS["minimum"]
UFUNCS["abs"] = UFUNCS["absolute"]
UFUNCS["conj"] = UFUNCS["conjugate"]


# ------------------------------------------------------------------ reductions
def _reduce(f, x, axis, dt, keepdims=False, empty=None):
    x = asarr(x) if not isinstance(x, SArr) else x
    raw = x.raw()
    if axis is None:
        xs = list(raw.flat)
        if not xs and empty is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        v = f(xs) if xs else empty
        v = np_scalar(elem(v, dt), dt)
        if keepdims:
            o = real.empty((1,) * raw.ndim, dtype=object)
            o[...] = v
            return wrap(o, dt)
        return v
    if isinstance(axis, tuple):
        for a in sorted((a % raw.ndim for a in axis), reverse=True):
            x = _reduce(f, x, a, dt, keepdims, empty)
        return x
    axis = int(axis)
    if not -raw.ndim <= axis < raw.ndim:
        raise real.exceptions.AxisError(axis, raw.ndim)
    mv = real.moveaxis(raw, axis, -1)
    out = real.empty(mv.shape[:-1], dtype=object)
    for i in real.ndindex(*mv.shape[:-1]):
        out[i] = elem(f(list(mv[i])), dt)
    if keepdims:
        return wrap(real.expand_dims(out, axis), dt)
    return wrap(out, dt) if out.ndim else np_scalar(out[()], dt)


def _sum(xs):
    cs = [x for x in xs if not is_sym(x)]
    ss = [x for x in xs if is_sym(x)]
    if not ss:
        return real.sum(real.asarray(cs)).item()
    if any(isinstance(x, (SymComplex, complex)) for x in xs):
        t = SymComplex.of(0.0)
        for x in xs:
            t = t + x
        return t
    p = core.Poly({})
    acc = {}
    for s in ss:
        for k, v in SymNum.of(s).p.t.items():
            acc[k] = acc.get(k, 0) + v
    for c in cs:
        q = core.to_poly(c)
        if q is None:
            raise Unsupported("nan/inf in a symbolic sum")
        acc[()] = acc.get((), 0) + q.constant()
    p = core.Poly({k: v for k, v in acc.items() if v})
    return mk(p, all(core.is_intlike(x) for x in xs))


def _idt(dt):
    return I64 if dt.kind in "b" or dt.kind == "i" and dt.itemsize < 8 else (real.dtype("uint64") if dt.kind == "u" else dt)


def np_sum(x, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True):
    if isinstance(x, nd) and not isinstance(x, SArr) and x.dtype == OBJ:
        return real.sum(real.asarray(x))
    x = prep(x)
    if not isinstance(x, SArr):
        if isinstance(x, types.GeneratorType):
            return builtins.sum(x)
        x = asarr(x)
    return _reduce(_sum, x, axis, _idt(x.sdt) if dtype is None else ndt(dtype), keepdims, empty=0)


def np_prod(x, axis=None, dtype=None, **k):
    x = asarr(x)

    def f(xs):
        p = 1
        for v in xs:
            p = p * v
        return p
    return _reduce(f, x, axis, _idt(x.sdt), empty=1)


def _mx(sign):
    def f(xs):
        if any(is_sym(x) for x in xs):
            if any(not is_sym(x) and x != x for x in xs):
                raise Unsupported("nan in a symbolic maximum")
            return sym_max(xs, sign)
        a = real.asarray(xs)
        return (a.max() if sign > 0 else a.min()).item()
    return f


def np_max(x, axis=None, out=None, keepdims=False, **k):
    x = asarr(x)
    if not isinstance(x, SArr):
        return real.max(x)
    return _reduce(_mx(1), x, axis, x.sdt, keepdims)


def np_min(x, axis=None, out=None, keepdims=False, **k):
    x = asarr(x)
    if not isinstance(x, SArr):
        return real.min(x)
    return _reduce(_mx(-1), x, axis, x.sdt, keepdims)


def np_mean(x, axis=None, **k):
    x = asarr(x)
    n = x.size if axis is None else x.shape[axis]
    return np_sum(x, axis=axis) / n


def _any(xs):
    r = False
    for x in xs:
        b = _tobool(x)
        r = b if r is False else (r if b is False else (True if b is True or r is True else r | b))
    return r


def _all(xs):
    r = True
    for x in xs:
        b = _tobool(x)
        r = b if r is True else (r if b is True else (False if b is False or r is False else r & b))
    return r


def np_any(x, axis=None, **k):
    return _reduce(_any, asarr(x), axis, B8, empty=False)


def np_all(x, axis=None, **k):
    return _reduce(_all, asarr(x), axis, B8, empty=True)


# ------------------------------------------------------------------ the namespace
class _Linalg:
    LinAlgError = real.linalg.LinAlgError

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = asarr(x)
        if not x.symbolic():
            return lift(real.linalg.norm(x.lower(), ord, axis, keepdims))
        if ord is not None or axis is not None:
            raise Unsupported("linalg.norm with ord/axis")
        return _np_sqrt(_sum([abs(v) * abs(v) for v in x.raw().flat]))

    @staticmethod
    def lstsq(a, b, rcond=None):
        """Contract of least squares for a concrete matrix: x = pinv(A) b (minimum-norm solution), b may be symbolic."""
        a, b = asarr(a), asarr(b)
        if a.symbolic():
            raise Unsupported("least squares with a symbolic matrix")
        A = a.lower()
        if A.ndim != 2 or b.ndim not in (1, 2) or A.shape[0] != b.shape[0]:
            raise real.linalg.LinAlgError("Incompatible dimensions")
        if not b.symbolic():
            return lift(tuple(real.linalg.lstsq(A, b.lower(), rcond=rcond)))
        eps = real.finfo(float).eps * max(A.shape) if rcond is None or (not is_sym(rcond) and rcond == -1) else rcond
        P = real.linalg.pinv(A, rcond=eps)
        x = NP.dot(lift(P), b)
        s = real.linalg.svd(A, compute_uv=False)
        rank = int((s > eps * s[0]).sum())
        return x, lift(real.empty((0,))), rank, lift(s)

    def __getattr__(self, n):
        return _fallback(getattr(real.linalg, n), "linalg." + n)


class _ClsMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or cls._sym(x)

    def __call__(cls, *a, **k):
        x = a[0] if a else 0
        if any_sym(x) or isinstance(x, SArr):
            return asarr(x, cls._real) if isinstance(x, (nd, list, tuple)) else cast_scalar(x, cls._real)
        return cls._real(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real or (isinstance(o, real.dtype) and o == cls._real)

    def __hash__(cls):
        return hash(cls._real)


def _np_cls(name, sym):
    r = getattr(real, name)
    return _ClsMeta(name, (), {"_real": r, "_sym": staticmethod(sym)})


STRUCT = {"reshape", "ravel", "transpose", "swapaxes", "moveaxis", "expand_dims", "squeeze", "concatenate", "stack", "vstack",
          "hstack", "dstack", "column_stack", "flip", "flipud", "fliplr", "rot90", "roll", "tile", "repeat", "broadcast_to",
          "meshgrid", "append", "delete", "insert", "atleast_1d", "atleast_2d", "take", "diag", "split", "array_split", "triu", "tril",
          "broadcast_arrays", "rollaxis", "indices", "ix_", "hsplit", "vsplit",
          "pad"}


def _fallback(f, name):
    def g(*a, **k):
        if not any_sym(a) and not any_sym(k):
            return lift(f(*lower(a), **lower(k)))
        raise Unsupported(f"numpy.{name} on symbolic values")
    g.__name__ = name
    return g


def _structural(f, name):
    def conv(x):
        if isinstance(x, SArr):
            return x.raw()
        if type(x) in (list, tuple):
            if any_sym(x) and not any(isinstance(y, nd) for y in x):
                return asarr(x).raw()
            return type(x)(conv(y) for y in x)
        return x

    def dts(x):
        if isinstance(x, SArr):
            yield x.sdt
        elif type(x) in (list, tuple):
            for y in x:
                yield from dts(y)
        elif is_sym(x):
            yield kind_of(x)

    def g(*a, **k):
        if not any_sym(a) and not any_sym(k):
            return lift(f(*lower(a), **lower(k)))
        if name == "pad" and (a[2] if len(a) > 2 else k.get("mode", "constant")) not in ("constant", "edge", "reflect", "symmetric", "wrap"):
            raise Unsupported("numpy.pad in a statistical mode on symbolic values")
        ds = list(dts(a)) + list(dts(tuple(k.values())))
        dt = real.result_type(*ds) if name not in ("meshgrid", "broadcast_arrays") else None
        r = f(*[conv(x) for x in a], **{q: conv(v) for q, v in k.items()})
        if isinstance(r, nd):
            return wrap(r.copy() if r.dtype == OBJ else r.astype(object), dt)
        return type(r)(wrap(x, dt or ds[min(i, len(ds) - 1)]) for i, x in enumerate(r))
    g.__name__ = name
    return g


class NPShim:
    ndarray = nd
    pi, e, inf, nan, newaxis = real.pi, real.e, real.inf, real.nan, None
    linalg = _Linalg()
    float64 = _np_cls("float64", lambda x: isinstance(x, SymReal))
    floating = _np_cls("floating", lambda x: isinstance(x, SymReal))
    integer = _np_cls("integer", lambda x: isinstance(x, SymInt) and x.npint)
    int64 = _np_cls("int64", lambda x: isinstance(x, SymInt) and x.npint)
    number = _np_cls("number", lambda x: isinstance(x, SymReal) or isinstance(x, SymInt) and x.npint)
    complex128 = _np_cls("complex128", lambda x: isinstance(x, SymComplex))
    int32 = _np_cls("int32", lambda x: False)
    uint8 = _np_cls("uint8", lambda x: False)
    float32 = _np_cls("float32", lambda x: False)

    # creation
    @staticmethod
    def asarray(x, dtype=None, **k):
        return asarr(x, dtype)

    asanyarray = ascontiguousarray = asarray

    @staticmethod
    def array(x, dtype=None, copy=True, ndmin=0, **k):
        r = asarr(x, dtype)
        r = r.copy() if r is x or isinstance(r, SArr) else r
        while r.ndim < ndmin:
            r = wrap(r.raw()[None], r.sdt)
        return r

    @staticmethod
    def copy(x, **k):
        return asarr(x).copy()

    @staticmethod
    def full(shape, v, dtype=None, **k):
        dt = ndt(dtype) or (kind_of(v) if not isinstance(v, nd) else v.dtype)
        shape = _shape(shape)
        o = real.empty(shape, dtype=object)
        r = wrap(o, dt)
        o[...] = cast_el(v, dt) if not isinstance(v, nd) else v
        return r

    @staticmethod
    def zeros(shape, dtype=None, **k):
        dt = ndt(dtype) or F64
        return NPShim.full(shape, dt.type(0).item() if dt.kind in "fiubc" else 0, dt)

    @staticmethod
    def ones(shape, dtype=None, **k):
        return NPShim.full(shape, 1.0 if dtype is None else 1, ndt(dtype) or F64)

    @staticmethod
    def empty(shape, dtype=None, **k):
        dt = ndt(dtype) or F64
        return NPShim.full(shape, float("nan") if dt.kind in "fc" else -987654321 if dt.kind == "i" else 0, dt)

    @staticmethod
    def zeros_like(x, dtype=None, **k):
        x = asarr(x)
        return NPShim.zeros(x.shape, ndt(dtype) or x.sdt)

    @staticmethod
    def ones_like(x, dtype=None, **k):
        x = asarr(x)
        return NPShim.ones(x.shape, ndt(dtype) or x.sdt)

    @staticmethod
    def empty_like(x, dtype=None, **k):
        x = asarr(x)
        return NPShim.empty(x.shape, ndt(dtype) or x.sdt)

    @staticmethod
    def full_like(x, v, dtype=None, **k):
        x = asarr(x)
        return NPShim.full(x.shape, v, ndt(dtype) or x.sdt)

    @staticmethod
    def arange(start, stop=None, step=None, dtype=None, **k):
        if stop is None:
            start, stop = 0, start
        step = 1 if step is None else step
        if not any(is_sym(x) for x in (start, stop, step)):
            return lift(real.arange(start, stop, step, dtype=ndt(dtype)))
        ln = (stop - start) / step
        n = -sym_floor(-ln) if is_sym(ln) else math.ceil(ln)
        n = core.ENGINE.concretise(n) if is_sym(n) else n
        n = max(n, 0)
        dt = ndt(dtype) or (I64 if all(core.is_intlike(x) for x in (start, stop, step)) else F64)
        o = real.empty((n,), dtype=object)
        for i in range(n):
            o[i] = elem(start + i * step, dt)
        return wrap(o, dt)

    @staticmethod
    def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, **k):
        num = num.__index__()
        if not any_sym((start, stop)):
            return lift(real.linspace(start, stop, num, endpoint=endpoint, retstep=retstep, dtype=ndt(dtype)))
        div = num - 1 if endpoint else num
        step = (stop - start) / div if div > 0 else float("nan")
        o = real.empty((num,), dtype=object)
        for i in range(num):
            o[i] = elem(start + (stop - start) * (core.Fraction(i, div) if div else 0), F64)
        r = wrap(o, F64)
        return (r, step) if retstep else r

    # elementwise with numpy-specific interfaces
    @staticmethod
    def round(x, decimals=0, out=None):
        decimals = int(decimals)
        x = prep(x)
        d = result_dt(x)

        def f(v):
            if is_sym(v):
                if isinstance(v, SymComplex):
                    raise Unsupported("round complex")
                return sym_round(v, decimals)
            r = real.round(v, decimals)
            return r.item() if isinstance(r, real.generic) else r
        return ew(f, d, x)

    around = round_ = round

    @staticmethod
    def where(c, a=None, b=None):
        c = prep(c)
        if a is None:
            return lift(c.nonzero() if isinstance(c, SArr) else real.nonzero(c))
        return ew(lambda q, x, y: ite(_tobool(q), x, y), result_dt(prep(a), prep(b)), c, a, b)

    @staticmethod
    def clip(x, lo=None, hi=None, **k):
        lo = k.get("a_min", k.get("min", lo))
        hi = k.get("a_max", k.get("max", hi))
        if lo is not None:
            x = UFUNCS["maximum"](x, lo)
        return UFUNCS["minimum"](x, hi) if hi is not None else x

    @staticmethod
    def real(x):
        x = prep(x)
        return ew(lambda v: v.real, F64 if result_dt(x).kind == "c" else result_dt(x), x)

    @staticmethod
    def imag(x):
        return ew(lambda v: v.imag, F64, prep(x))

    @staticmethod
    def power(a, b, **k):
        return binop(a, b, "**")

    # reductions
    sum, prod, max, min, amax, amin, mean, any, all = (staticmethod(f) for f in (
        np_sum, np_prod, np_max, np_min, np_max, np_min, np_mean, np_any, np_all))

    @staticmethod
    def size(x, axis=None):
        x = asarr(x)
        return x.size if axis is None else x.shape[axis]

    @staticmethod
    def shape(x):
        return asarr(x).shape

    @staticmethod
    def ndim(x):
        return asarr(x).ndim

    @staticmethod
    def dot(a, b, **k):
        a, b = asarr(a), asarr(b)
        dt = real.result_type(a.sdt, b.sdt)
        if a.ndim == 0 or b.ndim == 0:
            return binop(a, b, "*")
        A, Bm = a.raw(), b.raw()
        if b.ndim > 2:
            raise Unsupported("dot of high-dimensional arrays")
        if A.shape[-1] != Bm.shape[0]:
            raise ValueError("shapes not aligned")
        cols = [Bm] if b.ndim == 1 else [Bm[:, j] for j in range(Bm.shape[1])]
        out = real.empty(A.shape[:-1] + ((Bm.shape[1],) if b.ndim == 2 else ()), dtype=object)
        for i in real.ndindex(*A.shape[:-1]):
            for j, c in enumerate(cols):
                v = _sum([EL["*"](x, y) for x, y in zip(A[i], c)])
                out[i + ((j,) if b.ndim == 2 else ())] = elem(v, dt)
        return wrap(out, dt) if out.ndim else np_scalar(out[()], dt)

    matmul = dot

    @staticmethod
    def vdot(a, b):
        return NPShim.dot(asarr(a).ravel(), asarr(b).ravel())

    @staticmethod
    def outer(a, b):
        a, b = asarr(a).ravel(), asarr(b).ravel()
        return binop(wrap(a.raw()[:, None], a.sdt), wrap(b.raw()[None, :], b.sdt), "*")

    @staticmethod
    def cumsum(x, axis=None, **k):
        x = asarr(x)
        if axis is not None and x.ndim > 1:
            raise Unsupported("cumsum axis")
        fl = list(x.raw().flat)
        o = real.empty((len(fl),), dtype=object)
        for i in range(len(fl)):
            o[i] = _sum(fl[:i + 1])
        return wrap(o, _idt(x.sdt))

    @staticmethod
    def diff(x, n=1, axis=-1, **k):
        x = asarr(x)
        if n != 1:
            raise Unsupported("diff")
        a = [slice(None)] * x.ndim
        b = list(a)
        a[axis], b[axis] = slice(1, None), slice(None, -1)
        return x[tuple(a)] - x[tuple(b)]

    @staticmethod
    def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        return binop(UFUNCS["absolute"](binop(asarr(a), asarr(b), "-")), binop(UFUNCS["absolute"](asarr(b)), rtol, "*") + atol, "<=")

    @staticmethod
    def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        return np_all(NPShim.isclose(a, b, rtol, atol))

    @staticmethod
    def array_equal(a, b, **k):
        a, b = asarr(a), asarr(b)
        return a.shape == b.shape and bool(np_all(binop(a, b, "==")))

    @staticmethod
    def argmax(x, axis=None):
        x = asarr(x)
        if not x.symbolic():
            return real.argmax(x.lower(), axis)
        if axis is not None:
            raise Unsupported("argmax axis")
        fl = list(x.raw().flat)
        b = 0
        for i in range(1, len(fl)):
            if fl[i] > fl[b]:
                b = i
        return b

    @staticmethod
    def argmin(x, axis=None):
        return NPShim.argmax(-asarr(x), axis)

    @staticmethod
    def trapezoid(y, x=None, dx=1.0, axis=-1):
        y = asarr(y)
        d = dx if x is None else NPShim.diff(x)
        if y.ndim == 1:
            return np_sum((y[1:] + y[:-1]) * d / 2.0)
        if y.ndim != 2 or asarr(d).ndim > 1:
            raise Unsupported("trapezoid of these dimensions")
        m = NP.transpose(y) if axis in (0, -2) else y
        return np_sum((m[:, 1:] + m[:, :-1]) * d / 2.0, axis=1)

    trapz = trapezoid

    @staticmethod
    def iscomplexobj(x):
        return result_dt(prep(x)).kind == "c"

    @staticmethod
    def errstate(**k):
        return real.errstate(**k)

    @staticmethod
    def isscalar(x):
        return is_sym(x) or real.isscalar(x)

    @staticmethod
    def vectorize(f, *a, **k):
        def g(*xs):
            xs = [prep(x) for x in xs]
            arrs = [x.raw() if isinstance(x, SArr) else _obj0(x) for x in xs]
            b = real.broadcast(*arrs)
            vals = [f(*v) for v in b]
            r = asarr(vals)
            return wrap(r.raw().reshape(b.shape), r.sdt)
        return g

    @staticmethod
    def nditer(*a, **k):
        raise Unsupported("numpy.nditer")

    @staticmethod
    def ndenumerate(x):
        x = asarr(x)
        return ((i, x[i]) for i in real.ndindex(*x.shape))

    @staticmethod
    def ndindex(*a):
        return real.ndindex(*a)

    @staticmethod
    def may_share_memory(a, b):
        return real.may_share_memory(a.raw(), b.raw())

    @staticmethod
    def nan_to_num(x, **k):
        return ew(lambda v: v if is_sym(v) else real.nan_to_num(v).item(), result_dt(prep(x)), x)

    @staticmethod
    def inner(a, b):
        b = asarr(b)
        return NPShim.dot(a, wrap(b.raw().T, b.sdt) if b.ndim == 2 else b)

    @staticmethod
    def einsum(spec, *ops, **k):
        spec = spec.replace(" ", "") if isinstance(spec, str) else ""
        if k or not spec or "." in spec:
            raise Unsupported("this form of numpy.einsum")
        ops = [asarr(x) for x in ops]
        lhs, arrow, out = spec.partition("->")
        ins = lhs.split(",")
        if not arrow:
            out = "".join(sorted(x for x in set(lhs) - {","} if lhs.count(x) == 1))
        if len(ins) != len(ops) or any(len(i) != x.ndim for i, x in zip(ins, ops)):
            raise ValueError("einstein sum subscripts do not fit the operands")
        dims = {}
        for i, x in zip(ins, ops):
            for q, n in zip(i, x.shape):
                if dims.setdefault(q, n) != n and 1 not in (n, dims[q]):
                    raise ValueError("operands could not be broadcast together")
                dims[q] = max(dims[q], n)
        dt = real.result_type(*[x.sdt for x in ops])
        summed = [q for q in dims if q not in out]
        o = real.empty(tuple(dims[q] for q in out), dtype=object)
        raws = [x.raw() for x in ops]
        for pos in real.ndindex(*o.shape):
            terms = []
            for sp in real.ndindex(*[dims[q] for q in summed]):
                at = dict(zip(out, pos)) | dict(zip(summed, sp))
                v = None
                for i, x in zip(ins, raws):
                    e = x[tuple(at[q] if x.shape[d] > 1 else 0 for d, q in enumerate(i))]
                    v = e if v is None else EL["*"](v, e)
                terms.append(v)
            o[pos] = elem(_sum(terms), dt)
        return wrap(o, dt) if o.ndim else np_scalar(o[()], dt)

    @staticmethod
    def polyval(p, x):
        p, x = asarr(p), asarr(x)
        r = NPShim.zeros_like(x) if x.ndim else 0
        for a in p:
            r = r * x + a
        return r

    @staticmethod
    def average(x, axis=None, weights=None):
        if weights is None:
            return np_mean(asarr(x), axis=axis)
        if axis is not None:
            raise Unsupported("average axis")
        w = asarr(weights)
        return np_sum(asarr(x) * w) / np_sum(w)

    @staticmethod
    def var(x, axis=None, ddof=0):
        x = asarr(x)
        if axis is not None or ddof != 0:
            raise Unsupported("var axis or ddof")
        d = x - np_mean(x)
        return np_mean(d * d if x.sdt.kind != "c" else UFUNCS["absolute"](d) ** 2)

    @staticmethod
    def std(x, axis=None, ddof=0):
        return UFUNCS["sqrt"](NPShim.var(x, axis, ddof))

    @staticmethod
    def cumprod(x, axis=None):
        x = asarr(x)
        if axis is not None and x.ndim > 1:
            raise Unsupported("cumprod axis")
        o = real.empty((x.size,), dtype=object)
        v = None
        for i, e in enumerate(x.raw().flat):
            v = e if v is None else EL["*"](v, e)
            o[i] = v
        return wrap(o, _idt(x.sdt))

    @staticmethod
    def nonzero(x):
        return asarr(x).nonzero()

    @staticmethod
    def argwhere(x):
        return real.transpose(asarr(x).nonzero())

    @staticmethod
    def flatnonzero(x):
        return asarr(x).ravel().nonzero()[0]

    @staticmethod
    def count_nonzero(x, axis=None):
        return np_sum(binop(asarr(x), 0, "!="), axis=axis)

    @staticmethod
    def extract(c, x):
        return asarr(x).ravel()[asarr(c).ravel()]

    @staticmethod
    def select(condlist, choicelist, default=0):
        r = default
        for c, v in reversed(list(zip(condlist, choicelist))):
            r = NPShim.where(c, v, r)
        return r

    @staticmethod
    def copyto(dst, src):
        dst[...] = src

    @staticmethod
    def fromiter(it, dtype, count=-1):
        return asarr([x for i, x in zip(range(count), it)] if count >= 0 else list(it), dtype)

    @staticmethod
    def fromfunction(f, shape, dtype=float, **k):
        return f(*[asarr(x) for x in real.indices(_shape(shape), dtype=ndt(dtype))], **k)

    @staticmethod
    def apply_along_axis(f, axis, x, *a, **k):
        x = asarr(x)
        m = real.moveaxis(x.raw(), axis, -1)
        rows = [asarr(f(wrap(m[i].copy(), x.sdt), *a, **k)) for i in real.ndindex(*m.shape[:-1])]
        r = real.empty(m.shape[:-1] + rows[0].shape, dtype=object)
        for i, v in zip(real.ndindex(*m.shape[:-1]), rows):
            r[i] = v.raw()
        if rows[0].ndim > 1:
            raise Unsupported("apply_along_axis to a two-dimensional result")
        return wrap(real.moveaxis(r, -1, axis) if rows[0].ndim else r, rows[0].sdt)

    @staticmethod
    def convolve(a, v, mode="full"):
        a, v = asarr(a), asarr(v)
        if a.ndim != 1 or v.ndim != 1:
            raise ValueError("object too deep for desired array")
        if v.size > a.size:
            a, v = v, a
        A, V, n, m = list(a.raw()), list(v.raw()), a.size, v.size
        full = [_sum([EL["*"](A[i], V[k - i]) for i in range(max(0, k - m + 1), min(n, k + 1))]) for k in range(n + m - 1)]
        lo = {"full": 0, "same": (m - 1) // 2, "valid": m - 1}[mode]
        ln = {"full": n + m - 1, "same": n, "valid": n - m + 1}[mode]
        return asarr(full[lo:lo + ln], real.result_type(a.sdt, v.sdt))

    @staticmethod
    def reciprocal(x):
        return 1.0 / prep(x)

    def __getattr__(self, n):
        if n in UFUNCS:
            f = UFUNCS[n]
            rf = getattr(real, n)

            def g(*a, out=None, where=True, dtype=None, **k):
                if out is None and where is True and all(type(x) in PLAIN for x in a):
                    with real.errstate(all="ignore"):
                        return rf(*a)
                if out is not None:
                    out[...] = f(*a)
                    return out
                if where is not True:
                    raise Unsupported("ufunc where=")
                return f(*a)
            g.__name__ = n
            setattr(self, n, g)
            return g
        r = getattr(real, n)
        if n in STRUCT:
            g = _structural(r, n)
        elif isinstance(r, type) or not callable(r):
            return r
        else:
            g = _fallback(r, n)
        setattr(self, n, g)
        return g


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(x.__index__() for x in s)
    if isinstance(s, SArr):
        return tuple(int(x) for x in s)
    return (s.__index__(),)


NP = NPShim()


# ------------------------------------------------------------------ keyword arguments
HARMLESS = {"order", "copy", "subok", "casting", "like", "device", "kind", "stable", "equal_nan", "ndmin"}


def _strict(f, ref, name):
    """Keywords under numpy's names; whatever the stand-in would ignore is refused unless it has its default value."""
    try:
        rp = list(inspect.signature(ref).parameters.values())
        fp = list(inspect.signature(f).parameters.values())
    except (TypeError, ValueError):
        return f
    own = [p.name for p in fp if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)]
    pos = [p.name for p in fp if p.kind == p.POSITIONAL_OR_KEYWORD]
    try:
        own += re.findall(r'k\.(?:get|pop)\("(\w+)"', inspect.getsource(f))
    except OSError:
        pass
    place = {p.name: i for i, p in enumerate(rp) if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)}
    default = {p.name: p.default for p in rp}

    @functools.wraps(f)
    def g(*a, **k):
        if k:
            new = {}
            for n, v in k.items():
                if n in own:
                    new[n] = v
                elif n in place and (v is default[n] or (v is None and n != "axis") or (n in ("where", "keepdims") and type(v) is bool and v == (n == "where"))
                                     or n in HARMLESS or (n == "dtype" and v in (float, real.float64))):
                    continue
                elif n in place and place[n] < len(pos) and rp[place[n]].kind == rp[0].kind and pos[place[n]] not in place:
                    new[pos[place[n]]] = v
                elif n not in place and n not in HARMLESS:
                    raise TypeError(f"{name}() got an unexpected keyword argument '{n}'")
                else:
                    raise Unsupported(f"numpy.{name}({n}=...)")
            k = new
        return f(*a, **k)
    return g


for _n, _f in list(vars(NPShim).items()):
    if isinstance(_f, staticmethod) and callable(getattr(real, _n, None)) and not isinstance(getattr(real, _n), type):
        setattr(NP, _n, _strict(_f.__func__, getattr(real, _n), _n))
for _n, _f in (("sum", np_sum), ("prod", np_prod), ("max", np_max), ("min", np_min), ("mean", np_mean), ("any", np_any), ("all", np_all)):
    for _k in (_n, "a" + _n):
        if hasattr(NPShim, _k):
            setattr(NP, _k, _strict(_f, getattr(real, _n), _n))
for _n in ("sum", "prod", "max", "min", "mean", "any", "all", "round", "cumsum", "argmax", "std"):
    setattr(SArr, _n, _strict(vars(SArr)[_n], getattr(real, _n), _n))


class ShimModule(types.ModuleType):
    """Module object whose attributes come from the namespace."""

    def __init__(self, name, ns):
        super().__init__(name)
        self.__dict__["_ns"] = ns

    def __getattr__(self, n):
        return getattr(self.__dict__["_ns"], n)


numpy_module = ShimModule("numpy", NP)
