"""Symbolic values (exact polynomials over atoms) and the path-exploration engine.

Every symbolic number is a polynomial with rational coefficients over *atoms*.  An atom is an input variable, the
value of an elementary function (cos, sin, sqrt, ...) at a symbolic argument, an uninterpreted function application, or
an auxiliary value (max, quotient, rounding, if-then-else, ...) with its defining constraint.  Branches on symbolic
conditions fork the execution; the SMT solver decides which sides are feasible and whether assertions can fail.
"""
import math
import os
import numbers
import time
from fractions import Fraction

import z3

PI = Fraction(math.pi)


class Unsupported(BaseException):
    """The encoding does not cover what the code does on this path (inconclusive, never success)."""


class Infeasible(BaseException):
    """The current path contradicts an assumption."""


class StopPath(BaseException):
    """A violation was recorded on this path; stop executing it."""


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "name", "z", "isint", "lo", "hi", "kind", "data", "sq", "constraints")

    def __init__(self, id_, name, z, isint=False, lo=None, hi=None, kind="input", data=None):
        self.id, self.name, self.z, self.isint = id_, name, z, isint
        self.lo, self.hi, self.kind, self.data = lo, hi, kind, data
        self.sq = None  # polynomial that equals the square of the atom (sqrt, sin)
        self.constraints = []


class Atoms:
    def __init__(self):
        self.list = []
        self.byname = {}
        self.memo = {}
        self.fnbuckets = {}
        self.fixed = {}     # atoms with one possible value on this path

    def new(self, name, isint=False, lo=None, hi=None, kind="input", data=None, z=None):
        i = len(self.list)
        nm = f"{name}!{i}" if kind != "input" else name
        if z is None:
            z = z3.Int(nm) if isint else z3.Real(nm)
        a = Atom(i, nm, z, isint, lo, hi, kind, data)
        self.byname[nm] = i
        self.list.append(a)
        return a


ATOMS = Atoms()
ENGINE = None  # the active Engine


def reset_atoms():
    global ATOMS
    ATOMS = Atoms()
    _CONSTS.clear()


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("t", "_h", "_z", "_int", "_lin", "sos")

    def __init__(self, terms, sos=False):
        self.t = terms
        self.sos = sos      # known to be >= 0: a square, or a sum or product of such
        self._lin = None
        self._h = None
        self._z = None
        self._int = None

    @staticmethod
    def const(c):
        c = c if isinstance(c, Fraction) else Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a.id, 1),): Fraction(1)})

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def constant(self):
        return self.t.get((), Fraction(0))

    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        r = dict(self.t)
        for k, v in o.t.items():
            s = r.get(k)
            if s is None:
                r[k] = v
            else:
                s = s + v
                if s:
                    r[k] = s
                else:
                    del r[k]
        return Poly(r, self.nonneg() and o.nonneg())

    def nonneg(self):
        return self.sos or (self.is_const() and self.constant() >= 0)

    def __neg__(self):
        return Poly({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if not c:
            return Poly({})
        if c == 1:
            return self
        return Poly({k: v * c for k, v in self.t.items()}, self.sos and c > 0)

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.constant())
        if o.is_const():
            return self.scale(o.constant())
        r = {}
        need = False
        for k1, v1 in self.t.items():
            for k2, v2 in o.t.items():
                k, red = mono_mul(k1, k2)
                need = need or red
                s = r.get(k)
                v = v1 * v2
                if s is None:
                    r[k] = v
                else:
                    s = s + v
                    if s:
                        r[k] = s
                    else:
                        del r[k]
        p = Poly(r)
        if need:
            p = p.reduce()
        p.sos = self is o or (self.sos and o.sos) or self.t == o.t
        return p

    def reduce(self):
        """Apply s*s -> defined square for sqrt and sin atoms until none is left."""
        todo = [(k, v) for k, v in self.t.items()]
        out = {}
        while todo:
            k, v = todo.pop()
            for i, (a, e) in enumerate(k):
                at = ATOMS.list[a]
                if at.sq is not None and e >= 2:
                    rest = list(k)
                    if e - 2:
                        rest[i] = (a, e - 2)
                    else:
                        del rest[i]
                    q = Poly({tuple(rest): v}) * at.sq
                    todo.extend(q.t.items())
                    break
            else:
                s = out.get(k)
                s = v if s is None else s + v
                if s:
                    out[k] = s
                elif k in out:
                    del out[k]
        return Poly(out)

    def pow(self, n):
        if n == 0:
            return Poly.const(1)
        if len(self.t) == 1:
            (k, v), = self.t.items()
            if not any(ATOMS.list[a].sq is not None for a, _ in k):
                return Poly({tuple((a, e * n) for a, e in k): v ** n}, n % 2 == 0)
        if n < 0:
            raise Unsupported("negative power of a sum")
        r = None
        b = self
        while n:
            if n & 1:
                r = b if r is None else r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def isint(self):
        if self._int is None:
            self._int = all(v.denominator == 1 for v in self.t.values()) and all(
                ATOMS.list[a].isint and e > 0 for k in self.t for a, e in k)
        return self._int

    def z(self):
        if self._z is None:
            if self.isint():
                s = [z3.IntVal(int(v)) if not k else _mono_z(k, v, True) for k, v in self.t.items()]
                self._z = z3.IntVal(0) if not s else (s[0] if len(s) == 1 else z3.Sum(s))
            else:
                s = [_rv(v) if not k else _mono_z(k, v, False) for k, v in self.t.items()]
                self._z = s[0] if len(s) == 1 else z3.Sum(s)
        return self._z

    def zr(self):
        z = self.z()
        return z3.ToReal(z) if z.is_int() else z

    def atoms(self):
        return {a for k in self.t for a, _ in k}

    def lin(self):
        """(atom, coefficient, constant) when the polynomial is linear in one atom, else False."""
        if self._lin is None:
            self._lin = False
            n = len(self.t)
            if n == 1 or (n == 2 and () in self.t):
                for k, v in self.t.items():
                    if k and len(k) == 1 and k[0][1] == 1:
                        c, d = v, self.t.get((), 0)
                        if c.denominator == 1 and d.denominator == 1:
                            c, d = int(c), int(d)
                        self._lin = (ATOMS.list[k[0][0]], c, d)
        return self._lin

    def bounds(self):
        """Interval enclosure (None = unbounded) from the bounds of the atoms."""
        ln = self.lin()
        if ln:
            at, c, d = ln
            a, b = at.lo, at.hi
            if c < 0:
                a, b = b, a
            return (None if a is None else c * a + d), (None if b is None else c * b + d)
        lo = hi = Fraction(0)
        for k, v in self.t.items():
            a, b = mono_bounds(k)
            if v < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + v * a
            hi = None if hi is None or b is None else hi + v * b
        return lo, hi

    def __repr__(self):
        def m(k):
            return "*".join(ATOMS.list[a].name + (f"^{e}" if e != 1 else "") for a, e in k)
        return " + ".join(f"{float(v):.6g}" + ("*" + m(k) if k else "") for k, v in list(self.t.items())[:12]) or "0"


def _rv(v):
    return z3.RealVal(f"{v.numerator}/{v.denominator}") if v.denominator != 1 else z3.RealVal(v.numerator)


def _mono_z(k, v, as_int):
    fs = []
    for a, e in k:
        at = ATOMS.list[a]
        x = at.z if as_int or not at.isint else z3.ToReal(at.z)
        if e < 0:
            x = inv_atom(at).z
            e = -e
        fs.extend([x] * e)
    p = fs[0]
    for f in fs[1:]:
        p = p * f
    if v == 1:
        return p
    return (z3.IntVal(int(v)) if as_int else _rv(v)) * p


def inv_atom(at):
    key = ("inv", at.id)
    a = ATOMS.memo.get(key)
    if a is None:
        a = ATOMS.new("inv", kind="aux", data=at.id)
        ATOMS.memo[key] = a
        b = z3.ToReal(at.z) if at.isint else at.z
        a.constraints.append(z3.Implies(b != 0, a.z * b == 1))
        if at.lo is not None and at.lo > 0:
            a.hi = 1 / Fraction(at.lo)
            a.lo = 1 / Fraction(at.hi) if at.hi is not None else Fraction(0)
    if ENGINE is not None:
        ENGINE.use_atom(a)
    return a


def mono_mul(k1, k2):
    """Product of two monomials; second result tells whether an atom with a defined square reached power 2."""
    if not k1:
        return k2, False
    if not k2:
        return k1, False
    i = j = 0
    out = []
    red = False
    while i < len(k1) and j < len(k2):
        a, e = k1[i]
        b, f = k2[j]
        if a == b:
            if e + f:
                out.append((a, e + f))
                if e + f >= 2 and ATOMS.list[a].sq is not None:
                    red = True
            i += 1
            j += 1
        elif a < b:
            out.append((a, e))
            i += 1
        else:
            out.append((b, f))
            j += 1
    out.extend(k1[i:])
    out.extend(k2[j:])
    return tuple(out), red


def mono_bounds(k):
    lo = hi = Fraction(1)
    for a, e in k:
        at = ATOMS.list[a]
        l, h = at.lo, at.hi
        if e < 0:
            if l is not None and l > 0:
                l, h = (1 / Fraction(h) if h is not None else Fraction(0)), 1 / Fraction(l)
                e = -e
            elif h is not None and h < 0:
                l, h = 1 / Fraction(h), (1 / Fraction(l) if l is not None else Fraction(0))
                e = -e
            else:
                return None, None
        if l is None or h is None:
            if e % 2 == 0 or (l is not None and l >= 0):
                pl, ph = Fraction(0) if l is None or l < 0 else Fraction(l) ** e, None
                if e % 2 == 0 and h is not None and l is None and h <= 0:
                    pl = Fraction(h) ** e
            else:
                return None, None
        else:
            c = [Fraction(l) ** e, Fraction(h) ** e]
            pl, ph = min(c), max(c)
            if e % 2 == 0 and l < 0 < h:
                pl = Fraction(0)
        # multiply intervals
        cs = []
        if hi is None or ph is None or lo is None or pl is None:
            if lo is not None and lo >= 0 and pl is not None and pl >= 0:
                lo = lo * pl
                hi = None if hi is None or ph is None else hi * ph
                continue
            return None, None
        cs = [lo * pl, lo * ph, hi * pl, hi * ph]
        lo, hi = min(cs), max(cs)
    return lo, hi


# ---------------------------------------------------------------- conversions
def to_poly(x):
    """Poly of a number-like value, or None."""
    if isinstance(x, SymNum):
        return x.p
    if isinstance(x, SymBool):
        return SymNum.of(x).p
    if isinstance(x, (bool, int)):
        return Poly.const(int(x))
    if isinstance(x, Fraction):
        return Poly.const(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return None
        return Poly.const(Fraction(x))
    if isinstance(x, numbers.Integral):
        return Poly.const(int(x))
    if isinstance(x, numbers.Real):
        return to_poly(float(x))
    return None


def is_sym(x):
    return isinstance(x, (SymNum, SymBool, SymComplex))


def is_np(x):
    import numpy as np
    return isinstance(x, (np.ndarray,))


def simp(p, isint=False, npint=False):
    """Wrap a polynomial as a value; constants of integer kind come back as plain ints."""
    if p.is_const():
        c = p.constant()
        if isint and c.denominator == 1:
            return int(c)
        return fl(c)
    return SymInt(p, npint) if isint else SymReal(p)


def fl(c):
    try:
        return c.numerator / c.denominator
    except OverflowError:
        return math.inf if c > 0 else -math.inf


def subst_fixed(p):
    f = ATOMS.fixed
    if not any(a in f for k in p.t for a, e in k):
        return p
    out = {}
    for k, v in p.t.items():
        rest = []
        for a, e in k:
            x = f.get(a)
            if x is None or (e < 0 and x == 0):
                rest.append((a, e))
            else:
                v = v * x ** e
        if v:
            rest = tuple(rest)
            w = out.get(rest, 0) + v
            if w:
                out[rest] = w
            else:
                out.pop(rest, None)
    return Poly(out)


def mk(p, isint):
    if ATOMS.fixed:
        p = subst_fixed(p)
    if p.is_const():
        c = p.constant()
        return int(c) if isint and c.denominator == 1 else fl(c)
    return SymInt(p) if isint else SymReal(p)


class SymBool:
    __slots__ = ("b", "info")
    __array_ufunc__ = None

    def __init__(self, b, info=None):
        self.b = b
        self.info = info  # (polynomial, comparison with 0) of an atomic condition

    def __bool__(self):
        v = ENGINE.branch(self.b)
        if self.info is not None:
            tighten(self.info, v)
        return v

    def _o(self, o):
        if isinstance(o, SymBool):
            return o.b
        if isinstance(o, bool) or type(o).__name__ in ("bool_", "bool"):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        if is_np(o):
            return o & self
        b = self._o(o)
        return SymNum.of(self) & o if b is None else sb(z3.And(self.b, b))

    def __or__(self, o):
        if is_np(o):
            return o | self
        b = self._o(o)
        return SymNum.of(self) | o if b is None else sb(z3.Or(self.b, b))

    def __xor__(self, o):
        b = self._o(o)
        return sb(z3.Xor(self.b, b))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return sb(z3.Not(self.b))

    logical_not = __invert__

    def __eq__(self, o):
        b = self._o(o)
        if b is None:
            return SymNum.of(self) == o
        return sb(self.b == b)

    def __ne__(self, o):
        b = self._o(o)
        if b is None:
            return SymNum.of(self) != o
        return sb(self.b != b)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f"SymBool({self.b})"


def tighten(info, v):
    """Narrow the interval of an atom by a decided condition of the current path."""
    p, op = info
    ln = p.lin()
    if not ln:
        return
    at, c, d = ln
    x = Fraction(-d) / Fraction(c)  # c * a + d op 0
    if op == "!=":
        op, v = "==", not v
    if op == "==":
        if v:
            if at.isint:
                if x.denominator != 1:
                    return
                x = int(x)
            at.lo = at.hi = x
            ATOMS.fixed[at.id] = Fraction(x)
        elif at.isint and x.denominator == 1:
            x = int(x)
            if at.lo is not None and at.lo == x:
                at.lo = x + 1
            elif at.hi is not None and at.hi == x:
                at.hi = x - 1
        return
    # c*a + d < 0 (or <=): upper bound for c > 0, lower bound for c < 0; negated: the other side
    upper = (c > 0) == v
    strict = (op == "<") == v
    if at.isint:
        if upper:
            x = math.ceil(x) - 1 if strict else math.floor(x)
        else:
            x = math.floor(x) + 1 if strict else math.ceil(x)
    if upper:
        if at.hi is None or x < at.hi:
            at.hi = x
    elif at.lo is None or x > at.lo:
        at.lo = x


def _num(name):
    def f(self, *a):
        return getattr(SymNum.of(self), name)(*a)
    return f


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__lt__",
           "__le__", "__gt__", "__ge__", "__neg__", "__abs__", "__pow__", "__mod__", "__floordiv__"):
    setattr(SymBool, _n, _num(_n))


def sb(b):
    b = z3.simplify(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SymBool(b)


def cmp_poly(p, op):
    """Compare polynomial p with 0."""
    if p.is_const():
        c = p.constant()
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[op]
    if op == "<" and p.sos:
        return False
    lo, hi = p.bounds()
    if op == "<":
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == "<=":
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    elif (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return op == "!="
    for a in p.atoms():
        ENGINE.use_atom(ATOMS.list[a])
    z = p.z()
    zero = 0
    return SymBool({"<": z < zero, "<=": z <= zero, "==": z == zero, "!=": z != zero}[op], (p, op))


class SymNum:
    __slots__ = ("p", "npint")
    __array_ufunc__ = None
    isint = False

    def __init__(self, p, npint=False):
        self.p = p
        self.npint = npint

    @staticmethod
    def of(x):
        if isinstance(x, SymNum):
            return x
        if isinstance(x, SymBool):
            key = ("b2i", x.b.get_id())
            a = ATOMS.memo.get(key)
            if a is None:
                a = ATOMS.new("b2i", isint=True, lo=0, hi=1, kind="aux", z=z3.If(x.b, z3.IntVal(1), z3.IntVal(0)), data=x.b)
                ATOMS.memo[key] = a
            return SymInt(Poly.atom(a))
        raise TypeError(x)

    # arithmetic -------------------------------------------------------
    def _bin(self, o, f, keepint=True):
        if is_np(o):
            return NotImplemented
        if isinstance(o, (complex, SymComplex)) and not isinstance(o, (int, float)):
            return NotImplemented
        q = to_poly(o)
        if q is None:
            if isinstance(o, float):
                raise Unsupported("nan/inf mixed with a symbolic value")
            return NotImplemented
        oi = is_intlike(o)
        r = mk(f(self.p, q), self.isint and oi and keepint)
        if isinstance(r, SymInt) and (self.npint or is_npscalar(o) or isinstance(o, SymInt) and o.npint):
            r.npint = True
        return r

    def __add__(self, o):
        if isinstance(o, (complex, SymComplex)) and not isinstance(o, (int, float)):
            return SymComplex.of(self) + o
        return arr2(self, o, "+") if is_np(o) else self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if isinstance(o, complex):
            return SymComplex.of(self) + o
        return arr2(o, self, "+") if is_np(o) else self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        if isinstance(o, (complex, SymComplex)) and not isinstance(o, (int, float)):
            return SymComplex.of(self) - o
        return arr2(self, o, "-") if is_np(o) else self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, complex):
            return SymComplex.of(o) - self
        return arr2(o, self, "-") if is_np(o) else self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (complex, SymComplex)) and not isinstance(o, (int, float)):
            return SymComplex.of(self) * o
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return arr2(self, o, "*") if is_np(o) else self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, complex):
            return SymComplex.of(o) * self
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return arr2(o, self, "*") if is_np(o) else self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        if isinstance(o, (complex, SymComplex)) and not isinstance(o, (int, float)):
            return SymComplex.of(self) / o
        if is_np(o):
            return arr2(self, o, "/")
        q = to_poly(o)
        if q is None:
            return NotImplemented
        return divide(self.p, q, npdiv=is_npscalar(o))

    def __rtruediv__(self, o):
        if isinstance(o, complex):
            return SymComplex.of(o) / self
        if is_np(o):
            return arr2(o, self, "/")
        q = to_poly(o)
        if q is None:
            return NotImplemented
        return divide(q, self.p, npdiv=is_npscalar(o))

    def __floordiv__(self, o):
        if is_np(o):
            return arr2(self, o, "//")
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        if is_np(o):
            return arr2(self, o, "%")
        d = floordiv(self, o)
        return self - o * d

    def __rmod__(self, o):
        return o - self * floordiv(o, self)

    def __divmod__(self, o):
        d = floordiv(self, o)
        return d, self - o * d

    def __neg__(self):
        return npkeep(mk(-self.p, self.isint), self)

    def __pos__(self):
        return self

    def __abs__(self):
        return npkeep(ite(self < 0, -self, self, self.isint), self)

    def __pow__(self, o, mod=None):
        if is_np(o):
            return arr2(self, o, "**")
        return npkeep(sympow(self, o), self, o)

    def __rpow__(self, o):
        return npkeep(sympow(o, self), self, o)

    def __and__(self, o):
        raise Unsupported("bit operation on a symbolic number")

    # comparisons ------------------------------------------------------
    def _cmp(self, o, op, swap=False):
        if is_np(o):
            return arr2(self, o, {"<": "<", "<=": "<="}[op] if not swap else {"<": ">", "<=": ">="}[op])
        if type(o) is int:
            ln = self.p.lin()
            if ln and ln[1] == 1:
                at, _, d = ln
                if not swap:  # self < o
                    if at.hi is not None and at.hi + d < o:
                        return True
                    if at.lo is not None and at.lo + d > o:
                        return False
                else:
                    if at.lo is not None and at.lo + d > o:
                        return True
                    if at.hi is not None and at.hi + d < o:
                        return False
        q = to_poly(o)
        if q is None:
            if isinstance(o, numbers.Real):
                o = float(o)
                if o != o:
                    return False
                return (o > 0) != swap  # compared with an infinity
            return NotImplemented
        return cmp_poly(q - self.p if swap else self.p - q, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, "<", True)

    def __ge__(self, o):
        return self._cmp(o, "<=", True)

    def __eq__(self, o):
        if is_np(o):
            return arr2(self, o, "==")
        if isinstance(o, (complex, SymComplex)) and not isinstance(o, (int, float)):
            return SymComplex.of(self) == o
        if type(o) is int:
            ln = self.p.lin()
            if ln:
                at, k, d = ln
                if k == 1 and ((at.lo is not None and at.lo + d > o) or (at.hi is not None and at.hi + d < o)):
                    return False
        q = to_poly(o)
        return False if q is None else cmp_poly(self.p - q, "==")

    def __ne__(self, o):
        if is_np(o):
            return arr2(self, o, "!=")
        if isinstance(o, (complex, SymComplex)) and not isinstance(o, (int, float)):
            return ~(SymComplex.of(self) == o)
        q = to_poly(o)
        return True if q is None else cmp_poly(self.p - q, "!=")

    def __hash__(self):
        return hash(self.p.key())

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __round__(self, nd=None):
        return sym_round(self, nd)

    def __trunc__(self):
        return sym_trunc(self)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def __int__(self):
        v = sym_trunc(self)
        return v if isinstance(v, int) else ENGINE.concretise(v)

    def __float__(self):
        raise Unsupported("float() of a symbolic value outside the shims")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value outside the shims")

    def __format__(self, spec):
        if not spec:
            return "<sym>"
        return TEXTS.setdefault((self.p.key(), spec), (f"<sym{len(TEXTS)}>", self))[0]

    def __repr__(self):
        return f"{type(self).__name__}({self.p!r})"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy-like attributes --------------------------------------------
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    shape = property(lambda self: _scalar_attr(self, ()))
    ndim = property(lambda self: _scalar_attr(self, 0))

    def conjugate(self):
        return self

    def item(self):
        return self

    def is_integer(self):
        return sym_floor(self) == self

    def astype(self, dt):
        from . import npshim
        return npshim.cast_scalar(self, dt)


def _scalar_attr(self, v):
    raise AttributeError("python scalar")


TEXTS = {}      # (value, format) -> (text standing for the formatted value, value)


def parse_number(text):
    """float() of a text that holds a formatted symbolic value."""
    t = text.strip()
    for (_, spec), (name, x) in TEXTS.items():
        if name == t:
            break
    else:
        raise Unsupported("number read from the text of a symbolic value")
    if spec[:1] != "." or spec[-1:] not in "feg" or not spec[1:-1].isdigit():
        raise Unsupported(f"number read from a symbolic value formatted as {spec!r}")
    nd = int(spec[1:-1])
    if spec[-1] == "f":
        return SymReal(sym_round(x, nd).p) if isinstance(sym_round(x, nd), SymNum) else float(sym_round(x, nd))
    if spec[-1] == "g":
        nd = max(nd, 1) - 1
    if x == 0:
        return 0.0
    a = x if x > 0 else -x
    for e in sorted(range(-9, 9), key=lambda v: abs(v + 1)):   # the exponent: 10^e <= |x| < 10^(e+1)
        if a >= Fraction(10) ** e and a < Fraction(10) ** (e + 1):
            return SymReal(sym_round(x * Fraction(10) ** (nd - e), 0).p) * Fraction(10) ** (e - nd)
    raise Unsupported("formatted symbolic value outside 1e-9..1e9")


class SymReal(SymNum):
    __slots__ = ()


class SymInt(SymNum):
    __slots__ = ()
    isint = True

    def __index__(self):
        return ENGINE.concretise(self)

    def __hash__(self):
        return hash(ENGINE.concretise(self))

    def __and__(self, o):
        if isinstance(o, int) and o == 1:
            return self % 2
        return ENGINE.concretise(self) & int(o)

    __rand__ = __and__

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __or__(self, o):
        return ENGINE.concretise(self) | int(o)

    def __xor__(self, o):
        return ENGINE.concretise(self) ^ int(o)

    def bit_length(self):
        return ENGINE.concretise(self).bit_length()


numbers.Real.register(SymReal)
numbers.Integral.register(SymInt)


def is_intlike(o):
    return isinstance(o, (int, SymInt)) or (isinstance(o, numbers.Integral) and not isinstance(o, SymNum)) or isinstance(o, SymBool)


def is_npscalar(o):
    return type(o).__module__ == "numpy"


def arr2(a, b, op):
    from . import npshim
    return npshim.binop(a, b, op)


# ---------------------------------------------------------------- derived values
def aux(key, name, isint=False, lo=None, hi=None, z=None, data=None, kind="aux"):
    a = ATOMS.memo.get(key)
    fresh = a is None
    if fresh:
        a = ATOMS.new(name, isint=isint, lo=lo, hi=hi, kind=kind, z=z, data=data)
        ATOMS.memo[key] = a
    ENGINE.use_atom(a)
    return a, fresh


def divide(num, den, npdiv=False):
    if den.is_const():
        c = den.constant()
        if c == 0:
            if npdiv:
                raise Unsupported("numpy division by zero")
            raise ZeroDivisionError("float division by zero")
        return SymReal(num.scale(1 / c)) if not num.is_const() else fl(num.constant() / c)
    z0 = cmp_poly(den, "==")
    if z0 is not False and bool(z0 if isinstance(z0, bool) else z0):
        if npdiv:
            raise Unsupported("numpy division by zero")
        raise ZeroDivisionError("float division by zero")
    if len(den.t) == 1:
        (k, v), = den.t.items()
        if all(ATOMS.list[a].sq is None for a, _ in k):
            q = num * Poly({tuple((a, -e) for a, e in k): 1 / v})
            for kk in q.t:
                for a, e in kk:
                    if e < 0:
                        inv_atom(ATOMS.list[a])
            return mk(q, False)
        # 1/sqrt(x) = sqrt(x)/x
        s = [(a, e) for a, e in k if ATOMS.list[a].sq is not None]
        if len(k) == 1 and s[0][1] == 1 and ATOMS.list[s[0][0]].kind == "sqrt":
            d2 = ATOMS.list[s[0][0]].sq
            if not (num.t and d2.key() == num.key()):
                return divide((num * Poly.atom(ATOMS.list[s[0][0]])).scale(1 / v), d2)
            return mk(Poly.atom(ATOMS.list[s[0][0]]).scale(1 / v), False)
    # proportional numerator?
    if num.t and set(num.t) == set(den.t):
        k0 = next(iter(num.t))
        ratio = num.t[k0] / den.t[k0]
        if all(num.t[k] == ratio * den.t[k] for k in num.t):
            return fl(ratio)
    # normalise the denominator so equal quotients share one atom
    lead = max(den.t)
    c = den.t[lead]
    dn, nn = den.scale(1 / c), num.scale(1 / c)
    nl = max(nn.t) if nn.t else None
    if nl is None:
        return 0.0
    cn = nn.t[nl]
    n1 = nn.scale(1 / cn)
    a, fresh = aux(("quo", n1.key(), dn.key()), "quo", data=(n1, dn))
    if fresh:
        a.constraints.append(a.z * dn.zr() == n1.zr())
        (nlo, nhi), (dlo, dhi) = n1.bounds(), dn.bounds()
        if None not in (nlo, nhi, dlo, dhi) and (dlo > 0 or dhi < 0):
            cs = [nlo / dlo, nlo / dhi, nhi / dlo, nhi / dhi]
            a.lo, a.hi = min(cs), max(cs)
        ENGINE.use_atom(a, again=True)
    return SymReal(Poly.atom(a).scale(cn))


def npkeep(r, *xs):
    """numpy integers stay numpy integers through arithmetic."""
    if isinstance(r, SymInt) and any((isinstance(x, SymInt) and x.npint) or is_npscalar(x) for x in xs):
        return SymInt(r.p, True)
    return r


def floordiv(x, y):
    return npkeep(_floordiv(x, y), x, y)


def _floordiv(x, y):
    px, py = to_poly(x), to_poly(y)
    if px is None or py is None:
        raise Unsupported("floor division operands")
    ii = is_intlike(x) and is_intlike(y)
    if py.is_const():
        d = py.constant()
        if d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        q = px.scale(1 / d)
        r = sym_floor(mk(q, False))
        return r if ii else (float(r) if isinstance(r, int) else SymReal(r.p))
    if ii:
        y = ENGINE.concretise(y)
        return floordiv(x, y)
    q = divide(px, py)
    r = sym_floor(q)
    return float(r) if isinstance(r, int) else SymReal(r.p)


def sym_floor(x):
    """Integer floor."""
    if not isinstance(x, SymNum):
        return math.floor(x)
    p = x.p
    if p.isint():
        return mk(p, True)
    # split off the integer-valued part
    ipart = {k: v for k, v in p.t.items() if v.denominator == 1 and all(ATOMS.list[a].isint and e > 0 for a, e in k)}
    rest = Poly({k: v for k, v in p.t.items() if k not in ipart})
    ip = Poly(ipart)
    if rest.is_const():
        return mk(ip + Poly.const(math.floor(rest.constant())), True)
    lo, hi = rest.bounds()
    lo = None if lo is None else math.floor(lo)
    hi = None if hi is None else math.floor(hi)
    if lo is not None and lo == hi:
        return mk(ip + Poly.const(lo), True)
    den = 1
    for v in rest.t.values():
        den = den * v.denominator // math.gcd(den, v.denominator)
    scaled = rest.scale(den)
    if scaled.isint():
        z = scaled.z() / z3.IntVal(den)
        a, fresh = aux(("fld", rest.key()), "fld", isint=True, lo=lo, hi=hi, z=z, data=("floor", rest))
    else:
        a, fresh = aux(("flr", rest.key()), "flr", isint=True, lo=lo, hi=hi, data=("floor", rest))
        if fresh:
            zr = rest.zr()
            a.constraints += [z3.ToReal(a.z) <= zr, zr < z3.ToReal(a.z) + 1]
            ENGINE.use_atom(a, again=True)
    return mk(ip + Poly.atom(a), True)


def sym_trunc(x):
    if not isinstance(x, SymNum):
        return math.trunc(x)
    if x.p.isint():
        return mk(x.p, True)
    lo, hi = x.p.bounds()
    if lo is not None and lo >= 0:
        return sym_floor(x)
    if hi is not None and hi <= 0:
        return -sym_floor(-x)
    return sym_floor(x) if x >= 0 else -sym_floor(-x)


def sym_round(x, nd=None):
    """Round to nd decimals (ties: even neighbour when the value is exactly representable in the encoding)."""
    if not isinstance(x, SymNum):
        return round(x) if nd is None else round(x, nd)
    toint = nd is None
    nd = 0 if nd is None else int(nd)
    if x.isint and nd >= 0:
        return x
    sc = Fraction(10) ** nd
    p = x.p.scale(sc)
    if p.isint():
        return mk(p, True) if toint else mk(x.p, False)
    if nd >= 10:        # rounding to ten or more decimals is below every tolerance used: treated as the identity
        return x
    lo, hi = p.bounds()
    lo = None if lo is None else math.floor(lo)
    hi = None if hi is None else math.ceil(hi)
    a, fresh = aux(("rnd", p.key()), "rnd", isint=True, lo=lo, hi=hi, data=("round", p))
    if fresh:
        zr, h = p.zr(), z3.RealVal("1/2")
        k = z3.ToReal(a.z)
        a.constraints += [k - h <= zr, zr <= k + h,
                          z3.Implies(z3.Or(zr == k + h, zr == k - h), a.z % 2 == 0)]
        ENGINE.use_atom(a, again=True)
    q = Poly.atom(a)
    return mk(q, True) if toint else mk(q.scale(1 / sc), False)


def ite(c, a, b, isint=None):
    """If-then-else value."""
    if isinstance(c, bool) or not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (SymComplex, complex)) or isinstance(b, (SymComplex, complex)):
        a, b = SymComplex.of(a), SymComplex.of(b)
        return SymComplex(pval(ite(c, mk(a.re, False), mk(b.re, False))), pval(ite(c, mk(a.im, False), mk(b.im, False))))
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        za = a.b if isinstance(a, SymBool) else z3.BoolVal(a)
        zb = b.b if isinstance(b, SymBool) else z3.BoolVal(b)
        return sb(z3.If(c.b, za, zb))
    pa, pb = to_poly(a), to_poly(b)
    if pa is None or pb is None:
        return a if bool(c) else b
    if pa.key() == pb.key():
        return a
    ii = is_intlike(a) and is_intlike(b)
    if isint is not None:
        ii = isint
    sort_int = pa.isint() and pb.isint()
    za, zb = (pa.z(), pb.z()) if sort_int else (pa.zr(), pb.zr())
    z = z3.If(c.b, za, zb)
    (l1, h1), (l2, h2) = pa.bounds(), pb.bounds()
    lo = None if l1 is None or l2 is None else min(l1, l2)
    hi = None if h1 is None or h2 is None else max(h1, h2)
    at, _ = aux(("ite", c.b.get_id(), pa.key(), pb.key()), "ite", isint=sort_int, lo=lo, hi=hi, z=z, data=(c.b, pa, pb), kind="ite")
    return mk(Poly.atom(at), ii)


def sym_max(xs, sign=1):
    """max (sign=1) or min (sign=-1) of a list of values."""
    xs = list(xs)
    conc = [x for x in xs if not is_sym(x)]
    syms = [SymNum.of(x) for x in xs if is_sym(x)]
    best = (max(conc) if sign > 0 else min(conc)) if conc else None
    if not syms:
        return best
    seen, uniq = set(), []
    for s in syms:
        k = s.p.key()
        if k in seen:
            continue
        seen.add(k)
        lo, hi = s.p.bounds()
        if best is not None:
            bf = to_poly(best).constant()
            if sign > 0 and hi is not None and hi <= bf or sign < 0 and lo is not None and lo >= bf:
                continue
        uniq.append(s)
    if not uniq:
        return best
    if len(uniq) == 1 and best is None:
        return uniq[0]
    ii = all(is_intlike(x) for x in xs)
    polys = [u.p for u in uniq] + ([to_poly(best)] if best is not None else [])
    key = ("max", sign, frozenset(q.key() for q in polys))
    bl = [q.bounds() for q in polys]
    if sign > 0:
        los = [b[0] for b in bl if b[0] is not None]
        lo, hi = (max(los) if los else None), (None if any(b[1] is None for b in bl) else max(b[1] for b in bl))
    else:
        his = [b[1] for b in bl if b[1] is not None]
        hi, lo = (min(his) if his else None), (None if any(b[0] is None for b in bl) else min(b[0] for b in bl))
    sort_int = all(q.isint() for q in polys)
    a, fresh = aux(key, "max" if sign > 0 else "min", isint=sort_int, lo=lo, hi=hi, data=(sign, polys), kind="max")
    if fresh:
        az = a.z
        zs = [q.z() if sort_int else q.zr() for q in polys]
        a.constraints += [(az >= q if sign > 0 else az <= q) for q in zs] + [z3.Or([az == q for q in zs])]
        ENGINE.use_atom(a, again=True)
    return mk(Poly.atom(a), ii)


def sympow(x, y):
    if isinstance(y, SymNum):
        if y.isint:
            y = ENGINE.concretise(y)
        else:
            raise Unsupported("symbolic real exponent")
    if isinstance(x, SymComplex):
        if float(y) == int(y) and y >= 0:
            r = SymComplex.of(1.0)
            for _ in range(int(y)):
                r = r * x
            return r
        raise Unsupported("complex power")
    if not isinstance(x, SymNum):
        return x ** y
    yf = Fraction(float(y)) if not isinstance(y, int) else Fraction(y)
    if yf.denominator == 1:
        n = int(yf)
        keepint = x.isint and is_intlike(y) and n >= 0
        if n < 0:
            return divide(Poly.const(1), x.p.pow(-n))
        return mk(x.p.pow(n), keepint) if n else (1 if keepint else 1.0)
    if yf.denominator == 2:
        s = fn_sqrt(x)
        n = int(yf * 2)
        return sympow(s, n)
    raise Unsupported(f"power {y}")


def fn_sqrt(x):
    if not is_sym(x):
        return math.sqrt(x)
    x = SymNum.of(x)
    p = x.p
    neg = cmp_poly(p, "<")
    if neg is not False:
        if neg is True or bool(neg):
            raise ValueError("math domain error")
    # perfect square of a monomial with non-negative atoms
    if len(p.t) == 1:
        (k, v), = p.t.items()
        if all(e % 2 == 0 for _, e in k):
            rn, rd = math.isqrt(v.numerator), math.isqrt(v.denominator)
            r = mk(Poly({tuple((a, e // 2) for a, e in k): Fraction(rn, rd) if rn * rn == v.numerator and rd * rd == v.denominator
                         else Fraction(math.sqrt(v))}), False)
            return abs(r)
    # pull out the rational content so that sqrt(4x) = 2 sqrt(x)
    lead = p.t[max(p.t)]
    c = abs(lead)
    q = p.scale(1 / c)
    key = ("sqrt", q.key())
    lo, hi = q.bounds()
    a, fresh = aux(key, "sqrt", lo=Fraction(0) if lo is None or lo < 0 else Fraction(math.sqrt(lo)) * Fraction(999999, 1000000),
                   hi=None if hi is None else Fraction(math.sqrt(max(hi, 0))) * Fraction(1000001, 1000000), kind="sqrt", data=q)
    if fresh:
        a.sq = q
        a.constraints += [a.z >= 0, a.z * a.z == q.zr()]
        ENGINE.use_atom(a, again=True)
    rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
    rc = Fraction(rn, rd) if rn * rn == c.numerator and rd * rd == c.denominator else Fraction(math.sqrt(c))
    return SymReal(Poly.atom(a).scale(rc))


ATOL = Fraction(1, 10 ** 9)
TINY = Fraction(1, 10 ** 14)


def fn_atom(fn, p, lo=None, hi=None, tol=ATOL):
    """Atom for fn(p), re-using an existing atom whose argument agrees within tol in every coefficient."""
    key = (fn, frozenset(p.t))
    b = ATOMS.fnbuckets.setdefault(key, [])
    for q, a in b:
        if all(abs(q.t[k] - v) <= tol * max(1, abs(v)) for k, v in p.t.items()):
            ENGINE.use_atom(a)
            return a
    a = ATOMS.new(fn, lo=lo, hi=hi, kind="fn", data=(fn, p))
    b.append((p, a))
    ENGINE.use_atom(a)
    return a


def cossin(x):
    """(cos x, sin x) of a symbolic real: constant phase expanded, sign normalised, sin^2 = 1 - cos^2."""
    x = SymNum.of(x)
    c0 = x.p.constant()
    p = Poly({k: v for k, v in x.p.t.items() if k != ()})
    top = max(abs(v) for v in p.t.values())
    if top > TINY and any(abs(v) <= TINY for v in p.t.values()):     # rounding residues such as cos(pi/2) = 6e-17
        p = Poly({k: v for k, v in p.t.items() if abs(v) > TINY})
    sgn = 1
    if p.t[min(p.t)] < 0:
        p, sgn = -p, -1
    one = Fraction(1)
    ca = fn_atom("cos", p, -one, one)
    sa = fn_atom("sin", p, -one, one)
    if sa.sq is None:
        sa.sq = Poly.const(1) - Poly.atom(ca) * Poly.atom(ca)
        sa.constraints.append(sa.z * sa.z + ca.z * ca.z == 1)
        ENGINE.use_atom(sa, again=True)
    C, S = Poly.atom(ca), Poly.atom(sa).scale(sgn)
    if c0:
        cc, ss = Fraction(math.cos(fl(c0))), Fraction(math.sin(fl(c0)))
        if abs(cc) < Fraction(1, 10 ** 14):
            cc = Fraction(0)
        if abs(ss) < Fraction(1, 10 ** 14):
            ss = Fraction(0)
        C, S = C.scale(cc) - S.scale(ss), S.scale(cc) + C.scale(ss)
    return mk(C, False), mk(S, False)


def fn_cos(x):
    return cossin(x)[0] if is_sym(x) else math.cos(x)


def fn_sin(x):
    return cossin(x)[1] if is_sym(x) else math.sin(x)


def fn_uf(name, args, lo=None, hi=None):
    """Uninterpreted real function of symbolic/concrete arguments."""
    ps = [to_poly(a) for a in args]
    b = ATOMS.fnbuckets.setdefault((name, tuple(frozenset(p.t) for p in ps)), [])
    for qs, a in b:
        if all(abs(q.t[k] - v) <= ATOL * max(1, abs(v)) for p, q in zip(ps, qs) for k, v in p.t.items()):
            ENGINE.use_atom(a)
            return SymReal(Poly.atom(a))
    a = ATOMS.new(name, lo=lo, hi=hi, kind="uf", data=(name, ps))
    b.append((ps, a))
    ENGINE.use_atom(a)
    return SymReal(Poly.atom(a))


# ---------------------------------------------------------------- complex
def pval(x):
    p = to_poly(x)
    if p is None:
        raise Unsupported(f"not a number: {x!r}")
    return p


class SymComplex:
    __slots__ = ("re", "im")
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, numbers.Complex) and not isinstance(x, numbers.Real):
            return SymComplex(pval(float(x.real)), pval(float(x.imag)))
        return SymComplex(pval(x), Poly({}))

    def _c(self, o):
        if is_np(o):
            return None
        try:
            return SymComplex.of(o)
        except Unsupported:
            return None

    def __add__(self, o):
        if is_np(o):
            return arr2(self, o, "+")
        o = self._c(o)
        return SymComplex(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        if is_np(o):
            return arr2(self, o, "-")
        o = self._c(o)
        return SymComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        if is_np(o):
            return arr2(o, self, "-")
        o = self._c(o)
        return SymComplex(o.re - self.re, o.im - self.im)

    def __mul__(self, o):
        if is_np(o):
            return arr2(self, o, "*")
        o = self._c(o)
        return SymComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if is_np(o):
            return arr2(self, o, "/")
        o = self._c(o)
        if not o.im.t:
            d = mk(o.re, False)
            return SymComplex(pval(mk(self.re, False) / d), pval(mk(self.im, False) / d))
        n = self * SymComplex(o.re, -o.im)
        d = o.re * o.re + o.im * o.im
        return SymComplex(pval(mk(n.re, False) / mk(d, False)), pval(mk(n.im, False) / mk(d, False)))

    def __rtruediv__(self, o):
        return SymComplex.of(o) / self

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        return fn_sqrt(mk(self.re * self.re + self.im * self.im, False)) if (self.re.t or self.im.t) else 0.0

    def __pow__(self, n):
        return sympow(self, n)

    @property
    def real(self):
        return mk(self.re, False)

    @property
    def imag(self):
        return mk(self.im, False)

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    def __eq__(self, o):
        o = self._c(o)
        if o is None:
            return False
        a, b = cmp_poly(self.re - o.re, "=="), cmp_poly(self.im - o.im, "==")
        if a is True:
            return b
        if b is True:
            return a
        if a is False or b is False:
            return False
        return a & b

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash((self.re.key(), self.im.key()))

    def __bool__(self):
        r = self == 0
        return not bool(r)

    def __repr__(self):
        return f"SymComplex({self.re!r}, {self.im!r})"

    def __format__(self, s):
        return "<symc>"

    def __deepcopy__(self, memo):
        return self


numbers.Complex.register(SymComplex)


def _exp_bound(v, side):
    """A bound of exp(v) with room for rounding."""
    v = float(v)
    if v > 500:
        return None if side > 0 else Fraction(0)
    return Fraction(math.exp(v)) * (1 + Fraction(side, 10 ** 13))


def fn_exp(x):
    if isinstance(x, SymComplex):
        if x.re.t:
            if not x.re.is_const():
                raise Unsupported("exp of a complex with symbolic real part")
            m = math.exp(fl(x.re.constant()))
        else:
            m = 1.0
        if not x.im.t:
            return SymComplex(pval(m), Poly({}))
        c, s = cossin(mk(x.im, False)) if not x.im.is_const() else (math.cos(fl(x.im.constant())), math.sin(fl(x.im.constant())))
        return SymComplex(pval(c * m), pval(s * m))
    if is_sym(x):
        p = SymNum.of(x).p
        lo, hi = p.bounds()
        a = fn_atom("exp", p, _exp_bound(lo, -1) if lo is not None else Fraction(0), _exp_bound(hi, 1) if hi is not None else None)
        return SymReal(Poly.atom(a))
    import cmath
    return cmath.exp(x) if isinstance(x, complex) else math.exp(x)


# ---------------------------------------------------------------- engine
class Violation:
    def __init__(self, msg, models, extra=None):
        self.msg, self.models, self.extra = msg, models, extra or {}


class Stats:
    FIELDS = ("paths", "decisions", "queries", "checks", "sat", "unsat", "unknown", "solver_s", "discharged_trivially",
              "concretisations", "assumptions")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    """Depth-first exploration of the feasible paths of one harness."""

    def __init__(self, timeout_ms=20000, max_paths=20000, deadline=None):
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.unknowns = []
        self.violations = []
        self.inputs = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.notes = []

    # -- path state
    def begin(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []
        self.pc = []
        self.used = set()
        self.inputs = {}
        self.events = []
        self.conditions = 0
        self.conds = []         # branch conditions and assumptions: (expression, atoms with their definitions)
        self.defs = {}          # atom id -> its bounds and defining constraints
        self.reach = {}         # atom id -> atoms its definition needs
        self.msolver = self.solver
        self.free_model = None
        self.quick_ms = 0
        self.solver.reset()
        self.solver.set("timeout", self.timeout_ms)

    def use_atom(self, a, again=False):
        if a.id in self.used and not again:
            return
        self.used.add(a.id)
        if a.kind in ("input", "fn", "aux", "uf", "sqrt", "max") and z3.is_const(a.z):
            z = a.z
            if a.lo is not None:
                self._define(a, z >= (z3.IntVal(int(math.ceil(a.lo))) if a.isint else _rv(Fraction(a.lo))))
            if a.hi is not None:
                self._define(a, z <= (z3.IntVal(int(math.floor(a.hi))) if a.isint else _rv(Fraction(a.hi))))
        for c in a.constraints:
            self._define(a, c)
        # atoms inside the definition
        d = a.data
        for q in _polys_in(d):
            for b in q.atoms():
                if b not in self.used:
                    self.use_atom(ATOMS.list[b])

    def _define(self, a, c):
        self.pc.append(c)
        self.solver.add(c)
        self.defs.setdefault(a.id, []).append(c)
        self.reach.pop(a.id, None)

    def _add(self, c):
        self.pc.append(c)
        self.solver.add(c)
        self.conds.append(c)

    def _closure(self, ids):
        """Atoms reachable through definitions."""
        out, todo = set(), list(ids)
        while todo:
            i = todo.pop()
            if i in out:
                continue
            out.add(i)
            n = self.reach.get(i)
            if n is None:
                n = set()
                for c in self.defs.get(i, ()):
                    n |= consts(c)
                self.reach[i] = n
            todo.extend(n - out)
        return out

    def _slice(self, extras, component=False):
        """The part of the path condition that can matter: all conditions (component: those connected to the extras) with the
        definitions they need. The left-out definitions are those of total functions nothing refers to, hence satisfiable."""
        need = set()
        for e in extras:
            need |= consts(e)
        need = self._closure(need)
        items = [(c, self._closure(consts(c))) for c in self.conds]
        out = []
        if component:
            changed = True
            while changed:
                changed = False
                rest = []
                for c, ids in items:
                    if ids & need or not ids:
                        need |= ids
                        out.append(c)
                        changed = True
                    else:
                        rest.append((c, ids))
                items = rest
        else:
            for c, ids in items:
                need |= ids
                out.append(c)
        for i in need:
            out.extend(self.defs.get(i, ()))
        return out

    def assume(self, c):
        self.stats.assumptions += 1
        self.conditions += 1
        if isinstance(c, SymBool):
            if c.info is not None:
                tighten(c.info, True)
            c = c.b
        elif isinstance(c, z3.BoolRef):
            pass
        else:
            if not c:
                raise Infeasible()
            return
        self._add(c)
        if self._check() == z3.unsat:
            raise Infeasible()

    def _check(self, *assumptions, component=False, whole=False):
        self._tick()
        t = time.time()
        self.stats.queries += 1
        try:
            if len(self.pc) <= 40:
                self.msolver = self.solver
                r = self.solver.check(*assumptions)
            else:
                limit = self.quick_ms or self.timeout_ms
                part = self._slice(assumptions, component)
                order = ("all", "slice") if whole else ("slice", "all")
                for kind, ms in ((order[0], min(limit, 1200)), (order[1], min(limit, 4000)), ("slice", limit)):
                    if kind == "all":
                        s = self.solver
                        s.set("timeout", ms)
                        self.msolver = s
                        r = s.check(*assumptions)
                        s.set("timeout", limit)
                    else:
                        s = z3.Solver()
                        s.set("timeout", ms)
                        s.add(*part)
                        s.add(*assumptions)
                        self.msolver = s
                        r = s.check()
                    if r != z3.unknown or ms >= limit:
                        break
        except z3.Z3Exception as e:
            raise Unsupported(f"solver: {e}")
        self.stats.solver_s += time.time() - t
        if SLOW and time.time() - t > SLOW:
            import traceback
            print("SLOW", round(time.time() - t, 1), r, "assertions", len(self.pc), "conds", len(self.conds), [f.name for f in traceback.extract_stack()[-5:-1]],
                  str(assumptions)[:300], flush=True)
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def _tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the harness exhausted")

    def branch(self, cond):
        self.conditions += 1
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append(v)
            self._add(cond if v else z3.Not(cond))
            return v
        self.stats.decisions += 1
        self._tick()
        rt = self._check(cond, component=True)
        rf = self._check(z3.Not(cond), component=True) if rt != z3.unsat else z3.sat
        if rt != z3.unsat and rf != z3.unsat:
            self.pending.append(self.taken + [False])
            v = True
        else:
            v = rt != z3.unsat
        self.taken.append(v)
        self._add(cond if v else z3.Not(cond))
        return v

    def concretise(self, x, limit=4000):
        """Fork over all values the solver admits for an integer-valued symbolic."""
        if not isinstance(x, SymNum):
            return int(x)
        if x.p.is_const():
            return int(x.p.constant())
        self.stats.concretisations += 1
        self.conditions += 1
        for a in x.p.atoms():
            self.use_atom(ATOMS.list[a])
        z = x.p.z()
        for _ in range(limit):
            i = len(self.taken)
            if i < len(self.prefix):
                v = self.prefix[i]
                self.taken.append(v)
                if isinstance(v, tuple):
                    if v[0] == "eq":
                        self._add(z == v[1])
                        tighten((x.p - Poly.const(v[1]), "=="), True)
                        return v[1]
                    self._add(z != v[1])
                    tighten((x.p - Poly.const(v[1]), "=="), False)
                    continue
                raise Unsupported("decision mismatch on replay of a path prefix")
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise Unsupported("solver unknown while enumerating an integer")
            m = self.msolver.model()
            mv = m.eval(z, model_completion=True)
            v = mv.as_long() if z3.is_int_value(mv) else None
            if v is None:
                fr = mv.as_fraction()
                if fr.denominator != 1:
                    raise Unsupported("non-integer value for an integer")
                v = int(fr)
            if self._check(z != v, component=True) != z3.unsat:
                self.pending.append(self.taken + [("ne", v)])
            self.taken.append(("eq", v))
            self._add(z == v)
            tighten((x.p - Poly.const(v), "=="), True)
            return v
        raise Unsupported("too many values for one integer")

    # -- assertions
    def check(self, cond, msg):
        """Assert cond on the current path; record a violation (with a model) when it can fail."""
        self.stats.checks += 1
        if not isinstance(cond, SymBool):
            if cond:
                self.stats.discharged_trivially += 1
                return True
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            self._violated(msg, [self._model(r)])
        r, m = self._refute(z3.Not(cond.b))
        if r == z3.unsat:
            return True
        if r == z3.sat:
            self._violated(msg, [m])
        r, m = self._retry(z3.Not(cond.b))
        if r == z3.unsat:
            return True
        if r == z3.sat:
            self._violated(msg, [m])
        self.unknowns.append(msg)
        return False

    def _refute(self, neg):
        """Search a model of the path condition and neg: first only with what is connected to neg."""
        r = self._check(neg, component=True, whole=True)
        if r != z3.sat or len(self.pc) <= 40:
            return r, (self._model(r) if r == z3.sat else None)
        m = self._model(r)
        r2 = self._check(neg)
        if r2 == z3.unsat:
            return r2, None
        return z3.sat, (self._model(r2) if r2 == z3.sat else m)

    def _retry(self, neg):
        """Second opinion with a fresh solver (nlsat based tactic)."""
        pc = self._slice([neg], True)
        s = z3.Tactic("qfnra-nlsat").solver() if not any_int(pc + [neg]) else z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*pc)
        s.add(neg)
        t = time.time()
        self.stats.queries += 1
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.solver_s += time.time() - t
        return r, (self._extract(s.model()) if r == z3.sat else None)

    def _close_cleared(self, d, tol):
        """|d| <= tol with the quotients cleared: d * D^e as a polynomial without the quotients of the denominator D."""
        scale, done = Fraction(1), False
        for _ in range(4):
            dens = {}
            for a in d.atoms():
                at = ATOMS.list[a]
                if at.kind == "aux" and at.name.startswith("quo"):
                    dens.setdefault(at.data[1].key(), (at.data[1], set()))[1].add(a)
            if not dens:
                break
            den, qs = next(iter(dens.values()))
            lo, hi = den.bounds()
            if lo is None or hi is None or lo <= 0 <= hi:
                m = Fraction(0)
            else:
                m = min(abs(lo), abs(hi))
            deg = [sum(e for a, e in k if a in qs) for k in d.t]
            if min(deg) < 0 or any(e < 0 for k in d.t for a, e in k if a in qs):
                return False
            top = max(deg)
            if len(d.t) * len(den.t) ** min(top, 3) > 200000:
                return False
            powers = [Poly.const(1)]
            for _ in range(top):
                powers.append(powers[-1] * den)
            groups = {}     # (quotients of the monomial) -> the rest
            for k, v in d.t.items():
                q = tuple(x for x in k if x[0] in qs)
                groups.setdefault(q, {})[tuple(x for x in k if x[0] not in qs)] = v
            r = Poly({})
            for q, rest in groups.items():
                t = Poly(rest)
                for a, e in q:
                    for _ in range(e):
                        t = t * ATOMS.list[a].data[0]
                r = r + t * powers[top - sum(e for a, e in q)]
            d, scale, done = r, scale * m ** top, True
        if not done:
            return False
        if not d.t:
            self.stats.discharged_trivially += 1
            return True
        if scale <= 0:
            return False
        s, terms = z3.Solver(), []
        s.set("timeout", self.timeout_ms)
        for i, (k, v) in enumerate(d.t.items()):
            lo, hi = mono_bounds(k) if k else (Fraction(1), Fraction(1))
            if lo is None or hi is None:
                return False
            y = z3.Real(f"mono_{i}")
            s.add(y >= _rv(lo), y <= _rv(hi))
            terms.append(_rv(v) * y)
        e = z3.Sum(terms)
        s.add(z3.Or(e > _rv(tol * scale), e < _rv(-tol * scale)))
        t = time.time()
        self.stats.queries += 1
        r = s.check()
        self.stats.solver_s += time.time() - t
        if r == z3.unsat:
            self.stats.unsat += 1
            return True
        return False

    def close(self, a, b, tol, msg):
        """Assert |a - b| <= tol (real or complex, symbolic or concrete)."""
        if isinstance(a, (SymComplex, complex)) or isinstance(b, (SymComplex, complex)):
            a, b = SymComplex.of(a), SymComplex.of(b)
            self.close(mk(a.re, False), mk(b.re, False), tol, msg + " (real part)")
            self.close(mk(a.im, False), mk(b.im, False), tol, msg + " (imaginary part)")
            return True
        pa, pb = to_poly(a), to_poly(b)
        if pa is None or pb is None:
            return self.check(False, msg + f" (got {a!r}, expected {b!r})")
        d = pa - pb
        tol = Fraction(tol)
        if d.is_const():
            if abs(d.constant()) <= tol and not pa.is_const() and len(pa.t) + len(pb.t) <= 80:
                self.stats.checks += 1
                s = z3.Solver()
                e = pa.zr() - pb.zr()
                s.add(z3.Or(e > _rv(tol), e < _rv(-tol)))
                t = time.time()
                self.stats.queries += 1
                r = s.check()
                self.stats.solver_s += time.time() - t
                if r == z3.unsat:
                    self.stats.unsat += 1
                else:
                    self.stats.unknown += 1
                    self.stats.discharged_trivially += 1
                return True
            return self.check(abs(d.constant()) <= tol, msg)
        self.stats.checks += 1
        # linear relaxation: every monomial becomes a variable inside its interval
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        terms, ok = [], True
        for i, (k, v) in enumerate(d.t.items()):
            if not k:
                terms.append(_rv(v))
                continue
            lo, hi = mono_bounds(k)
            y = z3.Real(f"mono_{i}")
            if lo is None or hi is None:
                ok = False
                break
            s.add(y >= _rv(lo), y <= _rv(hi))
            terms.append(_rv(v) * y)
        if ok:
            e = z3.Sum(terms)
            s.add(z3.Or(e > _rv(tol), e < _rv(-tol)))
            t = time.time()
            self.stats.queries += 1
            r = s.check()
            self.stats.solver_s += time.time() - t
            if r == z3.unsat:
                self.stats.unsat += 1
                return True
        if self._close_cleared(d, tol):
            return True
        for a_ in d.atoms():
            self.use_atom(ATOMS.list[a_])
        e = d.zr()
        models = []
        for big in (tol * 1000, tol):
            neg = z3.Or(e > _rv(big), e < _rv(-big))
            r, m = self._refute(neg)
            if r == z3.unknown:
                r, m = self._retry(neg)
            if r == z3.sat:
                models.append(m)
                break
            if r == z3.unknown and big == tol:
                self.unknowns.append(msg)
                return False
        if not models:
            return True
        self._violated(msg, models)

    def reachable(self, quick=False):
        """Is the end of this path reachable? Tried: no conditions at all, generic inputs evaluated numerically, the solver."""
        if not self.conditions:     # nothing but definitions of total functions was added
            self.free_model = {n: None for n in self.inputs}
            return z3.sat
        for k in range(6):
            w = self._witness(k)
            if w is not None:
                self.free_model = w
                return z3.sat
        if quick:
            self.quick_ms = min(1000, self.timeout_ms)
        self.solver.set("timeout", self.quick_ms or self.timeout_ms)
        r = self._check()
        self.quick_ms = 0
        self.solver.set("timeout", self.timeout_ms)
        return r

    def _witness(self, k):
        """Evaluates all atoms for the k-th set of generic inputs; the inputs when every path condition holds."""
        vals, sub = {}, []
        n = 0
        try:
            for at in ATOMS.list:
                if at.kind == "input":
                    lo, hi = at.lo, at.hi
                    if lo is None or hi is None:
                        lo, hi = (-hi, hi) if hi is not None else ((lo, lo + 2) if lo is not None else (-2, 2))
                    v = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(1 + (7 * n + 5 * k) % 16, 18)
                    n += 1
                    if at.isint:
                        v = Fraction(round(v))
                else:
                    v = _evaluate(at, vals)
                    if v is None:
                        if at.kind == "uf":
                            v = Fraction(at.lo or 0) if at.hi is None else (Fraction(at.lo or 0) + Fraction(at.hi)) / 2
                        else:
                            return None
                vals[at.id] = v
                if z3.is_const(at.z) and at.z.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    sub.append((at.z, z3.IntVal(int(v)) if at.isint else _rv(v.limit_denominator(10 ** 12))))
        except (ArithmeticError, ValueError, KeyError):
            return None
        for c in self.conds:
            if not z3.is_true(z3.simplify(z3.substitute(c, *sub))):
                return None
        return {nm: vals[at.id] for nm, (at, _) in self.inputs.items()}

    def _model(self, r):
        if r != z3.sat:
            return None
        if self.free_model is not None:
            return self.free_model
        return self._extract(self.msolver.model())

    def _extract(self, m):
        out = {}
        for name, (atom, _) in self.inputs.items():
            v = m.eval(atom.z, model_completion=True)
            out[name] = zval(v)
        fns = {}
        for a in list(self.used):
            at = ATOMS.list[a]
            if at.kind == "fn" and z3.is_const(at.z):
                v = zval(m.eval(at.z, model_completion=True))
                fns.setdefault((at.data[0]), []).append((at.data[1], v))
        out["__fns__"] = fns
        out["__pinned__"] = {n for n, (at, _) in self.inputs.items() if m[at.z] is not None} if True else set()
        return out

    def _violated(self, msg, models):
        models = [m for m in models if m is not None] or [self._fallback_model()]
        if len(self.violations) < 2:
            models += self.typical()
        self.violations.append(Violation(msg, models,
                                         {"decisions": list(self.taken)}))
        raise StopPath()

    def typical(self, number=2, seconds=3.0):
        """Further inputs that follow the current path, as far from special values as it allows: the functions the solver knows
        only by their properties make a model of the failed assertion rarely one of the real code."""
        out, end = [], time.time() + seconds
        if len(self.inputs) > 60:
            return out
        try:
            self.solver.set("timeout", 300)
            for k in range(number):
                fixed = []
                for j, (name, (at, info)) in enumerate(self.inputs.items()):
                    lo, hi = at.lo, at.hi
                    if lo is None or hi is None:
                        lo, hi = (-hi, hi) if hi is not None else ((lo, lo + 2) if lo is not None else (-2, 2))
                    lo, hi = Fraction(lo), Fraction(hi)
                    v = lo + (hi - lo) * Fraction(3 + (37 * j + 53 * k + 29) % 89, 95)
                    zero = min(max(Fraction(0), lo), hi)
                    for s in (1, Fraction(1, 4), Fraction(1, 20), Fraction(1, 100), Fraction(1, 1000), Fraction(1, 10 ** 5), Fraction(1, 10 ** 7), 0):
                        if time.time() > end:
                            break
                        x = zero + (v - zero) * s
                        e = at.z == (z3.IntVal(round(x)) if at.isint else _rv(x))
                        if self.solver.check(*fixed, e) == z3.sat:
                            fixed.append(e)
                            break
                if time.time() > end + 1:
                    break
                if self.solver.check(*fixed) == z3.sat:
                    m = self._extract(self.solver.model())
                    m["__fns__"] = {}
                    out.append(m)
        except z3.Z3Exception:
            pass
        finally:
            self.solver.set("timeout", self.quick_ms or self.timeout_ms)
        return out

    def _fallback_model(self):
        r = self._check()
        return self._model(r) if r == z3.sat else {n: None for n in self.inputs}

    # -- driver
    def explore(self, fn):
        """Run fn() once per feasible path. Returns the number of completed paths."""
        global ENGINE
        ENGINE = self
        stack = [[]]
        completed = 0
        while stack:
            prefix = stack.pop()
            if self.stats.paths >= self.max_paths:
                raise Unsupported(f"more than {self.max_paths} paths")
            self.stats.paths += 1
            self.begin(prefix)
            try:
                fn()
                completed += 1
            except Infeasible:
                pass
            except StopPath:
                completed += 1
                if len(self.violations) >= 4:
                    break
            stack.extend(reversed(self.pending))
        return completed


def _pnum(p, vals):
    t = Fraction(0)
    for k, v in p.t.items():
        m = v
        for a, e in k:
            m = m * (vals[a] ** e)
        t += m
    return t


def _evaluate(at, vals):
    """Value of a defined atom, None when it has no defining function."""
    d = at.data
    if at.kind == "sqrt":
        return Fraction(math.sqrt(_pnum(d, vals)))
    if at.kind == "fn":
        return Fraction(getattr(math, d[0])(float(_pnum(d[1], vals))))
    if at.kind == "max":
        xs = [_pnum(q, vals) for q in d[1]]
        return max(xs) if d[0] > 0 else min(xs)
    if at.kind == "aux" and isinstance(d, tuple):
        if d[0] == "round":
            return Fraction(round(_pnum(d[1], vals)))
        if d[0] == "floor":
            return Fraction(math.floor(_pnum(d[1], vals)))
        if len(d) == 2 and isinstance(d[0], Poly) and at.name.startswith("quo"):
            return _pnum(d[0], vals) / _pnum(d[1], vals)
    if at.name.startswith("inv") and at.data is not None:
        return 1 / vals[at.data]
    return None


SLOW = float(os.environ.get("SYMZ_SLOW", "0"))
_CONSTS = {}


def consts(e):
    """Ids of the atoms in a z3 expression."""
    k = e.get_id()
    r = _CONSTS.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out, seen, todo = set(), set(), [e]
    byname = ATOMS.byname
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        n = x.num_args()
        if n == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                a = byname.get(x.decl().name())
                if a is not None:
                    out.add(a)
        else:
            todo.extend(x.arg(j) for j in range(n))
    _CONSTS[k] = (e, out)
    return out


def any_int(cs):
    seen = set()

    def rec(e):
        if e.get_id() in seen:
            return False
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == z3.IntSort():
            return True
        return any(rec(c) for c in e.children())
    return any(rec(c) for c in cs)


def _polys_in(d):
    if isinstance(d, Poly):
        yield d
    elif isinstance(d, (tuple, list)):
        for x in d:
            yield from _polys_in(x)


def zval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(20).as_fraction()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None
