"""Stand-ins for builtins, math, cmath, numpy and scipy.sparse that accept symbolic
values.  Anything not listed falls through to the real library."""
import builtins
import cmath as _cmath
import math as _math
import re as _re
import types
from fractions import Fraction

import numpy as _np

from . import sym
from .poly import Poly, ZERO
from .sym import (SymReal, SymBool, SymComplex, SymbolicUnsupported, to_rf, is_sym,
                  s_sqrt, s_abs, s_floor, s_ceil, s_trunc, s_round, s_cos, s_sin, s_atan2,
                  s_exp, s_log, s_cexp, ctx, zbool)

TOKENS = {}
LAZY_MAX = False    # amax/argmax as unknowns instead of a case split

_isinstance = builtins.isinstance
_float, _int, _complex, _bool, _str = float, int, complex, bool, str


def flit(s):
    """exact value of a float literal"""
    return SymReal(Poly.const(Fraction(s)))


def fconst(x):
    return to_rf(x)


def div(a, b):
    """true division with exact rationals for plain integers"""
    if type(a) in (int, bool) and type(b) in (int, bool):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return SymReal(Poly.const(Fraction(int(a), int(b))))
    if type(a) is float and type(b) in (int, float) and b != 0 and _math.isfinite(a) and _math.isfinite(b):
        return to_rf(a) / to_rf(b)
    if type(b) is float and type(a) is int and b != 0 and _math.isfinite(b):
        return to_rf(a) / to_rf(b)
    return a / b


def idiv(a, b):
    if _isinstance(a, _np.ndarray):
        a /= b
        return a
    return div(a, b)


def intpow(a, b):
    if type(a) is int and type(b) is int and b < 0:
        return to_rf(a) ** b
    if type(a) is float and type(b) is int and _math.isfinite(a):
        return to_rf(a) ** b
    return a ** b


# ------------------------------------------------------------------ builtins

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, _float) or (_isinstance(x, SymReal) and not x.is_int)

    def __subclasscheck__(cls, c):
        return issubclass(c, _float) or c is SymReal

    def __call__(cls, *a, **k):
        if cls is not SFloat:
            return type.__call__(cls, *a, **k)
        if not a:
            return SymReal(ZERO)
        x = a[0]
        if _isinstance(x, SymReal):
            return SymReal(x.n, x.d)
        if _isinstance(x, SymComplex):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        if _isinstance(x, _str):
            return parse_number(x)
        if _isinstance(x, SymBool):
            return SymReal(Poly.const(int(_bool(x))))
        f = _float(x)
        r = to_rf(f) if type(x) is not int else to_rf(x)
        return f if r is None else r

    def __eq__(cls, o):
        return o is _float or o is cls or o is SymReal

    def __hash__(cls):
        return hash(_float)


def parse_number(s):
    t = s.strip()
    if t in TOKENS:
        return TOKENS[t]
    if t[:1] in "+-" and t[1:].strip() in TOKENS:
        v = TOKENS[t[1:].strip()]
        return -v if t[0] == "-" else v
    m = TOKENS and _re.fullmatch(r"([+-]?)(.*\d)[eE]([+-]?\d+)", t)
    if m and m.group(2) in TOKENS:
        v = TOKENS[m.group(2)] * Fraction(10) ** _int(m.group(3))
        return -v if m.group(1) == "-" else v
    f = _float(t)
    if f != f or f in (_math.inf, -_math.inf):
        return f
    try:
        return SymReal(Poly.const(Fraction(t.replace("_", ""))))
    except ValueError:
        return to_rf(f)


class SFloat(_float, metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, _int) or (_isinstance(x, SymReal) and x.is_int)

    def __subclasscheck__(cls, c):
        return issubclass(c, _int)

    def __call__(cls, *a, **k):
        if cls is not SInt:
            return type.__call__(cls, *a, **k)
        if not a:
            return 0
        x = a[0]
        if _isinstance(x, SymReal):
            if x.is_const():
                return _int(x.const())
            return s_trunc(x)
        if _isinstance(x, _str):
            t = x.strip()
            if t in TOKENS:
                v = TOKENS[t]
                if _isinstance(v, SymReal) and v.is_int:
                    return v
                raise ValueError(f"invalid literal for int() with base 10: {x!r}")
            if t[:1] == "-" and t[1:] in TOKENS:
                v = TOKENS[t[1:]]
                if _isinstance(v, SymReal) and v.is_int:
                    return -v
                raise ValueError(f"invalid literal for int() with base 10: {x!r}")
            return _int(*a, **k)
        if _isinstance(x, SymBool):
            return _int(_bool(x))
        return _int(*a, **k)

    def __eq__(cls, o):
        return o is _int or o is cls

    def __hash__(cls):
        return hash(_int)


class SInt(_int, metaclass=_IntMeta):
    pass


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (_complex, SymComplex))

    def __subclasscheck__(cls, c):
        return issubclass(c, _complex) or c is SymComplex

    def __call__(cls, *a, **k):
        if cls is not SComplex:
            return type.__call__(cls, *a, **k)
        if len(a) == 1 and _isinstance(a[0], _str):
            return parse_complex(a[0])
        re_ = a[0] if a else k.get("real", 0)
        im_ = a[1] if len(a) > 1 else k.get("imag", 0)
        if _isinstance(re_, SymComplex) or _isinstance(re_, _complex):
            z = SymComplex.of(re_)
            return z + SymComplex(0, 1) * im_ if not _isz(im_) else z
        r, i = to_rf(re_), to_rf(im_)
        if r is None or i is None:
            return _complex(re_, im_)
        return SymComplex(r, i)

    def __eq__(cls, o):
        return o is _complex or o is cls

    def __hash__(cls):
        return hash(_complex)


def _isz(x):
    return type(x) is int and x == 0


def parse_complex(s):
    t = s.strip()
    if not TOKENS:
        return SymComplex.of(_complex(t))
    if t.startswith("(") and t.endswith(")"):
        t = t[1:-1]
    import re
    num = r"[+-]?(?:\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)"
    m = re.fullmatch(rf"({num})(?:({num[0:5]}{num[5:]})[jJ])?", t)
    m2 = re.fullmatch(rf"({num})[jJ]", t)
    if m2:
        return SymComplex(0, parse_number(m2.group(1)))
    if m:
        return SymComplex(parse_number(m.group(1)), parse_number(m.group(2)) if m.group(2) else 0)
    try:
        return SymComplex.of(_complex(t))
    except ValueError as e:
        raise ValueError(f"{e}: {s!r}")


class SComplex(_complex, metaclass=_ComplexMeta):
    pass


def s_isinstance(x, t):
    if _isinstance(t, tuple):
        return any(s_isinstance(x, y) for y in t)
    if t is s_type:
        t = type
    if t is _float:
        t = SFloat
    elif t is _complex:
        t = SComplex
    elif t is _int:
        t = SInt
    elif t is _bool:
        return _isinstance(x, (_bool, SymBool))
    elif t is SymArray:
        return _isinstance(x, _np.ndarray)
    elif t is _np.floating and _isinstance(x, SymReal):
        return not x.is_int
    elif t is _np.number and is_sym(x):
        return True
    return _isinstance(x, t)


def s_round_builtin(x, nd=None):
    if _isinstance(x, SymReal):
        return s_round(x, nd)
    return round(x) if nd is None else round(x, nd)


def s_pow(a, b, m=None):
    return pow(a, b) if m is None else pow(a, b, m)


def s_type(*a):
    if len(a) == 1:
        x = a[0]
        if _isinstance(x, SymReal):
            return SInt if x.is_int else SFloat
        if _isinstance(x, SymComplex):
            return SComplex
        if _isinstance(x, SymBool):
            return _bool
        if _isinstance(x, _np.ndarray):
            return SymArray
        return type(x)
    return type(*a)


def s_abs_builtin(x):
    return abs(x)


def s_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (_bool, SymBool))

    def __call__(cls, *a):
        return _bool(*a)

    def __eq__(cls, o):
        return o is _bool or o is cls

    def __hash__(cls):
        return hash(_bool)


# ------------------------------------------------------------------- math

def _any_sym(*xs):
    for x in xs:
        if is_sym(x) or _isinstance(x, SymBool):
            return True
    return False


def _m1(name, f):
    real = getattr(_math, name)

    def g(x, *a):
        if is_sym(x):
            return f(x, *a)
        if type(x) in (int, float) and not a and name in ("sqrt", "cos", "sin", "exp", "log", "atan", "tan", "radians", "degrees", "acos", "asin"):
            r = to_rf(x)
            if r is not None:
                return f(r)
        return real(x, *a)
    g.__name__ = name
    return g


def s_tan(x):
    c, s = sym.s_cossin(x)
    return s / c


def s_acos(x):
    x = to_rf(x)
    if x.is_const():
        return to_rf(_math.acos(float(x.const())))
    if bool(x > 1) or bool(x < -1):
        raise ValueError("math domain error")
    return s_atan2(s_sqrt(1 - x * x), x)


def s_asin(x):
    x = to_rf(x)
    if x.is_const():
        return to_rf(_math.asin(float(x.const())))
    if bool(x > 1) or bool(x < -1):
        raise ValueError("math domain error")
    return s_atan2(x, s_sqrt(1 - x * x))


def s_atan(x):
    return s_atan2(x, 1)


def s_radians(x):
    return to_rf(x) * _math.pi / 180


def s_degrees(x):
    return to_rf(x) * 180 / _math.pi


def s_hypot(*xs):
    if _any_sym(*xs):
        t = 0
        for x in xs:
            t = t + x * x
        return s_sqrt(t)
    return _math.hypot(*xs)


def s_isnan(x):
    if is_sym(x):
        return False
    return _math.isnan(x)


def s_isfinite(x):
    return True if is_sym(x) else _math.isfinite(x)


def s_isinf(x):
    return False if is_sym(x) else _math.isinf(x)


def s_mpow(a, b):
    if _any_sym(a, b):
        return to_rf(a) ** b
    if type(a) in (int, float) and type(b) in (int, float):
        return to_rf(a) ** to_rf(b)
    return _math.pow(a, b)


def s_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if _any_sym(a, b, rel_tol, abs_tol):
        d = abs(a - b)
        m = abs(a)
        n = abs(b)
        if m < n:
            m = n
        return (d <= rel_tol * m) | (d <= abs_tol) if not _isinstance(d <= rel_tol * m, _bool) else ((d <= rel_tol * m) or (d <= abs_tol))
    return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def s_copysign(a, b):
    if _any_sym(a, b):
        m = abs(a)
        return m if b >= 0 else -m
    return _math.copysign(a, b)


def s_fsum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


math = types.ModuleType("math")
for _n in dir(_math):
    setattr(math, _n, getattr(_math, _n))
for _n, _f in dict(sqrt=s_sqrt, cos=s_cos, sin=s_sin, tan=s_tan, acos=s_acos, asin=s_asin, atan=s_atan, exp=s_exp,
                   log=s_log, fabs=s_abs, floor=s_floor, ceil=s_ceil, trunc=s_trunc, radians=s_radians,
                   degrees=s_degrees).items():
    setattr(math, _n, _m1(_n, _f))
math.atan2 = lambda y, x: s_atan2(y, x) if (to_rf(y) is not None and to_rf(x) is not None) else _math.atan2(y, x)
math.hypot = s_hypot
math.isnan = s_isnan
math.isfinite = s_isfinite
math.isinf = s_isinf
math.pow = s_mpow
math.isclose = s_isclose
math.copysign = s_copysign
math.fsum = s_fsum
math.log10 = lambda x: s_log(x) / _math.log(10) if is_sym(x) else _math.log10(x)
math.log2 = lambda x: s_log(x) / _math.log(2) if is_sym(x) else _math.log2(x)
math.log1p = lambda x: s_log(1 + x) if is_sym(x) else _math.log1p(x)
math.pi = to_rf(_math.pi)
math.e = to_rf(_math.e)
math.tau = to_rf(_math.pi) * 2
math.prod = lambda xs, start=1: _prod(xs, start)


def _prod(xs, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


cmath = types.ModuleType("cmath")
for _n in dir(_cmath):
    setattr(cmath, _n, getattr(_cmath, _n))


def c_phase(z):
    z = SymComplex.of(z)
    return s_atan2(z.im, z.re)


def c_rect(r, phi):
    return SymComplex(r * s_cos(phi), r * s_sin(phi))


def c_sqrt(z):
    if _isinstance(z, SymReal) or type(z) in (int, float):
        z = to_rf(z)
        if z >= 0:
            return SymComplex(s_sqrt(z), 0)
        return SymComplex(0, s_sqrt(-z))
    raise SymbolicUnsupported("cmath.sqrt of a complex value")


cmath.phase = c_phase
cmath.rect = c_rect
cmath.polar = lambda z: (abs(SymComplex.of(z)), c_phase(z))
cmath.exp = lambda z: s_cexp(z)
cmath.sqrt = c_sqrt
cmath.isnan = lambda z: False if is_sym(z) else _cmath.isnan(z)
cmath.isinf = lambda z: False if is_sym(z) else _cmath.isinf(z)
cmath.isfinite = lambda z: True if is_sym(z) else _cmath.isfinite(z)
cmath.pi = math.pi
cmath.e = math.e
cmath.tau = math.tau
cmath.cos = lambda z: s_cos(z)
cmath.sin = lambda z: s_sin(z)


# ------------------------------------------------------------------- numpy

_FLOATY = (_np.floating, _np.complexfloating)


def _lift(x):
    """floats in an object array become exact; ints stay"""
    if _isinstance(x, (_float, _np.floating)) and _np.isfinite(x):
        return to_rf(_float(x))
    if _isinstance(x, (_complex, _np.complexfloating)):
        return SymComplex.of(_complex(x)) if _np.isfinite(x) else x
    if _isinstance(x, _np.integer):
        return _int(x)
    return x


class SymArray(_np.ndarray):
    """object-dtype array whose .real/.imag/.astype follow the elements"""
    __slots__ = ()

    def __array_finalize__(self, o):
        pass

    @property
    def real(self):
        return _map(lambda e: e.real, self)

    @real.setter
    def real(self, v):
        raise SymbolicUnsupported("assignment to .real")

    @property
    def imag(self):
        return _map(lambda e: e.imag, self)

    @imag.setter
    def imag(self, v):
        raise SymbolicUnsupported("assignment to .imag")

    def conj(self):
        return _map(lambda e: e.conjugate(), self)

    conjugate = conj

    def astype(self, dtype, *a, **k):
        return cast(self, dtype)

    def copy(self, order="C"):
        return _np.ndarray.copy(self).view(SymArray)

    def __setitem__(self, k, v):
        if self.dtype == object:
            if _isinstance(v, _np.ndarray) and v.dtype != object:
                v = arr(v)
            elif v is None:
                v = _math.nan
            elif type(v) is _int:
                v = to_rf(v)
            elif not _isinstance(v, _np.ndarray):
                v = _lift(v)
        _np.ndarray.__setitem__(self, k, v)

    def tolist(self):
        return _np.ndarray.tolist(self)

    def mean(self, *a, **k):
        return npx.mean(self, *a, **k)

    def std(self, *a, **k):
        raise SymbolicUnsupported("std")

    def round(self, decimals=0, out=None):
        return _map(lambda e: s_round(e, decimals) if is_sym(e) else round(e, decimals), self)

    def max(self, axis=None, out=None, **k):
        return npx.amax(self, axis=axis)

    def min(self, axis=None, out=None, **k):
        return npx.amin(self, axis=axis)

    def argmax(self, axis=None, out=None):
        return npx.argmax(self, axis)

    def argmin(self, axis=None, out=None):
        return npx.argmin(self, axis)

    def any(self, axis=None, out=None, **k):
        return npx.any(self, axis=axis)

    def all(self, axis=None, out=None, **k):
        return npx.all(self, axis=axis)

    def nonzero(self):
        return npx.nonzero(self)

    def clip(self, a_min=None, a_max=None, out=None):
        return npx.clip(self, a_min, a_max)

    def dot(self, o):
        return npx.dot(self, o)

    def _inplace(self, r):
        _np.ndarray.__setitem__(self, (Ellipsis,), _np.asarray(r))
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __repr__(self):
        return "SymArray(" + repr(_np.ndarray.tolist(self)) + ")"

    __str__ = __repr__


def arr(x):
    """object SymArray of x"""
    a = _np.array(x, dtype=object) if not _isinstance(x, _np.ndarray) else x
    if a.dtype != object:
        b = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(a.shape):
            b[i] = _lift(a[i])
        a = b
    else:
        a = a.copy()
        for i in _np.ndindex(a.shape):
            a[i] = _lift(a[i])
    return a.view(SymArray)


def _map(f, a):
    out = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(a.shape):
        out[i] = f(a[i])
    return out.view(SymArray)


def has_sym(x):
    if is_sym(x) or _isinstance(x, SymBool):
        return True
    if _isinstance(x, _np.ndarray):
        return x.dtype == object
    if _isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def _kind(dtype):
    if dtype is None:
        return None
    if dtype in (SFloat, _float) or dtype is SFloat:
        return "f"
    if dtype in (SComplex, _complex):
        return "c"
    if dtype in (SInt, _int):
        return "i"
    if dtype is _bool:
        return "b"
    if dtype is object:
        return "O"
    try:
        k = _np.dtype(dtype).kind
    except TypeError:
        return "O"
    return k


def cast(a, dtype):
    k = _kind(dtype)
    if k in (None, "O"):
        return arr(a)
    if k == "f":
        def f(e):
            if _isinstance(e, SymComplex):
                return e.re
            if e is None:
                return _math.nan
            if _isinstance(e, _str):
                return parse_number(e)
            if _isinstance(e, SymBool):
                return to_rf(_int(_bool(e)))
            r = to_rf(e)
            return e if r is None else r
        return _map(f, arr(a))
    if k == "c":
        return _map(lambda e: SymComplex.of(e) if SymComplex.of(e) is not None else e, arr(a))
    if k in "iu":
        def f(e):
            if _isinstance(e, SymReal):
                return s_trunc(e)
            return _int(e)
        r = _map(f, arr(a))
        if all(_isinstance(e, _int) for e in r.flat):
            return _np.array(r.tolist(), dtype=_int)
        return r
    if k == "b":
        return _np.array([_bool(e) for e in arr(a).flat], dtype=_bool).reshape(arr(a).shape)
    return _np.array(a, dtype=dtype)


def _mk(x, dtype=None):
    k = _kind(dtype)
    if k in ("b", "U", "S", "M", "m"):
        if k == "b":
            return cast(x, _bool)
        return _np.array(x, dtype=dtype)
    if k in ("i", "u"):
        return cast(x, _int)
    if k in ("f", "c"):
        return cast(x, dtype)
    if k == "O":
        return arr(x)
    # inferred
    if _isinstance(x, SymArray):
        return x.copy()
    a = x if _isinstance(x, _np.ndarray) else _np.array(x, dtype=object)
    if _isinstance(x, _np.ndarray) and a.dtype.kind in "biuUSMm":
        return _np.array(a)
    flat = list(a.flat)
    if flat and all(_isinstance(e, (_int, _np.integer)) and not _isinstance(e, _bool) for e in flat):
        return _np.array(x) if not has_sym(x) else arr(a)
    if flat and all(_isinstance(e, (_bool, _np.bool_)) for e in flat):
        return _np.array(x)
    if flat and all(_isinstance(e, _str) for e in flat):
        return _np.array(x)
    if not flat:
        return arr(_np.empty(a.shape, dtype=object))
    return arr(a)


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, _np.ndarray)

    def __call__(cls, *a, **k):
        return _np.ndarray(*a, **k)


def _lazy_max(it):
    """(maximum, first position of the maximum) as fresh unknowns with their defining axioms"""
    c = ctx()
    k = ("lazymax",) + tuple(to_rf(e).key() for e in it)
    r = c.memo.get(k)
    if r is None:
        from .engine import rf_eval, z3
        from .poly import Poly
        rf = [to_rf(e) for e in it]
        m = c.new_atom(f"max_{len(c.atoms)}", "max", lambda v: max(rf_eval(x, v) for x in rf))

        def first(v):
            xs = [rf_eval(x, v) for x in rf]
            return xs.index(max(xs))
        j = c.new_atom(f"argmax_{len(c.atoms)}", "argmax", first, None, True)
        M, J = SymReal(Poly.atom(m.id)), SymReal(Poly.atom(j.id), None, True)

        def z(b):
            return zbool(b)
        c.axiom(m, *[z(M >= x) for x in rf], z3.Or(*[z(M == x) for x in rf]))
        c.axiom(j, j.z >= 0, j.z <= len(it) - 1,
                *[z3.Implies(j.z == i, z3.And(z(M == x), *[z(M > y) for y in rf[:i]])) for i, x in enumerate(rf)])
        r = c.memo[k] = (M, J)
    return r


class npx:
    """replacement functions, looked up by the numpy shim"""

    @staticmethod
    def array(x, dtype=None, **k):
        if dtype is not None and _isinstance(dtype, _str) and dtype.lower() in ("object",):
            return arr(x)
        return _mk(x, dtype)

    @staticmethod
    def asarray(x, dtype=None, **k):
        if dtype is None and _isinstance(x, _np.ndarray):
            return x
        return _mk(x, dtype)

    asanyarray = asarray
    ascontiguousarray = asarray

    @staticmethod
    def zeros(shape, dtype=None, **k):
        kd = _kind(dtype)
        if kd in ("i", "u", "b"):
            return _np.zeros(shape, dtype=_bool if kd == "b" else _int)
        shape = _shape(shape)
        a = _np.empty(shape, dtype=object)
        a[...] = SymComplex(0, 0) if kd == "c" else SymReal(ZERO)
        return a.view(SymArray)

    @staticmethod
    def ones(shape, dtype=None, **k):
        kd = _kind(dtype)
        if kd in ("i", "u", "b"):
            return _np.ones(shape, dtype=_bool if kd == "b" else _int)
        a = _np.empty(_shape(shape), dtype=object)
        a[...] = SymComplex(1, 0) if kd == "c" else SymReal(Poly.const(1))
        return a.view(SymArray)

    empty = zeros

    @staticmethod
    def full(shape, v, dtype=None, **k):
        a = _np.empty(_shape(shape), dtype=object)
        a[...] = _lift(v)
        return cast(a, dtype) if dtype is not None else a.view(SymArray)

    @staticmethod
    def zeros_like(a, dtype=None, **k):
        a = npx.asarray(a)
        return npx.zeros(a.shape, dtype if dtype is not None else (a.dtype if a.dtype != object else None))

    @staticmethod
    def ones_like(a, dtype=None, **k):
        a = npx.asarray(a)
        return npx.ones(a.shape, dtype if dtype is not None else (a.dtype if a.dtype != object else None))

    @staticmethod
    def full_like(a, v, dtype=None, **k):
        return npx.full(npx.asarray(a).shape, v, dtype)

    empty_like = zeros_like

    @staticmethod
    def identity(n, dtype=None):
        a = npx.zeros((n, n), dtype)
        for i in range(n):
            a[i, i] = 1
        return a

    @staticmethod
    def eye(n, m=None, k=0, dtype=None):
        m = n if m is None else m
        a = npx.zeros((n, m), dtype)
        for i in range(n):
            if 0 <= i + k < m:
                a[i, i + k] = 1
        return a

    @staticmethod
    def copy(a, *x, **k):
        if _isinstance(a, SymArray):
            return a.copy()
        return _mk(a)

    @staticmethod
    def real(a):
        if is_sym(a):
            return a.real
        if _isinstance(a, _np.ndarray) and a.dtype == object:
            return _map(lambda e: e.real, a)
        if _isinstance(a, (list, tuple)):
            return _map(lambda e: e.real, arr(a))
        if _isinstance(a, (_int, _float, _complex)):
            return a.real
        return _np.real(a)

    @staticmethod
    def imag(a):
        if is_sym(a):
            return a.imag
        if _isinstance(a, _np.ndarray) and a.dtype == object:
            return _map(lambda e: e.imag, a)
        if _isinstance(a, (list, tuple)):
            return _map(lambda e: e.imag, arr(a))
        if _isinstance(a, (_int, _float, _complex)):
            return a.imag
        return _np.imag(a)

    @staticmethod
    def isnan(a):
        return _emap(s_isnan_any, a)

    @staticmethod
    def isfinite(a):
        return _emap(lambda e: True if is_sym(e) else _np.isfinite(e), a)

    @staticmethod
    def isinf(a):
        return _emap(lambda e: False if is_sym(e) else _np.isinf(e), a)

    @staticmethod
    def dot(a, b):
        if not has_sym(a) and not has_sym(b) and not _has_expr(a) and not _has_expr(b):
            return _np.dot(a, b)
        a, b = npx._oa(a), npx._oa(b)
        if a.ndim == b.ndim == 2 and sym.ctx().inverses:
            n = sym.ctx().inverse_product(a.tolist(), b.tolist())
            if n is not None:
                return npx.eye(n)
        r = _np.dot(a, b)
        return r.view(SymArray) if _isinstance(r, _np.ndarray) else r

    @staticmethod
    def _oa(a):
        if _isinstance(a, _np.ndarray) and a.dtype == object:
            return _np.asarray(a)
        return _np.asarray(arr(a))

    @staticmethod
    def matmul(a, b):
        r = _np.matmul(npx._oa(a), npx._oa(b))
        return r.view(SymArray) if _isinstance(r, _np.ndarray) else r

    @staticmethod
    def any(a, axis=None, **k):
        if not has_sym(a):
            return _np.any(a, axis=axis, **k)
        a = arr(a)
        if axis is None:
            for e in a.flat:
                if e:
                    return True
            return False
        return _reduce(a, axis, npx.any)

    @staticmethod
    def all(a, axis=None, **k):
        if not has_sym(a):
            return _np.all(a, axis=axis, **k)
        a = arr(a)
        if axis is None:
            for e in a.flat:
                if not e:
                    return False
            return True
        return _np.array(_reduce(a, axis, npx.all), dtype=_bool)

    @staticmethod
    def count_nonzero(a, axis=None, **k):
        if not has_sym(a):
            return _np.count_nonzero(a, axis=axis, **k)
        a = arr(a)
        if axis is None:
            return sum(1 for e in a.flat if e != 0)
        return _reduce(a, axis, npx.count_nonzero)

    @staticmethod
    def nonzero(a):
        if not has_sym(a):
            return _np.nonzero(a)
        a = arr(a)
        m = _np.array([_bool(e != 0) for e in a.flat], dtype=_bool).reshape(a.shape)
        return _np.nonzero(m)

    @staticmethod
    def where(c, *ab):
        c = c if _isinstance(c, _np.ndarray) else _np.asarray(c, dtype=object)
        if c.dtype == object:
            c = _np.array([_bool(e) for e in c.flat], dtype=_bool).reshape(c.shape)
        if not ab:
            return _np.where(c)
        a, b = arr(ab[0]), arr(ab[1])
        return _np.where(c, _np.asarray(a), _np.asarray(b)).view(SymArray)

    @staticmethod
    def amax(a, axis=None, **k):
        if not has_sym(a):
            return _np.amax(a, axis=axis, **k)
        a = arr(a)
        if axis is None:
            it = list(a.flat)
            if LAZY_MAX:
                return _lazy_max(it)[0]
            m = it[0]
            for e in it[1:]:
                if e > m:
                    m = e
            return m
        return _reduce(a, axis, npx.amax)

    @staticmethod
    def amin(a, axis=None, **k):
        if not has_sym(a):
            return _np.amin(a, axis=axis, **k)
        a = arr(a)
        if axis is None:
            it = list(a.flat)
            m = it[0]
            for e in it[1:]:
                if e < m:
                    m = e
            return m
        return _reduce(a, axis, npx.amin)

    @staticmethod
    def argmax(a, axis=None, **k):
        if not has_sym(a):
            return _np.argmax(a, axis=axis)
        a = arr(a)
        if axis is not None and a.ndim > 1:
            return _np.array(_reduce(a, axis, npx.argmax).tolist(), dtype=_int)
        it = list(a.flat)
        if LAZY_MAX:
            return _lazy_max(it)[1]
        j = 0
        for i, e in enumerate(it):
            if e > it[j]:
                j = i
        return j

    @staticmethod
    def argmin(a, axis=None, **k):
        if not has_sym(a):
            return _np.argmin(a, axis=axis)
        it = list(arr(a).flat)
        j = 0
        for i, e in enumerate(it):
            if e < it[j]:
                j = i
        return j

    @staticmethod
    def nanmax(a, **k):
        return npx.amax(a, **k)

    @staticmethod
    def clip(a, lo=None, hi=None, *x, **k):
        if not has_sym(a) and not has_sym(lo) and not has_sym(hi):
            return _np.clip(a, lo, hi)
        lo = k.get("min", lo) if lo is None else lo
        hi = k.get("max", hi) if hi is None else hi

        def one(e, l, h):
            if l is not None and e < l:
                e = l
            if h is not None and e > h:
                e = h
            return e
        if not _isinstance(a, (_np.ndarray, list, tuple)):
            return one(a, lo, hi)
        a = arr(a)
        L = _np.broadcast_to(arr(lo) if lo is not None else _np.array(None, dtype=object), a.shape)
        H = _np.broadcast_to(arr(hi) if hi is not None else _np.array(None, dtype=object), a.shape)
        out = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(a.shape):
            out[i] = one(a[i], L[i], H[i])
        return out.view(SymArray)

    @staticmethod
    def maximum(a, b, *x):
        return _bin(lambda p, q: p if p >= q else q, a, b)

    @staticmethod
    def minimum(a, b, *x):
        return _bin(lambda p, q: p if p <= q else q, a, b)

    fmax, fmin = maximum, minimum

    @staticmethod
    def sign(a):
        def f(e):
            if not is_sym(e):
                return _int(_np.sign(e))
            return 1 if e > 0 else (-1 if e < 0 else 0)
        return _emap(f, a, obj=True)

    @staticmethod
    def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        def f(x, y):
            x = SymComplex.of(x) if sym.is_complexlike(x) or sym.is_complexlike(y) else x
            d = abs(x - y)
            return _bool(d <= to_rf(atol) + to_rf(rtol) * abs(y))
        r = _bin(f, a, b)
        return _np.array(r.tolist(), dtype=_bool) if _isinstance(r, _np.ndarray) else r

    @staticmethod
    def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not has_sym(a) and not has_sym(b):
            return _np.allclose(a, b, rtol=rtol, atol=atol)
        A, B = _np.broadcast_arrays(arr(a), arr(b))
        for x, y in zip(A.flat, B.flat):
            z = SymComplex.of(x) - SymComplex.of(y)
            if z.re.n.is_zero() and z.im.n.is_zero():
                continue
            if not npx.isclose(x, y, rtol, atol):
                return False
        return True

    @staticmethod
    def array_equal(a, b, **k):
        A, B = npx.asarray(a), npx.asarray(b)
        if A.shape != B.shape:
            return False
        return all(_bool(x == y) for x, y in zip(A.flat, B.flat))

    @staticmethod
    def angle(z, deg=False):
        def f(e):
            r = c_phase(e)
            return s_degrees(r) if deg else r
        return _emap(f, z, obj=True)

    @staticmethod
    def conj(z):
        return _emap(lambda e: e.conjugate(), z, obj=True)

    conjugate = conj

    @staticmethod
    def mean(a, axis=None, **k):
        a = arr(a)
        n = a.size if axis is None else a.shape[axis]
        return _np.sum(_np.asarray(a), axis=axis) / to_rf(n)

    average = mean

    @staticmethod
    def sum(a, axis=None, **k):
        if not has_sym(a) and not _isinstance(a, types.GeneratorType):
            return _np.sum(a, axis=axis)
        if axis is None:
            r = 0
            for e in (a.flat if _isinstance(a, _np.ndarray) else arr(list(a)).flat):
                r = r + e
            return r
        return _np.sum(_np.asarray(arr(a)), axis=axis).view(SymArray)

    @staticmethod
    def prod(a, axis=None, **k):
        if axis is not None:
            raise SymbolicUnsupported("prod axis")
        return _prod(arr(a).flat)

    @staticmethod
    def array_split(*a, **k):
        return _np.array_split(*a, **k)

    @staticmethod
    def vdot(a, b):
        return npx.dot(npx.conj(a), b)

    @staticmethod
    def diag(v, k=0):
        return _np.diag(npx._oa(v), k).view(SymArray) if has_sym(v) else _np.diag(v, k)

    @staticmethod
    def round(a, decimals=0, **k):
        return _emap(lambda e: s_round(e, decimals) if is_sym(e) else round(e, decimals), a, obj=True)

    around = round

    @staticmethod
    def isreal(a):
        return _emap(lambda e: _bool(SymComplex.of(e).im == 0), a)

    @staticmethod
    def iscomplex(a):
        return _emap(lambda e: _bool(SymComplex.of(e).im != 0), a)

    @staticmethod
    def iscomplexobj(a):
        if _isinstance(a, _np.ndarray) and a.dtype == object:
            return any(_isinstance(e, (SymComplex, _complex)) for e in a.flat)
        return _isinstance(a, SymComplex) or _np.iscomplexobj(a)

    @staticmethod
    def isscalar(a):
        return is_sym(a) or _np.isscalar(a)

    @staticmethod
    def issubdtype(a, b):
        if a in (SymReal, SFloat, SymComplex, SComplex) or a == SFloat or a == SComplex:
            return True
        return _np.issubdtype(a, b)

    @staticmethod
    def divide(a, b, *x, **k):
        return _bin(lambda p, q: div(p, q), a, b)

    true_divide = divide

    @staticmethod
    def insert(a, i, v, axis=None):
        if has_sym(a) or has_sym(v):
            return _np.insert(npx._oa(a), i, _lift(v), axis=axis).view(SymArray)
        return _np.insert(a, i, v, axis=axis)

    @staticmethod
    def nan_to_num(a, **k):
        return a

    @staticmethod
    def float64(x=0):
        return SFloat(x) if not _isinstance(x, _np.ndarray) else cast(x, _float)

    @staticmethod
    def complex128(x=0):
        return SComplex(x) if not _isinstance(x, _np.ndarray) else cast(x, _complex)

    @staticmethod
    def degrees(a):
        return _emap(lambda e: s_degrees(e), a, obj=True)

    rad2deg = degrees

    @staticmethod
    def radians(a):
        return _emap(lambda e: s_radians(e), a, obj=True)

    deg2rad = radians

    @staticmethod
    def hypot(a, b):
        return _bin(lambda p, q: s_hypot(to_rf(p), to_rf(q)), a, b)

    @staticmethod
    def arctan2(a, b):
        return _bin(lambda p, q: s_atan2(p, q), a, b)

    @staticmethod
    def power(a, b):
        return _bin(lambda p, q: intpow(p, q), a, b)

    @staticmethod
    def absolute(a):
        return _emap(abs, a, obj=True)

    abs = absolute
    fabs = absolute

    @staticmethod
    def square(a):
        return _emap(lambda e: e * e, a, obj=True)

    @staticmethod
    def reciprocal(a):
        return _emap(lambda e: div(1, e), a, obj=True)


def _u1(f):
    def g(a, *x, **k):
        return _emap(lambda e: f(to_rf(e)) if not _isinstance(e, (SymComplex, _complex)) else f(SymComplex.of(e)), a, obj=True)
    return staticmethod(g)


for _n, _f in dict(sqrt=s_sqrt, cos=s_cos, sin=s_sin, tan=s_tan, arccos=s_acos, arcsin=s_asin, arctan=s_atan, exp=s_exp,
                   log=s_log, floor=s_floor, ceil=s_ceil, trunc=s_trunc).items():
    setattr(npx, _n, _u1(_f))


def s_isnan_any(e):
    if is_sym(e) or e is None:
        return False
    return _bool(e != e)


def _shape(s):
    if _isinstance(s, (tuple, list)):
        return tuple(_int(x) for x in s)
    return (_int(s.__index__()),)


def _emap(f, a, obj=False):
    if _isinstance(a, (list, tuple)):
        a = arr(a)
    if _isinstance(a, _np.ndarray):
        if a.ndim == 0:
            return f(a.item())
        if obj:
            return _map(f, a)
        return _np.array([_bool(f(e)) for e in a.flat], dtype=_bool).reshape(a.shape)
    return f(a)


def _bin(f, a, b):
    sa = _isinstance(a, (_np.ndarray, list, tuple))
    sb = _isinstance(b, (_np.ndarray, list, tuple))
    if not sa and not sb:
        return f(a, b)
    A, B = _np.broadcast_arrays(arr(a), arr(b))
    out = _np.empty(A.shape, dtype=object)
    for i in _np.ndindex(A.shape):
        out[i] = f(A[i], B[i])
    return out.view(SymArray)


def _reduce(a, axis, f):
    b = _np.moveaxis(_np.asarray(a), axis, -1)
    out = _np.empty(b.shape[:-1], dtype=object)
    for i in _np.ndindex(out.shape):
        out[i] = f(b[i].view(SymArray))
    return out.view(SymArray)


def _has_expr(a):
    if _isinstance(a, (list, tuple)):
        return False
    return False


class _ErrState:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _terms(x):
    x = sym.SymComplex.of(x)
    return sum(len(p.n.t) + sum(len(f.t) for f in p.d) for p in (x.re, x.im))


class linalg:
    LinAlgError = _np.linalg.LinAlgError

    @staticmethod
    def det(a):
        return _det([list(r) for r in arr(a)])

    @staticmethod
    def inv(a):
        a = arr(a)
        n = a.shape[0]
        if a.ndim != 2 or a.shape[1] != n:
            raise _np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        if n == 0:
            return a
        rows = [list(r) for r in a]
        if n > 1 and sum(_terms(x) for r in rows for x in r) > (36 if n > 2 else 80):
            return linalg.opaque(a)
        d = _det(rows)
        zero = d == 0
        # where divisors are assumed to be non-zero, matrices are assumed to be regular
        if not (_isinstance(zero, sym.SymBool) and sym.ctx().x.div == "assume") and _bool(zero):
            raise _np.linalg.LinAlgError("Singular matrix")
        out = npx.zeros((n, n))
        inv = div(1, d)
        for i in range(n):
            for j in range(n):
                m = [[rows[p][q] for q in range(n) if q != i] for p in range(n) if p != j]
                c = _det(m) if m else 1
                out[i, j] = (c if (i + j) % 2 == 0 else -c) * inv
        return out

    @staticmethod
    def opaque(a):
        """the inverse as a function of the entries (the matrix is assumed to be regular)"""
        rows = [[sym.SymComplex.of(x) for x in r] for r in arr(a)]
        inv = sym.ctx().opaque_inverse(rows)
        out = npx.zeros((len(rows), len(rows)))
        for i, r in enumerate(inv):
            for j, x in enumerate(r):
                out[i, j] = x
        return out

    @staticmethod
    def solve(a, b):
        return npx.dot(linalg.inv(a), b)

    @staticmethod
    def norm(a, ord=None, axis=None):
        a = arr(a)
        if axis is not None:
            raise SymbolicUnsupported("norm axis")
        if ord is not None and ord == _np.inf:
            return npx.amax([abs(e) for e in a.flat])
        if ord is not None and ord == 1:
            return s_sum(abs(e) for e in a.flat)
        t = 0
        for e in a.flat:
            m = abs(e)
            t = t + m * m
        return s_sqrt(t)

    @staticmethod
    def matrix_rank(a, *x):
        return _np.linalg.matrix_rank(a, *x)


def __getattr_linalg(n):
    return getattr(_np.linalg, n)


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    r = 0
    for j in range(n):
        if not is_sym(m[0][j]) and m[0][j] == 0:
            continue
        if is_sym(m[0][j]) and _zero(m[0][j]):
            continue
        c = m[0][j] * _det([row[:j] + row[j + 1:] for row in m[1:]])
        r = r + c if j % 2 == 0 else r - c
    return r


def _zero(x):
    if _isinstance(x, SymReal):
        return x.n.is_zero()
    return x.re.n.is_zero() and x.im.n.is_zero()


class _Linalg(types.ModuleType):
    def __getattr__(self, n):
        if hasattr(linalg, n):
            return getattr(linalg, n)
        return getattr(_np.linalg, n)


class _Numpy(types.ModuleType):
    def __getattr__(self, n):
        if n in ("max",):
            return npx.amax
        if n in ("min",):
            return npx.amin
        if n in npx.__dict__ and not n.startswith("_"):
            return getattr(npx, n)
        v = getattr(_np, n)
        if callable(v) and not _isinstance(v, type) and not _isinstance(v, types.ModuleType):
            return _wrap_np(v)
        return v


_wrapped = {}


def _wrap_np(f):
    if f in _wrapped:
        return _wrapped[f]

    def g(*a, **k):
        r = f(*[_np.asarray(x) if _isinstance(x, SymArray) else x for x in a], **k)
        if _isinstance(r, _np.ndarray) and r.dtype == object:
            return r.view(SymArray)
        if _isinstance(r, tuple):
            return tuple(x.view(SymArray) if _isinstance(x, _np.ndarray) and x.dtype == object else x for x in r)
        if _isinstance(r, list):
            return [x.view(SymArray) if _isinstance(x, _np.ndarray) and x.dtype == object else x for x in r]
        return r
    g.__name__ = getattr(f, "__name__", "np")
    _wrapped[f] = g
    return g


numpy = _Numpy("numpy")
numpy.__path__ = []
numpy.ndarray = SymArray
numpy.linalg = _Linalg("numpy.linalg")
numpy.pi = math.pi
numpy.e = math.e
numpy.inf = _np.inf
numpy.nan = _np.nan
numpy.newaxis = None
numpy.errstate = _ErrState
numpy.seterr = lambda *a, **k: {}
numpy.random = _np.random
numpy.float64 = SFloat
numpy.float32 = SFloat
numpy.double = SFloat
numpy.complex128 = SComplex
numpy.complex64 = SComplex
numpy.object_ = object
numpy.bool_ = _np.bool_


# ------------------------------------------------------------- scipy.sparse

class SymSparse:
    """coordinate matrix; duplicates add up"""

    def __init__(self, arg, shape=None, dtype=None, **k):
        if _isinstance(arg, SymSparse):
            self.r, self.c, self.v, self.shape = list(arg.r), list(arg.c), list(arg.v), arg.shape
            return
        if _isinstance(arg, _np.ndarray) or (_isinstance(arg, list)):
            a = arr(arg)
            self.shape = a.shape
            self.r, self.c, self.v = [], [], []
            for i, j in _np.ndindex(a.shape):
                e = a[i, j]
                if not (is_sym(e) and _zero(e)) and not (not is_sym(e) and e == 0):
                    self.r.append(i)
                    self.c.append(j)
                    self.v.append(e)
            return
        if _isinstance(arg, tuple) and len(arg) == 2 and not _isinstance(arg[1], tuple):
            self.r, self.c, self.v = [], [], []
            self.shape = (_int(arg[0]), _int(arg[1]))
            return
        v, (r, c) = arg[0], arg[1]
        self.v = [e if (is_sym(e) or e is None) else _lift(e) for e in v]
        self.r = [_int(i) for i in r]
        self.c = [_int(j) for j in c]
        if not (len(self.v) == len(self.r) == len(self.c)):
            raise ValueError("row, column, and data array must all be the same length")
        if any(i < 0 for i in self.r) or any(j < 0 for j in self.c):
            raise ValueError("negative axis index")
        if shape is None:
            if not self.v:
                raise ValueError("cannot infer dimensions from zero sized index arrays")
            shape = (max(self.r) + 1, max(self.c) + 1)
        self.shape = tuple(_int(x) for x in shape)
        if any(i >= self.shape[0] for i in self.r) or any(j >= self.shape[1] for j in self.c):
            raise ValueError("axis index exceeds matrix dimension")

    def toarray(self, *a, **k):
        out = npx.zeros(self.shape)
        for i, j, v in zip(self.r, self.c, self.v):
            out[i, j] = out[i, j] + v
        return out

    todense = toarray

    @property
    def A(self):
        return self.toarray()

    def tocsc(self, *a, **k):
        return self

    tocsr = tocoo = tolil = todok = copy = asformat = tocsc

    def sum_duplicates(self):
        pass

    def eliminate_zeros(self):
        pass

    @property
    def T(self):
        s = SymSparse(self)
        s.r, s.c = s.c, s.r
        s.shape = s.shape[::-1]
        return s

    transpose = lambda self: self.T

    def getnnz(self, axis=None):
        """stored entries after summing duplicates (explicit zeros count)"""
        cells = set(zip(self.r, self.c))
        if axis is None:
            return len(cells)
        n = self.shape[1 - axis] if axis in (0, 1) else 0
        out = _np.zeros(self.shape[0] if axis == 1 else self.shape[1], dtype=_int)
        for i, j in cells:
            out[i if axis == 1 else j] += 1
        return out

    @property
    def nnz(self):
        return self.getnnz()

    def nonzero(self):
        return npx.nonzero(self.toarray())

    def diagonal(self):
        a = self.toarray()
        return arr([a[i, i] for i in range(min(self.shape))])

    def dot(self, o):
        return npx.dot(self.toarray(), o)

    def __matmul__(self, o):
        return self.dot(o)

    def __mul__(self, o):
        return self.dot(o)

    def __getitem__(self, k):
        return self.toarray()[k]

    def get_shape(self):
        return self.shape

    def astype(self, *a, **k):
        return self

    @property
    def data(self):
        return arr(self.v)


class _Sparse(types.ModuleType):
    def __getattr__(self, n):
        if n in ("csc_matrix", "csr_matrix", "coo_matrix", "csc_array", "csr_array", "coo_array", "lil_matrix", "dok_matrix"):
            return SymSparse
        import scipy.sparse
        return getattr(scipy.sparse, n)


scipy_sparse = _Sparse("scipy.sparse")
scipy_sparse.__path__ = []
SPSOLVE = None


def spsolve(A, b, *a, **k):
    if SPSOLVE is None:
        raise SymbolicUnsupported("linear solve outside a scenario that stubs it")
    return SPSOLVE(A, b)


class _SpLinalg(types.ModuleType):
    def __getattr__(self, n):
        import scipy.sparse.linalg
        return getattr(scipy.sparse.linalg, n)


scipy_sparse_linalg = _SpLinalg("scipy.sparse.linalg")
scipy_sparse_linalg.spsolve = spsolve
scipy_sparse.linalg = scipy_sparse_linalg

MODULES = {"math": math, "cmath": cmath, "numpy": numpy, "numpy.linalg": numpy.linalg,
           "scipy.sparse": scipy_sparse, "scipy.sparse.linalg": scipy_sparse_linalg}

_real_import = builtins.__import__


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in MODULES:
            if fromlist or "." not in name:
                return MODULES[name]
            if name.startswith("numpy"):
                return numpy
        if name == "scipy" and fromlist:
            m = _real_import(name, globals, locals, fromlist, level)
            if "sparse" in fromlist:
                p = types.ModuleType("scipy")
                p.__dict__.update({k: getattr(m, k) for k in fromlist if k != "sparse"})
                p.sparse = scipy_sparse
                return p
            return m
    return _real_import(name, globals, locals, fromlist, level)


class SBool(metaclass=_BoolMeta):
    pass


def make_builtins():
    d = dict(builtins.__dict__)
    d.update(float=SFloat, int=SInt, complex=SComplex, isinstance=s_isinstance, round=s_round_builtin,
             sum=s_sum, type=s_type, __import__=s_import,
             __flit__=flit, __div__=div, __idiv__=idiv, __ipow__=intpow)
    return d


BUILTINS = make_builtins()
