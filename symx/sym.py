"""Symbolic values: SymReal / SymBool / SymComplex.

A SymReal is a rational function of real atoms.  Operations are those of the
Python number protocol, so the code under test computes with them unchanged.
Branching on a SymBool asks the current Context (symx.engine) which sides the
solver finds feasible."""
import math
import cmath
import numbers
import re
from fractions import Fraction

import numpy as _np
import z3

from .poly import Poly, ZERO, POLY_ONE, ONE_M

CTX = None  # current path context, set by engine


class SymbolicUnsupported(Exception):
    """The encoding has no translation for this operation: inconclusive."""


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    if CTX is None:
        raise SymbolicUnsupported("no symbolic context")
    return CTX


_FRAC = {}


def frac_of_float(x):
    r = _FRAC.get(x)
    if r is None:
        if x != x or x in (math.inf, -math.inf):
            raise SymbolicUnsupported("non-finite float meets a symbolic value")
        r = Fraction(repr(float(x)))
        _FRAC[x] = r
    return r


# ---------------------------------------------------------------- helpers

class Inf(Exception):
    pass


def is_sym(x):
    return isinstance(x, (SymReal, SymComplex))


def to_rf(x):
    """number -> SymReal (exact) or None"""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, bool):
        return SymReal(Poly.const(int(x)))
    if isinstance(x, int):
        return SymReal(Poly.const(x))
    if isinstance(x, Fraction):
        return SymReal(Poly.const(x))
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return None
        return SymReal(Poly.const(frac_of_float(x)))
    if isinstance(x, _np.generic):
        if isinstance(x, (_np.bool_, _np.integer)):
            return SymReal(Poly.const(int(x)))
        if isinstance(x, _np.floating):
            return to_rf(float(x))
    if isinstance(x, SymBool):
        return SymReal(Poly.const(1)) if bool(x) else SymReal(ZERO)
    return None


def is_complexlike(x):
    return isinstance(x, (complex, SymComplex, _np.complexfloating))


_den_ids = {}


def _den_norm(p):
    """split a polynomial used as divisor into (const, [(factor, exp)...])"""
    c = Fraction(1)
    # monomial content
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {i: min(e, d[i]) for i, e in common.items() if i in d}
        if not common:
            break
    facs = []
    q = p
    if common:
        from .poly import mono_div
        cm = tuple(sorted(common.items()))
        q = Poly({mono_div(m, cm): cc for m, cc in p.t.items()})
        for i, e in cm:
            facs.append((Poly.atom(i), e))
    lc = q.t[q.lead()]
    c *= lc
    if lc != 1:
        q = q.scale(1 / lc)
    if not q.is_const():
        facs.append((q, 1))
    else:
        c *= q.const_value()
    return c, facs


class SymReal:
    __slots__ = ("n", "d", "_s", "is_int")
    __array_priority__ = 1000

    def __init__(self, n, d=None, is_int=False):
        self.n = n
        self.d = d if d else {}
        self._s = None
        self.is_int = is_int

    # -- construction -------------------------------------------------
    @staticmethod
    def make(n, d):
        """normalise: rewrite atoms with square rules, cancel factors"""
        if n.is_zero():
            return SymReal(ZERO)
        if CTX is not None and CTX.sq_rules:
            n, d = _apply_rules(n, d)
            if n.is_zero():
                return SymReal(ZERO)
        if d:
            if n.is_const():
                return SymReal(n, d)
            nd = {}
            na = n.atoms()
            for f, e in d.items():
                if len(n.t) <= 3000 and na >= f.atoms():
                    while e:
                        q = n.divexact(f)
                        if q is None:
                            break
                        n = q
                        e -= 1
                        na = n.atoms()
                if e:
                    nd[f] = e
            d = nd
        return SymReal(n, d)

    def is_const(self):
        return not self.d and self.n.is_const()

    def const(self):
        return self.n.const_value()

    def key(self):
        return (self.n.key(), frozenset(self.d.items()))

    def __hash__(self):
        if self.is_const():
            return hash(self.const())
        if self.is_int:
            return hash(int(self))
        return hash(self.key())

    # -- arithmetic ---------------------------------------------------
    def _coerce(self, o):
        return to_rf(o)

    def __add__(self, o):
        if is_complexlike(o):
            return SymComplex(self, 0) + o
        b = to_rf(o)
        if b is None:
            return NotImplemented if not _isnum(o) else _nonfinite(o)
        if b.n.is_zero():
            return self
        if self.n.is_zero():
            return b
        if self.d == b.d:
            return SymReal.make(self.n.add(b.n), self.d)
        common = dict(self.d)
        for f, e in b.d.items():
            if common.get(f, 0) < e:
                common[f] = e
        n1 = self.n
        n2 = b.n
        for f, e in common.items():
            k1 = e - self.d.get(f, 0)
            k2 = e - b.d.get(f, 0)
            if k1:
                n1 = n1.mul(f.pow(k1))
            if k2:
                n2 = n2.mul(f.pow(k2))
        return SymReal.make(n1.add(n2), common)

    __radd__ = __add__

    def __neg__(self):
        return SymReal(self.n.neg(), self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if is_complexlike(o):
            return SymComplex(self, 0) - o
        b = to_rf(o)
        if b is None:
            return NotImplemented if not _isnum(o) else _nonfinite(o)
        return self + (-b)

    def __rsub__(self, o):
        if is_complexlike(o):
            return SymComplex.of(o) - self
        b = to_rf(o)
        if b is None:
            return NotImplemented if not _isnum(o) else _nonfinite(o)
        return b + (-self)

    def __mul__(self, o):
        if is_complexlike(o):
            return SymComplex(self, 0) * o
        if isinstance(o, (str, list, tuple)):
            return self.__index__() * o
        b = to_rf(o)
        if b is None:
            return NotImplemented if not _isnum(o) else _nonfinite(o)
        if self.n.is_zero() or b.n.is_zero():
            return SymReal(ZERO)
        if not b.d and b.n.is_const():
            return SymReal(self.n.scale(b.n.const_value()), self.d)
        if not self.d and self.n.is_const():
            return SymReal(b.n.scale(self.n.const_value()), b.d)
        d = dict(self.d)
        for f, e in b.d.items():
            d[f] = d.get(f, 0) + e
        return SymReal.make(self.n.mul(b.n), d)

    __rmul__ = __mul__

    def inverse(self):
        if self.n.is_zero():
            raise ZeroDivisionError("division by zero")
        if not self.is_const():
            ctx().divisor(self)
        c, facs = _den_norm(self.n)
        d = {}
        for f, e in facs:
            d[f] = d.get(f, 0) + e
        n = Poly.const(1 / c)
        for f, e in self.d.items():
            n = n.mul(f.pow(e))
        return SymReal.make(n, d)

    def __truediv__(self, o):
        if is_complexlike(o):
            return SymComplex(self, 0) / o
        b = to_rf(o)
        if b is None:
            if _isnum(o) and float(o) in (math.inf, -math.inf):
                return SymReal(ZERO)
            return NotImplemented
        if b.is_const():
            c = b.const()
            if c == 0:
                raise ZeroDivisionError("division by zero")
            return SymReal(self.n.scale(1 / c), self.d)
        return self * b.inverse()

    def __rtruediv__(self, o):
        if is_complexlike(o):
            return SymComplex.of(o) / self
        b = to_rf(o)
        if b is None:
            return NotImplemented
        return b / self

    def __floordiv__(self, o):
        return s_floor(self / o)

    def __rfloordiv__(self, o):
        return s_floor(to_rf(o) / self)

    def __mod__(self, o):
        b = to_rf(o)
        return self - s_floor(self / b) * b

    def __rmod__(self, o):
        b = to_rf(o)
        if b is None:
            return NotImplemented
        return b - s_floor(b / self) * self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __pow__(self, o):
        if is_complexlike(o):
            raise SymbolicUnsupported("complex exponent")
        b = to_rf(o)
        if b is None:
            return NotImplemented
        if not b.is_const():
            k = ctx().concretize(b) if b.is_int else None
            if k is None:
                raise SymbolicUnsupported("symbolic exponent")
            b = to_rf(k)
        e = b.const()
        if e.denominator == 1:
            k = int(e)
            if k == 0:
                return SymReal(POLY_ONE)
            if k < 0:
                return (self ** (-k)).inverse() if not self.is_const() else SymReal(Poly.const(self.const() ** k))
            r = self
            if self.is_const():
                return SymReal(Poly.const(self.const() ** k))
            out = None
            base = r
            while k:
                if k & 1:
                    out = base if out is None else out * base
                k >>= 1
                if k:
                    base = base * base
            return out
        if (e * 2).denominator == 1:
            r = s_sqrt(self)
            return r ** int(e * 2)
        if self.is_const():
            return to_rf(float(self.const()) ** float(e))
        q = 1 / float(e)
        if round(q) > 2 and abs(q - round(q)) < 1e-9 * q:
            return ctx().root_atom(self, round(q))
        raise SymbolicUnsupported(f"exponent {e}")

    def __rpow__(self, o):
        b = to_rf(o)
        if b is None:
            return NotImplemented
        if self.is_const():
            return b ** self
        raise SymbolicUnsupported("symbolic exponent")

    def __abs__(self):
        return s_abs(self)

    # -- comparison ---------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, (complex, SymComplex, _np.complexfloating)):
            if op in ("eq", "ne"):
                e = SymComplex(self, 0) == o
                return e if op == "eq" else ~e
            raise TypeError("no ordering for complex")
        b = to_rf(o)
        if b is None:
            if _isnum(o):
                v = float(o)
                if v != v:
                    return op == "ne"
                big = v > 0
                return {"eq": False, "ne": True, "lt": big, "le": big, "gt": not big, "ge": not big}[op]
            if op == "eq":
                return NotImplemented
            if op == "ne":
                return NotImplemented
            return NotImplemented
        d = self - b
        return cmp0(d, op)

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __bool__(self):
        return bool(self._cmp(0, "ne"))

    # -- conversion ---------------------------------------------------
    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise SymbolicUnsupported("float() of a symbolic value outside the encoded code: " + repr(self)[:80])

    def __int__(self):
        if self.is_const():
            return int(self.const())
        return ctx().concretize(s_trunc(self))

    def __index__(self):
        if self.is_const() and self.const().denominator == 1:
            return int(self.const())
        if self.is_int:
            return ctx().concretize(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __complex__(self):
        return complex(float(self))

    def __trunc__(self):
        return s_trunc(self)

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return s_ceil(self)

    def __round__(self, nd=None):
        return s_round(self, nd)

    def is_integer(self):
        if self.is_const():
            return self.const().denominator == 1
        return s_floor(self) == self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SymReal(ZERO)

    def conjugate(self):
        return self

    def item(self):
        return self

    def _sympy_(self):
        import sympy
        if self.is_const():
            c = self.const()
            if c.denominator == 1:
                return sympy.Integer(c.numerator)
            return sympy.Rational(c.numerator, c.denominator)
        raise SymbolicUnsupported("symbolic value inside a sympy expression")

    # numpy object-array ufuncs look these up by name
    def sqrt(self):
        return s_sqrt(self)

    def cos(self):
        return s_cos(self)

    def sin(self):
        return s_sin(self)

    def tan(self):
        return s_sin(self) / s_cos(self)

    def arctan(self):
        return s_atan2(self, 1)

    def arctan2(self, o):
        return s_atan2(self, o)

    def exp(self):
        return s_exp(self)

    def log(self):
        return s_log(self)

    def fabs(self):
        return s_abs(self)

    def floor(self):
        return s_floor(self)

    def ceil(self):
        return s_ceil(self)

    def rint(self):
        return s_round(self, None)

    def square(self):
        return self * self

    def reciprocal(self):
        return self.inverse()

    def conj(self):
        return self

    def radians(self):
        return self * math.pi / 180

    deg2rad = radians

    def degrees(self):
        return self * 180 / math.pi

    rad2deg = degrees

    def __repr__(self):
        if self._s is None:
            if self.is_const():
                c = self.const()
                f = float(c)
                self._s = repr(f) if Fraction(repr(f)) == c else f"{c.numerator}/{c.denominator}"
            else:
                self._s = "<" + _poly_str(self.n) + ("" if not self.d else " / " + "*".join(
                    f"({_poly_str(f)})^{e}" for f, e in sorted(self.d.items(), key=lambda x: _poly_str(x[0])))) + ">"
        return self._s

    def __str__(self):
        if STR_HOOK[0] is not None and (not self.is_const() or "/" in repr(self)):
            return STR_HOOK[0](self)
        return repr(self)

    def __format__(self, spec):
        if self.is_const():
            return format(float(self), spec)
        if spec in ("", "s"):
            return repr(self)
        SHOWN.append((self, spec))
        return f"⟪{len(SHOWN) - 1}⟫"

    def __reduce__(self):
        if self.is_const():
            return (Fraction, (self.const().numerator, self.const().denominator))
        raise SymbolicUnsupported("pickling a symbolic value")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


numbers.Number.register(SymReal)


def _poly_str(p):
    if p.is_zero():
        return "0"
    out = []
    for m, c in sorted(p.t.items()):
        s = "*".join((CTX.atom_name(i) if CTX else f"a{i}") + (f"^{e}" if e > 1 else "") for i, e in m)
        out.append(f"{c}" if not s else (s if c == 1 else f"{c}*{s}"))
    return " + ".join(out)


def _isnum(o):
    return isinstance(o, (int, float, _np.floating, _np.integer))


def _nonfinite(o):
    raise SymbolicUnsupported("non-finite float meets a symbolic value")


def _apply_rules(n, d):
    """replace a^2 by its defining rational function for rule atoms"""
    rules = CTX.sq_rules
    changed = True
    while changed:
        changed = False
        # denominators that contain a rule atom
        if d:
            for f in list(d):
                hit = [i for i in f.atoms() if i in rules]
                if not hit:
                    continue
                e = d[f]
                if len(f.t) == 1:
                    # pure power of the atom: 1/a^e -> a^e / (a^2)^e
                    i = hit[0]
                    rp, rd = rules[i]
                    d = dict(d)
                    del d[f]
                    k = e  # f is the atom itself (factors are split)
                    n = n.mul(Poly.atom(i).pow(k))
                    for g, ge in rd.items():
                        n = n.mul(g.pow(ge * k))
                    if rp.is_const():
                        n = n.scale(1 / rp.const_value() ** k)
                    else:
                        c, facs = _den_norm(rp)
                        n = n.scale(1 / c ** k)
                        for g, ge in facs:
                            d[g] = d.get(g, 0) + ge * k
                    changed = True
                else:
                    hi = [i for i in hit if any(dict(m).get(i, 0) >= 2 for m in f.t)]
                    if hi:
                        i = hi[0]
                        nn, nd = _subst_sq(f, i, rules[i])
                        # f = nn / nd
                        d = dict(d)
                        del d[f]
                        for g, ge in nd.items():
                            n = n.mul(g.pow(ge * e))
                        c, facs = _den_norm(nn)
                        n = n.scale(1 / c ** e)
                        for g, ge in facs:
                            d[g] = d.get(g, 0) + ge * e
                        changed = True
        hi = None
        for m in n.t:
            for i, e in m:
                if e >= 2 and i in rules:
                    hi = i
                    break
            if hi is not None:
                break
        if hi is not None:
            n, nd = _subst_sq(n, hi, rules[hi])
            if nd:
                d = dict(d)
                for g, ge in nd.items():
                    d[g] = d.get(g, 0) + ge
            changed = True
    return n, d


def _subst_sq(p, i, rule):
    rp, rd = rule
    groups = {}
    for m, c in p.t.items():
        e = 0
        rest = []
        for j, je in m:
            if j == i:
                e = je
            else:
                rest.append((j, je))
        k, r = divmod(e, 2)
        if r:
            rest.append((i, 1))
            rest.sort()
        g = groups.setdefault(k, {})
        rest = tuple(rest)
        g[rest] = g.get(rest, 0) + c
    K = max(groups)
    rdp = POLY_ONE
    for g, ge in rd.items():
        rdp = rdp.mul(g.pow(ge))
    out = ZERO
    for k, g in groups.items():
        t = Poly({m: c for m, c in g.items() if c})
        t = t.mul(rp.pow(k))
        if K - k and not rdp.is_const():
            t = t.mul(rdp.pow(K - k))
        out = out.add(t)
    nd = {g: ge * K for g, ge in rd.items()} if K else {}
    return out, nd


# ---------------------------------------------------------------- booleans

def _and3(a, b):
    if a is False or b is False:
        return False
    return None if a is None or b is None else True


def _or3(a, b):
    if a is True or b is True:
        return True
    return None if a is None or b is None else False


def _not3(a):
    return None if a is None else not a


class SymBool:
    __slots__ = ("e", "ev")

    def __init__(self, e, ev=None):
        self.e = e
        self.ev = ev          # evaluator over a numeric sample, or None

    def __bool__(self):
        return ctx().branch(self)

    def __and__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else False
        if isinstance(o, SymBool):
            a, b = self.ev, o.ev
            return SymBool(z3.And(self.e, o.e), a and b and (lambda v: _and3(a(v), b(v))))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return True if o else self
        if isinstance(o, SymBool):
            a, b = self.ev, o.ev
            return SymBool(z3.Or(self.e, o.e), a and b and (lambda v: _or3(a(v), b(v))))
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        a = self.ev
        return SymBool(z3.Not(self.e), a and (lambda v: _not3(a(v))))

    def __xor__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return ~self if o else self
        return SymBool(z3.Xor(self.e, zbool(o)))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else ~self
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        if isinstance(o, (int, float)):
            return bool(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SymBool) else (not r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __repr__(self):
        return f"SymBool({self.e})"

    def __deepcopy__(self, memo):
        return self


STR_HOOK = [None]    # text of a number while a text with tokens is read
SHOWN = []      # numbers formatted with a precision, by token


def zbool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


_OPS = {"eq": lambda a: a == 0, "ne": lambda a: a != 0, "lt": lambda a: a < 0,
        "le": lambda a: a <= 0, "gt": lambda a: a > 0, "ge": lambda a: a >= 0}


def _sample_op(p, op, extra=()):
    def ev(vals):
        v = p.evaluate(vals)
        for f in extra:
            v = v * f.evaluate(vals)
        if isinstance(v, float):
            if v != v:
                return None
            if abs(v) < 1e-9:
                return None
        return bool(_OPS[op](v))
    return ev


def cmp0(d, op):
    """truth of  d op 0  for a SymReal d, as bool or SymBool"""
    if d.is_const():
        return bool(_OPS[op](d.const()))
    n = d.n
    if n.is_const() and op in ("eq", "ne"):
        return op == "ne"
    n = _primitive(n)
    if op in ("eq", "ne"):
        s = CTX.quick_sign(n)
        if s is not None and s != 0:
            return op == "ne"
        z = CTX.poly_z3(n)
        return SymBool(z == 0 if op == "eq" else z != 0, _sample_op(n, op))
    sign = 1
    extra = []
    for f, e in d.d.items():
        if e % 2 == 0:
            continue
        s = CTX.sign_of(f)
        if s is None:
            extra.append(f)
        elif s < 0:
            sign = -sign
    if sign < 0:
        op = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[op]
    if not extra:
        s = CTX.quick_sign(n)
        if s is not None:
            if s != 0:
                return bool(_OPS[op](s))
    z = CTX.poly_z3(n)
    for f in extra:
        z = z * CTX.poly_z3(f)
    return SymBool(_OPS[op](z), _sample_op(n, op, extra))


def _primitive(p):
    """scale to smaller coefficients, keeping sign"""
    l = 1
    g = 0
    for c in p.t.values():
        l = l * c.denominator // math.gcd(l, c.denominator)
    for c in p.t.values():
        g = math.gcd(g, int(c * l))
    if g == 0:
        return p
    k = Fraction(l, g)
    return p.scale(k)


# ---------------------------------------------------------------- complex

class SymComplex:
    __slots__ = ("re", "im")
    __array_priority__ = 1000

    def __init__(self, re_, im_):
        r = to_rf(re_)
        i = to_rf(im_)
        if r is None or i is None:
            raise SymbolicUnsupported(f"complex({re_!r},{im_!r})")
        self.re = r
        self.im = i

    @staticmethod
    def of(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, (complex, _np.complexfloating)):
            return SymComplex(x.real, x.imag)
        r = to_rf(x)
        if r is None:
            return None
        return SymComplex(r, 0)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __add__(self, o):
        b = SymComplex.of(o)
        if b is None:
            return NotImplemented
        return SymComplex(self.re + b.re, self.im + b.im)

    __radd__ = __add__

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __pos__(self):
        return self

    def __sub__(self, o):
        b = SymComplex.of(o)
        if b is None:
            return NotImplemented
        return SymComplex(self.re - b.re, self.im - b.im)

    def __rsub__(self, o):
        b = SymComplex.of(o)
        if b is None:
            return NotImplemented
        return b - self

    def __mul__(self, o):
        b = SymComplex.of(o)
        if b is None:
            return NotImplemented
        return SymComplex(self.re * b.re - self.im * b.im, self.re * b.im + self.im * b.re)

    __rmul__ = __mul__

    def inverse(self):
        if self.im.n.is_zero():
            return SymComplex(1 / self.re, 0)
        m = self.re * self.re + self.im * self.im
        if m.n.is_zero():
            raise ZeroDivisionError("complex division by zero")
        inv = 1 / m
        return SymComplex(self.re * inv, -self.im * inv)

    def __truediv__(self, o):
        if isinstance(o, float) and o in (math.inf, -math.inf):
            return SymComplex(0, 0)
        b = SymComplex.of(o)
        if b is None:
            return NotImplemented
        if b.im.n.is_zero():
            return SymComplex(self.re / b.re, self.im / b.re)
        return self * b.inverse()

    def __rtruediv__(self, o):
        b = SymComplex.of(o)
        if b is None:
            return NotImplemented
        return b / self

    def __pow__(self, k):
        b = to_rf(k)
        if b is None or not b.is_const() or b.const().denominator != 1:
            raise SymbolicUnsupported("complex power")
        k = int(b.const())
        if k < 0:
            return (self ** -k).inverse()
        r = SymComplex(1, 0)
        for _ in range(k):
            r = r * self
        return r

    def __abs__(self):
        if self.im.n.is_zero():
            return abs(self.re)
        if self.re.n.is_zero():
            return abs(self.im)
        return s_sqrt(self.re * self.re + self.im * self.im)

    def __eq__(self, o):
        b = SymComplex.of(o)
        if b is None:
            return NotImplemented
        e1 = self.re == b.re
        e2 = self.im == b.im
        if e1 is False or e2 is False:
            return False
        if e1 is True:
            return e2
        if e2 is True:
            return e1
        return e1 & e2

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SymBool) else (not r)

    def __bool__(self):
        return bool(self != 0)

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    conj = conjugate

    def item(self):
        return self

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __repr__(self):
        return f"({self.re!r},{self.im!r}j)"

    def __str__(self):
        if STR_HOOK[0] is not None:
            re, im = str(self.re), str(self.im)
            return f"({re}{'' if im[:1] == '-' else '+'}{im}j)"
        return repr(self)

    def __format__(self, spec):
        return repr(self)

    def exp(self):
        return s_cexp(self)

    def square(self):
        return self * self

    def reciprocal(self):
        return self.inverse()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


numbers.Number.register(SymComplex)


# ---------------------------------------------------------------- functions

def _frac_sqrt(c):
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def s_abs(x):
    x = to_rf(x)
    if x.is_const():
        return SymReal(Poly.const(abs(x.const())))
    s = ctx().sign_of_rf(x)
    if s is not None:
        return x if s >= 0 else -x
    out = ctx().abs_poly(x.n)
    for f, e in x.d.items():
        out = out / (SymReal(f.pow(e)) if e % 2 == 0 else ctx().abs_poly(f) * SymReal(f.pow(e - 1)))
    return out


def s_sqrt(x):
    if isinstance(x, SymComplex):
        raise SymbolicUnsupported("complex sqrt")
    x = to_rf(x)
    if x.is_const():
        c = x.const()
        if c < 0:
            raise ValueError("math domain error")
        f = _frac_sqrt(c)
        if f is not None:
            return SymReal(Poly.const(f))
        # sqrt(p/q) = sqrt(p*q)/q ; pull out small squares
        n = c.numerator * c.denominator
        k = 1
        if n < 10 ** 12:
            p = 2
            while p * p <= n and p < 1000:
                while n % (p * p) == 0:
                    n //= p * p
                    k *= p
                p += 1
            at = ctx().sqrt_atom(SymReal(Poly.const(n)))
            return at * Fraction(k, c.denominator)
        return to_rf(math.sqrt(c))
    neg = x < 0
    if neg is True or (isinstance(neg, SymBool) and ctx().feasible(neg) and bool(neg)):
        raise ValueError("math domain error")
    # pull out a rational coefficient that is a perfect square and even powers in d
    return ctx().sqrt_atom(x)


def s_floor(x):
    x = to_rf(x)
    if x.is_const():
        return math.floor(x.const())
    if x.is_int:
        return x
    return ctx().floor_atom(x)


def s_ceil(x):
    x = to_rf(x)
    if x.is_const():
        return math.ceil(x.const())
    if x.is_int:
        return x
    return -s_floor(-x)


def s_trunc(x):
    x = to_rf(x)
    if x.is_const():
        return math.trunc(x.const())
    if x.is_int:
        return x
    if x >= 0:
        return s_floor(x)
    return s_ceil(x)


def s_round(x, nd):
    x = to_rf(x)
    if x.is_const():
        r = round(x.const(), None if nd is None else int(nd))
        return r if nd is None else SymReal(Poly.const(Fraction(r)))
    if nd is None:
        if x.is_int:
            return x
        return ctx().round_atom(x)
    k = Fraction(10) ** int(nd)
    return ctx().round_atom(x * k) / k


def _angle_terms(x):
    """x -> list of (coef, monomial-ish key RF) summands with numeric coefs"""
    if x.d:
        return None
    return [(c, m) for m, c in x.n.t.items()]


_PI = Fraction(repr(math.pi))


def _const_trig(c):
    """exact cos/sin of a rational approximating a multiple of pi/12, else float"""
    v = float(c) / (math.pi / 12)
    k = round(v)
    if abs(v - k) < 1e-7:
        k %= 24
        base = {0: (1, 0), 2: ("s3", "h"), 3: ("s2", "s2"), 4: ("h", "s3"), 6: (0, 1)}
        q, r = divmod(k, 6)
        if r in base or r == 0:
            cc, ss = base[r]

            def val(z):
                if z == "h":
                    return SymReal(Poly.const(Fraction(1, 2)))
                if z == "s3":
                    return s_sqrt(Fraction(3)) / 2
                if z == "s2":
                    return s_sqrt(Fraction(2)) / 2
                return SymReal(Poly.const(z))
            a, b = val(cc), val(ss)
            for _ in range(q):
                a, b = -b, a
            return a, b
    return to_rf(math.cos(float(c))), to_rf(math.sin(float(c)))


def s_cossin(x):
    x = to_rf(x)
    if x.is_const():
        return _const_trig(x.const())
    t = _angle_terms(x)
    if t is None:
        return ctx().trig_atom(x)
    C, S = SymReal(POLY_ONE), SymReal(ZERO)
    for c, m in sorted(t, key=lambda z: z[1]):
        if m == ONE_M:
            a, b = _const_trig(c)
        else:
            sg = 1
            if c < 0:
                sg, c = -1, -c
            a, b = ctx().trig_atom(SymReal(Poly({m: c})))
            if sg < 0:
                b = -b
        C, S = C * a - S * b, S * a + C * b
    return C, S


def s_cos(x):
    return s_cossin(x)[0]


def s_sin(x):
    return s_cossin(x)[1]


def s_atan2(y, x):
    y, x = to_rf(y), to_rf(x)
    if x.is_const() and y.is_const():
        return to_rf(math.atan2(float(y), float(x)))
    return ctx().angle_atom(y, x)


def s_exp(x):
    if isinstance(x, SymComplex):
        return s_cexp(x)
    x = to_rf(x)
    if x.is_const():
        if x.const() == 0:
            return SymReal(POLY_ONE)
        return to_rf(math.exp(float(x)))
    return ctx().func_atom("exp", x, positive=True)


def s_cexp(z):
    z = SymComplex.of(z)
    c, s = s_cossin(z.im)
    m = s_exp(z.re)
    return SymComplex(m * c, m * s)


def s_log(x, base=None):
    if base is not None:
        return s_log(x) / s_log(base)
    if isinstance(x, SymComplex):
        raise SymbolicUnsupported("complex log")
    x = to_rf(x)
    if x.is_const():
        c = x.const()
        if c <= 0:
            raise ValueError("math domain error")
        if c == 1:
            return SymReal(ZERO)
        return ctx().log_const(c)
    pos = True if ctx().surely_positive(x) else x > 0
    if isinstance(pos, SymBool):
        if ctx().feasible(~pos) and not bool(pos):
            raise ValueError("math domain error")
    elif not pos:
        raise ValueError("math domain error")
    return ctx().log_of(x)


# ------------------------------------------------------------- arrays as operands

def _with_arrays(cls):
    import operator
    for name in ("add", "sub", "mul", "truediv", "pow"):
        op = getattr(operator, name)
        for pre in ("", "r"):
            key = f"__{pre}{name}__"
            old = getattr(cls, key, None)
            if old is None:
                continue

            def f(self, o, *rest, old=old, op=op, pre=pre):
                if isinstance(o, _np.ndarray):
                    from .shims import arr, SymArray
                    a = arr(o)
                    out = _np.empty(a.shape, dtype=object)
                    for i in _np.ndindex(a.shape):
                        out[i] = op(a[i], self) if pre else op(self, a[i])
                    return out.view(SymArray) if a.ndim else out[()]
                return old(self, o, *rest)
            setattr(cls, key, f)


_with_arrays(SymReal)
_with_arrays(SymComplex)
