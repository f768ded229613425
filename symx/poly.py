"""Exact polynomials over named real atoms, with Fraction coefficients.

A polynomial is an immutable mapping monomial -> coefficient; a monomial is a
sorted tuple of (atom_id, exponent).  Atom ids are ints, meaning is kept in
symx.sym.Registry."""
from fractions import Fraction

ONE_M = ()


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        ai, ae = a[i]
        bi, be = b[j]
        if ai == bi:
            out.append((ai, ae + be))
            i += 1
            j += 1
        elif ai < bi:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class PolyTooLarge(Exception):
    pass


MAX_TERMS = 60000


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, terms):
        self.t = terms
        self._h = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({ONE_M: c}) if c else ZERO

    @staticmethod
    def atom(i):
        return Poly({((i, 1),): Fraction(1)})

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE_M in self.t)

    def const_value(self):
        return self.t.get(ONE_M, Fraction(0))

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def add(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def sub(self, o):
        return self.add(o.neg())

    def scale(self, k):
        if not k:
            return ZERO
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.t.items()})

    def mul(self, o):
        if not self.t or not o.t:
            return ZERO
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        r = {}
        get = r.get
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                c = get(m)
                r[m] = c1 * c2 if c is None else c + c1 * c2
            if len(r) > MAX_TERMS:
                raise PolyTooLarge(len(r))
        return Poly({m: c for m, c in r.items() if c})

    def pow(self, n):
        r = POLY_ONE
        b = self
        while n:
            if n & 1:
                r = r.mul(b)
            n >>= 1
            if n:
                b = b.mul(b)
        return r

    def atoms(self):
        return {i for m in self.t for i, _ in m}

    def lead(self):
        """leading monomial in lexicographic order on exponent vectors"""
        return max(self.t, key=_lexkey)

    def divexact(self, f, limit=20000):
        """self / f as a Poly or None when f does not divide self"""
        if f.is_const():
            c = f.const_value()
            return self.scale(1 / c)
        if not self.atoms() >= f.atoms():
            return None
        rem = dict(self.t)
        q = {}
        fl = f.lead()
        fc = f.t[fl]
        rest = [(m, c) for m, c in f.t.items() if m != fl]
        steps = 0
        while rem:
            m = max(rem, key=_lexkey)
            d = mono_div(m, fl)
            if d is None:
                return None
            c = rem.pop(m) / fc
            q[d] = c
            for fm, fcoef in rest:
                mm = mono_mul(d, fm)
                v = rem.get(mm, 0) - c * fcoef
                if v:
                    rem[mm] = v
                else:
                    rem.pop(mm, None)
            steps += len(rest) + 1
            if steps > limit:
                return None
        return Poly(q)

    def evaluate(self, vals):
        s = 0
        for m, c in self.t.items():
            v = c
            for i, e in m:
                v = v * vals[i] ** e
            s = s + v
        return s


def _lexkey(m):
    # lexicographic order with smaller atom ids more significant
    return tuple((-i, e) for i, e in m)


def mono_div(a, b):
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        v = d.get(i, 0) - e
        if v < 0:
            return None
        if v:
            d[i] = v
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


ZERO = Poly({})
POLY_ONE = Poly({ONE_M: Fraction(1)})
