"""Path exploration and solver queries over the real code run on symbolic values.

A scenario is a function of an Env.  It is re-executed once per feasible path;
every decision the solver takes is logged, so re-execution is deterministic.
Checks are queries  path condition AND NOT assertion  to z3."""
import math
import random
import time
from fractions import Fraction

import z3

from . import sym
from .sym import (SymReal, SymBool, SymComplex, SymbolicUnsupported, to_rf, s_sqrt,
                  frac_of_float)
from .poly import Poly, ZERO, POLY_ONE, PolyTooLarge

BIG_TIMEOUT = 20000
FEAS_TIMEOUT = 2500


class PathEnd(BaseException):
    """this path is infeasible or cut"""


class Inconclusive(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.asserts = 0
        self.nf = 0
        self.cuts = 0

    def as_dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown,
                    solver_s=round(self.solver_s, 3), paths=self.paths, assertions=self.asserts,
                    identities_by_normal_form_after_solver_timeout=self.nf)


class Atom:
    __slots__ = ("id", "name", "z", "kind", "ev", "sign", "is_int", "root", "span")

    def __init__(self, id, name, z, kind, ev, sign=None, is_int=False):
        self.id = id
        self.name = name
        self.z = z
        self.kind = kind
        self.ev = ev
        self.sign = sign
        self.is_int = is_int
        self.span = None


# ---- constant atoms: id -n is sqrt(n), shared by every path --------------
CONST_RULES = {}
CONST_ATOMS = {}


def const_sqrt(n):
    i = -int(n)
    if i not in CONST_ATOMS:
        CONST_ATOMS[i] = Atom(i, f"sqrt{n}", z3.Real(f"sqrt{n}"), "const", (lambda v, r=math.sqrt(n): r), "+")
        CONST_RULES[i] = (Poly.const(n), {})
    return SymReal(Poly.atom(i))


class Vals(dict):
    """numeric sample: inputs stored, derived atoms computed on demand"""
    __slots__ = ("c",)

    def __init__(self, c, d):
        super().__init__(d)
        self.c = c

    def __missing__(self, i):
        a = self.c.get_atom(i)
        if a.ev is None:
            raise KeyError(i)
        v = a.ev(self)
        self[i] = v
        return v


def rf_eval(x, vals):
    v = x.n.evaluate(vals)
    for f, e in x.d.items():
        w = f.evaluate(vals)
        v = v / (Fraction(w) if isinstance(w, int) else w) ** e
    return v


class BaseContext:
    """No path: constants only (module import time)."""
    sq_rules = CONST_RULES

    def get_atom(self, i):
        return CONST_ATOMS[i]

    def atom_name(self, i):
        return self.get_atom(i).name

    def _nope(self, *a, **k):
        raise SymbolicUnsupported("symbolic value outside a path")

    def quick_sign(self, p):
        v = float(p.evaluate(Vals(self, {})))
        if abs(v) > 1e-12:
            return 1 if v > 0 else -1
        return None

    sign_of = quick_sign

    def sign_of_rf(self, x):
        v = float(rf_eval(x, Vals(self, {})))
        return None if abs(v) < 1e-12 else (1 if v > 0 else -1)

    def branch(self, b):
        r = b.ev(Vals(self, {})) if b.ev else None
        if r is None:
            self._nope()
        return r

    def feasible(self, b):
        return self.branch(b)

    def surely_positive(self, x):
        return False

    def divisor(self, x):
        pass

    def poly_z3(self, p):
        return z3.RealVal(0) if p.is_zero() else _poly_z3(p, self.get_atom)

    def sqrt_atom(self, x, hint=None):
        if x.is_const() and x.const().denominator == 1:
            return const_sqrt(int(x.const()))
        return to_rf(math.sqrt(float(rf_eval(x, Vals(self, {})))))

    def log_const(self, c):
        return to_rf(math.log(c))

    def log_of(self, x):
        return to_rf(math.log(rf_eval(x, Vals(self, {}))))

    def floor_atom(self, x):
        return math.floor(rf_eval(x, Vals(self, {})))

    def round_atom(self, x):
        return round(rf_eval(x, Vals(self, {})))

    def angle_atom(self, y, x):
        v = Vals(self, {})
        return to_rf(math.atan2(rf_eval(y, v), rf_eval(x, v)))

    trig_atom = func_atom = concretize = _nope


_Q = {}


_SMALL = [p for p in range(2, 1000) if all(p % q for q in range(2, int(p ** 0.5) + 1))]


def _log_rational(n):
    return Fraction(repr(math.log(n)))


def zq(c):
    r = _Q.get(c)
    if r is None:
        r = z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)
        if len(_Q) < 20000:
            _Q[c] = r
    return r


def _poly_z3(p, get_atom):
    terms = []
    for m, c in sorted(p.t.items()):
        fs = []
        for i, e in m:
            z = get_atom(i).z
            fs.extend([z] * e)
        if not fs:
            terms.append(zq(c))
        else:
            t = z3.Product(fs) if len(fs) > 1 else fs[0]
            terms.append(t if c == 1 else zq(c) * t)
    if not terms:
        return z3.RealVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


_VARS = {}


def zvars(e):
    """names of free variables of a z3 expression"""
    k = e.get_id()
    r = _VARS.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    seen = set()
    out = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            stack.extend(x.children())
    out = frozenset(out)
    _VARS[k] = (e, out)
    return out


class Context(BaseContext):
    def __init__(self, explorer, prefix):
        self.x = explorer
        self.stats = explorer.stats
        self.prefix = prefix
        self.log = []
        self.atoms = []
        self.inputs = {}         # name -> (atom ids / kind, python reader)
        self.sq_rules = dict(CONST_RULES)
        self.cons = []           # (z3 bool, vars)
        self.bool_cons = []
        self.memo = {}
        self.inverses = []
        self.axioms = {}         # var name -> [z3]
        self.trig = {}
        self.rng = random.Random(explorer.seed)
        self.sample_in = [dict() for _ in range(explorer.nsamples)]
        self.samples = None
        self.violations = explorer.violations
        self.observed = []
        self.choices = {}
        self.assumed = []
        self.bools = {}
        for a in CONST_ATOMS.values():
            self._const_axiom(a)
        self.npin = 0

    # -- atoms ---------------------------------------------------------
    def get_atom(self, i):
        if i < 0:
            a = CONST_ATOMS[i]
            self._const_axiom(a)
            return a
        return self.atoms[i]

    def _const_axiom(self, a):
        if a.name not in self.axioms:
            n = -a.id
            r = math.isqrt(n * 10 ** 16)
            lo = Fraction(r - 1, 10 ** 8)
            hi = Fraction(r + 2, 10 ** 8)
            self.axioms[a.name] = [a.z * a.z == n, a.z > zq(lo), a.z < zq(hi)]
            self.sq_rules[a.id] = CONST_RULES[a.id]

    def new_atom(self, name, kind, ev, sign=None, is_int=False):
        i = len(self.atoms)
        if is_int:
            z = z3.ToReal(z3.Int(name))
        else:
            z = z3.Real(name)
        a = Atom(i, name, z, kind, ev, sign, is_int)
        self.atoms.append(a)
        self.axioms.setdefault(name, [])
        return a

    def axiom(self, a, *exprs):
        self.axioms[a.name].extend(exprs)

    def poly_z3(self, p):
        k = ("z", p)
        r = self.memo.get(k)
        if r is None:
            r = _poly_z3(p, self.get_atom)
            self.memo[k] = r
        return r

    def rf_z3(self, x):
        """numerator, denominator as z3"""
        n = self.poly_z3(x.n)
        d = None
        for f, e in x.d.items():
            z = self.poly_z3(f)
            for _ in range(e):
                d = z if d is None else d * z
        return n, d

    # -- samples ---------------------------------------------------------
    def get_samples(self):
        if self.samples is None:
            self.samples = [Vals(self, d) for d in self.sample_in]
        return self.samples

    def add_input(self, name, kind, gen, sign=None, is_int=False):
        a = self.new_atom(name, kind, None, sign, is_int)
        if self.samples is None:
            self.get_samples()
        for s in self.samples:
            s[a.id] = gen(self.rng)
        return a

    def filter_samples(self, b):
        if b.ev is None:
            return
        keep = []
        for s in self.get_samples():
            try:
                r = b.ev(s)
            except (KeyError, ZeroDivisionError, ValueError, OverflowError):
                r = None
            if r is not False:
                keep.append(s)
        self.samples = keep

    def sample_says(self, b):
        """some sample satisfies b"""
        if b.ev is None:
            return False
        for s in self.get_samples():
            try:
                if b.ev(s) is True:
                    return True
            except (KeyError, ZeroDivisionError, ValueError, OverflowError):
                pass
        return False

    # -- solver ------------------------------------------------------------
    def _cone(self, exprs):
        want = set()
        for e in exprs:
            want |= zvars(e)
        cons = []
        pool = list(self.cons)
        done_ax = set()
        changed = True
        while changed:
            changed = False
            for n in list(want):
                if n not in done_ax:
                    done_ax.add(n)
                    for ax in self.axioms.get(n, ()):
                        cons.append(ax)
                        want |= zvars(ax)
                    changed = True
            rest = []
            for e, vs in pool:
                if vs & want:
                    cons.append(e)
                    want |= vs
                    changed = True
                else:
                    rest.append((e, vs))
            pool = rest
        return cons

    def all_cons(self):
        out = []
        for n, axs in self.axioms.items():
            out.extend(axs)
        out.extend(e for e, _ in self.cons)
        return out

    def solve(self, exprs, timeout=BIG_TIMEOUT, cone=True, extra=()):
        t0 = time.time()
        cons = self._cone(exprs) if cone else self.all_cons()
        goals = list(cons) + list(exprs) + list(extra)
        self.stats.queries += 1
        r, m = run_solver(goals, timeout)
        self.stats.solver_s += time.time() - t0
        if r == "unsat":
            self.stats.unsat += 1
        elif r == "sat":
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return r, m

    def model_inputs(self, m):
        out = {}
        for a in self.atoms:
            if a.kind != "input":
                continue
            z = a.z.arg(0) if a.is_int else a.z
            v = m.eval(z, model_completion=True)
            out[a.id] = zval(v)
        return out

    def add_model_sample(self, m):
        d = self.model_inputs(m)
        self.get_samples().append(Vals(self, d))

    # -- log -----------------------------------------------------------------
    def replaying(self):
        return len(self.log) < len(self.prefix)

    def _next(self, tag):
        if len(self.log) < len(self.prefix):
            e = self.prefix[len(self.log)]
            if e[0] != tag:
                raise SymbolicUnsupported(f"re-execution diverged: {e[0]} vs {tag}")
            self.log.append(e)
            return e
        return None

    def path_bools(self):
        return self.bool_cons

    def add_cons(self, b):
        e = b.e
        self.bool_cons.append(b)
        self.cons.append((e, zvars(e)))
        self.filter_samples(b)

    def feas(self, b, timeout=FEAS_TIMEOUT):
        if self.sample_says(b):
            return True
        r, m = self.solve([b.e], timeout)
        if r == "sat":
            # a model of everything, for later sampling
            if len(self.get_samples()) < 3:
                r2, m2 = self.solve([b.e], timeout, cone=False)
                if r2 == "sat":
                    self.add_model_sample(m2)
                elif r2 == "unsat":
                    return False
            return True
        return r != "unsat"

    def feasible(self, b):
        e = self._next("f")
        if e is not None:
            return e[1]
        r = self.feas(b)
        self.log.append(("f", r))
        return r

    def branch(self, b):
        if not isinstance(b, SymBool):
            b = SymBool(b)
        e = self._next("b")
        if e is None:
            self.x.check_time()
            t = self.feas(b)
            f = self.feas(~b) if t else True
            if t and f:
                self.x.push(self.log + [("b", False)])
                e = ("b", True)
            else:
                e = ("b", bool(t))
            self.log.append(e)
        v = e[1]
        self.add_cons(b if v else ~b)
        return v

    def assume(self, b):
        if isinstance(b, bool):
            if not b:
                raise PathEnd()
            return
        if not isinstance(b, SymBool):
            b = SymBool(b)
        e = self._next("a")
        if e is None:
            ok = self.feas(b)
            e = ("a", ok)
            self.log.append(e)
        if not e[1]:
            raise PathEnd()
        self.add_cons(b)

    # -- signs ------------------------------------------------------------
    def quick_sign(self, p):
        pos = neg = False
        for m, c in p.t.items():
            s = 1 if c > 0 else -1
            strict = True
            for i, e in m:
                a = self.get_atom(i)
                sg = a.sign
                if sg == "+":
                    continue
                if sg == "-":
                    if e % 2:
                        s = -s
                    continue
                if e % 2 == 0:
                    strict = False
                    continue
                if sg == "0+":
                    strict = False
                    continue
                return None
            if strict:
                if s > 0:
                    pos = True
                else:
                    neg = True
            else:
                if s > 0:
                    pos = pos or None
                else:
                    neg = neg or None
            if pos is not False and neg is not False:
                return None
        if pos:
            return 1
        if neg:
            return -1
        return None

    def nonneg_quick(self, p):
        """syntactic p >= 0 / p <= 0"""
        sg = None
        for m, c in p.t.items():
            s = 1 if c > 0 else -1
            for i, e in m:
                a = self.get_atom(i)
                if a.sign in ("+", "0+") or e % 2 == 0:
                    continue
                if a.sign == "-":
                    s = -s
                    continue
                return None
            if sg is None:
                sg = s
            elif sg != s:
                return None
        return sg

    def _ask_sign(self, key, p, strict):
        k = (key, p)
        if k in self.memo:
            return self.memo[k]
        e = self._next("s")
        if e is None:
            e = ("s", self._sign(p, strict))
            self.log.append(e)
        self.memo[k] = e[1]
        return e[1]

    def span(self, p):
        """interval that holds every value of p, from the bounds of its inputs, or None"""
        lo = hi = Fraction(0)
        for m, c in p.t.items():
            a, b = Fraction(c), Fraction(c)
            for i, e in m:
                r = self.get_atom(i).span
                if r is None:
                    return None
                u, v = r[0] ** e, r[1] ** e
                if e % 2 == 0 and r[0] < 0:
                    u, v = (Fraction(0), max(u, v)) if r[1] > 0 else (v, u)
                k = (a * u, a * v, b * u, b * v)
                a, b = min(k), max(k)
            lo, hi = lo + a, hi + b
        return lo, hi

    def surely_positive(self, x):
        """decided by the bounds of the inputs alone"""
        s = 1
        for f, e in [(x.n, 1)] + list(x.d.items()):
            if e % 2 == 0:
                continue
            t = self.quick_sign(f)
            if t is None:
                r = self.span(f)
                t = 0 if r is None else 1 if r[0] > 0 else -1 if r[1] < 0 else 0
            s *= t
        return s == 1

    def _sign(self, p, strict):
        r = self.span(p)
        if r is not None:
            if r[0] > 0:
                return 1
            if r[1] < 0:
                return -1
        seen = set()
        for s in self.get_samples():
            try:
                v = p.evaluate(s)
            except (KeyError, ZeroDivisionError, ValueError, OverflowError):
                continue
            if abs(v) > 1e-9:
                seen.add(v > 0)
            elif v == 0 and strict:
                return None
        if len(seen) == 2:
            return None
        z = self.poly_z3(p)
        if True in seen or not seen:
            if self.solve([z <= 0 if strict else z < 0], FEAS_TIMEOUT)[0] == "unsat":
                return 1
        if False in seen or not seen:
            if self.solve([z >= 0 if strict else z > 0], FEAS_TIMEOUT)[0] == "unsat":
                return -1
        return None

    def sign_of(self, p):
        s = self.quick_sign(p)
        if s is not None:
            return s
        return self._ask_sign("sg", p, True)

    def sign_of_rf(self, x):
        s = 1
        for f, e in x.d.items():
            if e % 2:
                t = self.sign_of(f)
                if t is None:
                    return None
                s *= t
        t = self.nonneg_quick(x.n)
        if t is None:
            t = self._ask_sign("sgn0", x.n, False)
        return None if t is None else s * t

    def divisor(self, x):
        """x is about to be divided by: its numerator must not vanish"""
        n = sym._primitive(x.n)
        k = ("div", n)
        if k in self.memo:
            return
        if self.quick_sign(n) is None:
            b = n_ne0(self, n)
            if self.x.div == "assume":
                self.assume(b)
                self.x.note("divisions by expressions that can vanish are outside the claim (assumed non-zero)")
            elif not self.branch(b):
                raise ZeroDivisionError("division by zero")
        self.memo[k] = True

    # -- derived atoms ------------------------------------------------------
    def sqrt_atom(self, x, hint=None):
        if x.is_const():
            c = x.const()
            return const_sqrt_ctx(self, c)
        k = ("sqrt", x.key())
        r = self.memo.get(k)
        if r is not None:
            return r
        r = self._sqrt(x)
        self.memo[k] = r
        return r

    def _sqrt(self, x):
        # even denominators out
        out = SymReal(POLY_ONE)
        dd = {}
        for f, e in x.d.items():
            h, r = divmod(e, 2)
            if h:
                out = out / sym.s_abs(SymReal(f)) ** h
            if r:
                dd[f] = 1
        n = x.n
        # numeric content
        pn = sym._primitive(n)
        lead = n.lead()
        c = n.t[lead] / pn.t[lead]
        if c != 1:
            out = out * s_sqrt(SymReal(Poly.const(c)))
        # monomial content with even exponents
        common = None
        for m in pn.t:
            d = dict(m)
            common = d if common is None else {i: min(e, d[i]) for i, e in common.items() if i in d}
            if not common:
                break
        if common:
            from .poly import mono_div
            ev = tuple(sorted((i, e - e % 2) for i, e in common.items() if e >= 2))
            if ev:
                pn = Poly({mono_div(m, ev): cc for m, cc in pn.t.items()})
                for i, e in ev:
                    out = out * sym.s_abs(SymReal(Poly.atom(i))) ** (e // 2)
        if pn.is_const() and not dd:
            return out * s_sqrt(SymReal(pn))
        root = None
        if not dd:
            root = poly_sqrt(pn)
        if root is not None:
            s = self.sign_of_rf(SymReal(root))
            if s is not None:
                return out * (SymReal(root) if s > 0 else -SymReal(root))
        # sqrt(n/d) = sqrt(n*d)/|d| keeps atoms polynomial
        if dd:
            den = POLY_ONE
            for f in dd:
                den = den.mul(f)
            q = SymReal(pn.mul(den))
            if len(q.n.t) < 200:
                return out * self.sqrt_atom(q) / sym.s_abs(SymReal(den))
        base = SymReal.make(pn, dd)
        if base.n != pn or base.d != dd:
            return out * self.sqrt_atom(base)
        k = ("sqrt", base.key())
        if k in self.memo:
            return out * self.memo[k]
        strict = self.quick_sign(pn)
        a = self.new_atom(f"sqrt_{len(self.atoms)}", "sqrt",
                          lambda v, b=base: math.sqrt(rf_eval(b, v)),
                          "+" if strict == 1 else "0+")
        zn, zd = self.rf_z3(base)
        self.axiom(a, a.z >= 0 if strict != 1 else a.z > 0, a.z * a.z * zd == zn if zd is not None else a.z * a.z == zn)
        self.sq_rules[a.id] = (base.n, dict(base.d))
        r = SymReal(Poly.atom(a.id))
        self.memo[k] = r
        return out * r

    def abs_poly(self, p):
        """|p| for a polynomial"""
        s = self.quick_sign(p)
        if s is not None:
            return SymReal(p if s > 0 else p.neg())
        k = ("abs", p)
        r = self.memo.get(k)
        if r is not None:
            return r
        from .poly import mono_div
        pn = sym._primitive(p)
        l = p.lead()
        out = SymReal(Poly.const(abs(p.t[l] / pn.t[l])))
        common = None
        for m in pn.t:
            d = dict(m)
            common = d if common is None else {i: min(e, d[i]) for i, e in common.items() if i in d}
            if not common:
                break
        if common:
            ev = tuple(sorted(common.items()))
            pn = Poly({mono_div(m, ev): c for m, c in pn.t.items()})
            for i, e in ev:
                if e % 2 == 0:
                    out = out * SymReal(Poly.atom(i).pow(e))
                else:
                    out = out * self._abs_atom(Poly.atom(i)) * SymReal(Poly.atom(i).pow(e - 1))
        if pn.is_const():
            out = out * abs(pn.const_value())
        else:
            sg = self.sign_of(pn)
            out = out * (self._abs_atom(pn) if sg is None else SymReal(pn if sg > 0 else pn.neg()))
        self.memo[k] = out
        return out

    def _abs_atom(self, p):
        s = self.quick_sign(p)
        if s is not None:
            return SymReal(p if s > 0 else p.neg())
        q = sym._primitive(p)
        k = ("absatom", q)
        r = self.memo.get(k)
        if r is None:
            a = self.new_atom(f"abs_{len(self.atoms)}", "abs", lambda v, q=q: abs(q.evaluate(v)), "0+")
            z = self.poly_z3(q)
            self.axiom(a, a.z == z3.If(z >= 0, z, -z))
            self.sq_rules[a.id] = (q.pow(2), {})
            r = self.memo[k] = SymReal(Poly.atom(a.id))
        return r

    def _int_atom(self, x, name, mk, ev):
        k = (name, x.key())
        r = self.memo.get(k)
        if r is None:
            a = self.new_atom(f"{name}_{len(self.atoms)}", name, lambda v: ev(rf_eval(x, v)), None, True)
            q = self.new_atom(f"{name}arg_{len(self.atoms)}", "arg", lambda v: rf_eval(x, v))
            n, d = self.rf_z3(x)
            self.axiom(q, q.z * d == n if d is not None else q.z == n)
            self.axiom(a, *mk(a.z, q.z))
            r = SymReal(Poly.atom(a.id), None, True)
            self.memo[k] = r
        return r

    def floor_atom(self, x):
        return self._int_atom(x, "floor", lambda a, q: [a <= q, q < a + 1], math.floor)

    def round_atom(self, x):
        return self._int_atom(x, "round", lambda a, q: [a - zq(Fraction(1, 2)) <= q, q <= a + zq(Fraction(1, 2))],
                              lambda v: round(v))

    def trig_atom(self, x):
        """(cos x, sin x) for a symbolic x"""
        if not x.d and len(x.n.t) == 1:
            (m, c), = x.n.t.items()
            base = self.trig.get(m)
            if base is not None:
                c0, C, S = base
                q = c / c0
                k = round(q)
                if k and abs(float(q) - k) < 1e-9:
                    a, b = SymReal(POLY_ONE), SymReal(ZERO)
                    for _ in range(abs(k)):
                        a, b = a * C - b * S, b * C + a * S
                    return (a, b) if k > 0 else (a, -b)
            k = ("trig", m, c)
        else:
            m = None
            k = ("trig", x.key())
        if k in self.memo:
            return self.memo[k]
        cc = self.new_atom(f"cos_{len(self.atoms)}", "cos", lambda v: math.cos(rf_eval(x, v)))
        ss = self.new_atom(f"sin_{len(self.atoms)}", "sin", lambda v: math.sin(rf_eval(x, v)))
        self.axiom(cc, cc.z * cc.z + ss.z * ss.z == 1, cc.z <= 1, cc.z >= -1, ss.z <= 1, ss.z >= -1)
        self.axiom(ss, cc.z * cc.z + ss.z * ss.z == 1)
        # cosine/sine bounds tie the pair to its argument near zero (Taylor)
        n, d = self.rf_z3(x)
        if d is None:
            self.axiom(cc, z3.Implies(n == 0, z3.And(cc.z == 1, ss.z == 0)))
        self.sq_rules[ss.id] = (POLY_ONE.sub(Poly.atom(cc.id).pow(2)), {})
        r = SymReal(Poly.atom(cc.id)), SymReal(Poly.atom(ss.id))
        self.memo[k] = r
        if m is not None:
            self.trig.setdefault(m, (c, r[0], r[1]))
        return r

    def angle_atom(self, y, x):
        k = ("atan2", y.key(), x.key())
        if k in self.memo:
            return self.memo[k]
        # simplify on the axes
        s = self.sign_of_rf(y) if not y.n.is_zero() else 0
        pi = Fraction(repr(math.pi))
        if y.n.is_zero():
            if x >= 0:
                r = SymReal(ZERO)
            else:
                r = SymReal(Poly.const(pi))
            self.memo[k] = r
            return r
        if x.n.is_zero():
            r = SymReal(Poly.const(pi / 2)) if y > 0 else SymReal(Poly.const(-pi / 2))
            self.memo[k] = r
            return r
        rad = s_sqrt(x * x + y * y)
        a = self.new_atom(f"ang_{len(self.atoms)}", "ang",
                          lambda v: math.atan2(rf_eval(y, v), rf_eval(x, v)))
        C, S = x / rad, y / rad
        self.trig[((a.id, 1),)] = (Fraction(1), C, S)
        yn, yd = self.rf_z3(y)
        xn, xd = self.rf_z3(x)
        yz = yn * yd if yd is not None else yn
        xz = xn * xd if xd is not None else xn
        P = zq(pi)
        H = zq(pi / 2)
        self.axiom(a, a.z <= P, a.z >= -P, z3.Implies(yz > 0, a.z > 0), z3.Implies(yz < 0, a.z < 0),
                   z3.Implies(xz > 0, z3.And(a.z < H, a.z > -H)),
                   z3.Implies(xz < 0, z3.Or(a.z > H, a.z < -H)),
                   z3.Implies(z3.And(yz == 0, xz >= 0), a.z == 0),
                   z3.Implies(z3.And(yz == 0, xz < 0), a.z == P))
        r = SymReal(Poly.atom(a.id))
        self.memo[k] = r
        return r

    def root_atom(self, x, k):
        """the positive k-th root of a positive value"""
        key = ("root", k, x.key())
        if key not in self.memo:
            pos = True if self.surely_positive(x) else x > 0
            if pos is False or (isinstance(pos, SymBool) and self.feasible(~pos) and not bool(pos)):
                raise SymbolicUnsupported(f"root of a value that is not positive")
            a = self.new_atom(f"root_{len(self.atoms)}", "root", lambda v: rf_eval(x, v) ** (1.0 / k), "+")
            a.root = (x, k)
            self.axiom(a, a.z > 0)
            self.memo[key] = SymReal(Poly.atom(a.id))
        return self.memo[key]

    def opaque_inverse(self, rows):
        """the inverse of a matrix as a function of its entries: equal matrices have equal inverses"""
        n = len(rows)
        for other, inv in self.inverses:
            if len(other) == n and all(self._same_value(x, y) for r, s in zip(rows, other) for x, y in zip(r, s)):
                return inv
        import numpy as np
        cache = {}

        def value(vals, i, j, part):
            k = id(vals)
            if cache.get("k") is not vals:
                m = np.array([[complex(float(rf_eval(x.re, vals)), float(rf_eval(x.im, vals))) for x in r] for r in rows])
                cache["k"], cache["m"] = vals, np.linalg.inv(m)
            z = cache["m"][i, j]
            return float(z.real if part == 0 else z.imag)
        inv = []
        for i in range(n):
            row = []
            for j in range(n):
                parts = []
                for part in (0, 1):
                    a = self.new_atom(f"inv{len(self.inverses)}_{i}{j}{'ri'[part]}", "inv", lambda v, i=i, j=j, p=part: value(v, i, j, p))
                    parts.append(SymReal(Poly.atom(a.id)))
                row.append(sym.SymComplex(*parts))
            inv.append(row)
        self.inverses.append((rows, inv))
        return inv

    def inverse_product(self, a, b):
        """the size of the identity that the product of a matrix and its inverse is, or None"""
        for rows, inv in self.inverses:
            n = len(rows)
            for x, y in ((a, b), (b, a)):
                if len(y) == n == len(x) and all(len(r) == n for r in x) and all(u is v for r, s in zip(y, inv) for u, v in zip(r, s)):
                    if all(self._same_value(sym.SymComplex.of(u), v) for r, s in zip(x, rows) for u, v in zip(r, s)):
                        return n
        return None

    def _same_value(self, x, y):
        for u, v in ((x.re, y.re), (x.im, y.im)):
            d = u - v
            if d.n.is_zero():
                continue
            top = {}
            for w in (u, v):
                if w.d != d.d:
                    return False
                for m, c in w.n.t.items():
                    top[m] = max(top.get(m, 0), abs(c))
            if any(abs(c) > Fraction(1, 10 ** 11) * top.get(m, 0) for m, c in d.n.t.items()):
                return False
        return True

    def func_atom(self, name, x, positive=False):
        k = (name, x.key())
        if k not in self.memo:
            f = getattr(math, name)
            a = self.new_atom(f"{name}_{len(self.atoms)}", name, lambda v: f(rf_eval(x, v)), "+" if positive else None)
            if positive:
                self.axiom(a, a.z > 0)
            self.memo[k] = SymReal(Poly.atom(a.id))
        return self.memo[k]

    def log_const(self, c):
        """additive over products: the logarithms of the factors are fixed rationals"""
        c = Fraction(c)
        out = Fraction(0)
        for n, sign in ((c.numerator, 1), (c.denominator, -1)):
            for p in _SMALL:
                e = 0
                while n % p == 0:
                    n //= p
                    e += 1
                if e:
                    out += sign * e * _log_rational(p)
            if n > 1:
                out += sign * _log_rational(n)
        return SymReal(Poly.const(out))

    def log_of(self, x):
        """log of a positive rational function, split over its factors"""
        out = SymReal(ZERO)
        c, facs = sym._den_norm(x.n)
        if c < 0 or any(self.sign_of(f) is None for f, _ in facs) or any(self.sign_of(f) is None for f in x.d):
            return self._log_atom(x)
        c = abs(c)
        if c != 1:
            out = out + self.log_const(c)
        for f, e in facs:
            g = f if self.sign_of(f) > 0 else f.neg()
            out = out + self._log_poly(g) * e
        for f, e in x.d.items():
            g = f if self.sign_of(f) > 0 else f.neg()
            out = out - self._log_poly(g) * e
        return out

    def _log_poly(self, p):
        pp = sym._primitive(p)
        l = p.lead()
        c = p.t[l] / pp.t[l]
        if len(pp.t) == 1:
            # single atom that is a square root: log a = log(a^2)/2
            (m, cc), = pp.t.items()
            if len(m) == 1 and m[0][1] == 1 and self.get_atom(m[0][0]).kind == "root":
                x, k = self.get_atom(m[0][0]).root
                return self.log_of(x) / k + (self.log_const(c * cc) if c * cc != 1 else 0)
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.sq_rules and self.get_atom(m[0][0]).kind == "sqrt":
                rp, rd = self.sq_rules[m[0][0]]
                return self.log_of(SymReal(rp, dict(rd))) / 2 + (self.log_const(c * cc) if c * cc != 1 else 0)
        r = self._log_atom(SymReal(pp))
        return r if c == 1 else r + self.log_const(c)

    def _log_atom(self, x):
        return self.func_atom("log", x)

    def concretize(self, x):
        if x.is_const():
            return int(x.const())
        for _ in range(200):
            v = self._candidate(x)
            if bool(x == v):
                return v
        raise SymbolicUnsupported("unbounded integer used concretely")

    def _candidate(self, x):
        e = self._next("v")
        if e is None:
            v = None
            for s in self.get_samples():
                try:
                    v = int(round(float(rf_eval(x, s))))
                    break
                except (KeyError, ZeroDivisionError, ValueError, OverflowError):
                    pass
            if v is None:
                n, d = self.rf_z3(x)
                q = z3.Real("conc!")
                r, m = self.solve([q * d == n if d is not None else q == n])
                if r != "sat":
                    raise SymbolicUnsupported("cannot concretise")
                v = int(round(float(zval(m.eval(q, model_completion=True)))))
            e = ("v", v)
            self.log.append(e)
        return e[1]


def n_ne0(c, n):
    return SymBool(c.poly_z3(n) != 0, sym._sample_op(n, "ne"))


def const_sqrt_ctx(c, v):
    if v.denominator == 1 and v < 10 ** 12:
        r = const_sqrt(int(v))
        c._const_axiom(CONST_ATOMS[-int(v)])
        return r
    return to_rf(math.sqrt(float(v)))


def poly_sqrt(p):
    """root r with r^2 == p, or None"""
    if len(p.t) > 60:
        return None
    rem = p
    l = p.lead()
    if any(e % 2 for _, e in l):
        return None
    c = sym._frac_sqrt(p.t[l])
    if c is None:
        return None
    from .poly import mono_div
    m0 = tuple((i, e // 2) for i, e in l)
    root = Poly({m0: c})
    rem = p.sub(root.mul(root))
    for _ in range(30):
        if rem.is_zero():
            return root
        rl = rem.lead()
        d = mono_div(rl, m0)
        if d is None:
            return None
        t = Poly({d: rem.t[rl] / (2 * c)})
        rem = rem.sub(root.mul(t).scale(2)).sub(t.mul(t))
        root = root.add(t)
    return None


def zval(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Inconclusive(f"model value {v}")


def run_solver(goals, timeout):
    try:
        s = z3.Solver()
        s.set("timeout", int(timeout))
        s.set("random_seed", 1)
        s.add(*goals)
        r = s.check()
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", s.model()
        if timeout >= 8000:
            s = z3.SolverFor("QF_NRA")
            s.set("timeout", int(timeout))
            s.add(*goals)
            r = s.check()
            if r == z3.unsat:
                return "unsat", None
            if r == z3.sat:
                return "sat", s.model()
        return "unknown", None
    except z3.Z3Exception as e:
        if "timeout" in str(e) or "canceled" in str(e):
            return "unknown", None
        raise


class Explorer:
    """All feasible paths of one scenario."""

    def __init__(self, fn, seed=1, max_paths=4000, div="fork", nsamples=16, time_limit=600, tier="quick", check_budget=BIG_TIMEOUT):
        self.fn = fn
        self.seed = seed
        self.max_paths = max_paths
        self.div = div
        self.nsamples = nsamples
        self.stats = Stats()
        self.violations = []
        self.work = [[]]
        self.deadline = time.time() + time_limit
        self.notes = []
        self.path_models = []
        self.tier = tier
        self.labels = {}
        self.unsupported = None
        self.check_budget = check_budget
        self.known = {}
        self.unresolved = []
        self.complete = 0
        self.nassert_total = 0
        self.max_conf = 40
        self.sure = 0           # violations with a concrete point that shows them
        self.search_s = 0.0     # time spent on assertions that may fail

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def push(self, prefix):
        self.work.append(prefix)

    def enough(self, factor=1):
        """violations are found and searching for more is taking long"""
        return self.sure >= 3 and self.search_s > 20 * factor

    def check_time(self):
        if time.time() > self.deadline:
            raise Inconclusive("scenario time limit")

    def run(self, mkenv):
        while self.work:
            if self.enough(3):
                self.note("stopped early: violations were found")
                break
            prefix = self.work.pop()
            if self.stats.paths >= self.max_paths:
                raise Inconclusive(f"more than {self.max_paths} paths")
            self.check_time()
            self.stats.paths += 1
            c = Context(self, prefix)
            sym.set_ctx(c)
            env = mkenv(c)
            try:
                self.fn(env)
                env.finish()
            except PathEnd:
                self.stats.cuts += 1
            except (SymbolicUnsupported, Inconclusive, z3.Z3Exception):
                raise
            except PolyTooLarge as e:
                raise SymbolicUnsupported(f"polynomial too large {e}")
            except RecursionError as e:
                raise SymbolicUnsupported("recursion limit")
            except Exception as e:
                env.exception(e)
                env.finish()
            finally:
                sym.set_ctx(BaseContext())
        return self


sym.set_ctx(BaseContext())
