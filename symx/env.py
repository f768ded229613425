"""The two environments a scenario runs in: symbolic (all values) and concrete
(one assignment, unmodified code)."""
import contextlib
import math
import time
import re
from fractions import Fraction

import numpy as np
import z3

from . import sym
from .poly import Poly
from .sym import SymReal, SymBool, SymComplex, SymbolicUnsupported, to_rf, is_sym


class Skip(Exception):
    pass


class _Fail(Exception):
    pass


def _is_num(x):
    return isinstance(x, (int, float, complex, Fraction, np.generic, SymReal, SymComplex)) and not isinstance(x, (bool, np.bool_))


def _is_seq(x):
    return isinstance(x, (list, tuple)) or (isinstance(x, np.ndarray) and x.ndim > 0)


NOISE = Fraction(1, 10 ** 11)


class SymEnv:
    mode = "sym"
    sqrt = staticmethod(sym.s_sqrt)
    cos = staticmethod(sym.s_cos)
    sin = staticmethod(sym.s_sin)
    log = staticmethod(sym.s_log)
    atan2 = staticmethod(sym.s_atan2)
    abs = staticmethod(sym.s_abs)
    pi = math.pi

    def __init__(self, c):
        self.c = c
        self.x = c.x
        self.tier = c.x.tier
        self.names = {}
        self.nassert = 0
        self.tokens = {}
        from . import shims
        shims.TOKENS = self.tokens
        sym.STR_HOOK[0] = None
        shims.LAZY_MAX = False
        sym.SHOWN.clear()

    # ---- inputs ----------------------------------------------------------
    def real(self, name, lo=-10, hi=10, nonzero=False, digits=3):
        if name in self.names:
            raise ValueError("duplicate input " + name)
        lo = Fraction(str(lo))
        hi = Fraction(str(hi))
        sign = "+" if lo > 0 else ("-" if hi < 0 else ("0+" if lo >= 0 else None))
        span = hi - lo

        def gen(r):
            k = r.random()
            v = lo + Fraction(round(k * 997), 997) * span if span else lo
            q = Fraction(round(float(v) * 10 ** digits), 10 ** digits)
            q = q if lo <= q <= hi else v
            if nonzero and q == 0:
                q = hi
            return q
        a = self.c.add_input(name, "input", gen, sign)
        a.span = lo, hi
        self.c.axiom(a, a.z >= sym_q(lo), a.z <= sym_q(hi))
        self.names[name] = a
        v = SymReal(Poly.atom(a.id))
        if nonzero and sign not in ("+", "-"):
            self.assume(v != 0)
        return v

    def pos(self, name, lo=0.1, hi=10, digits=3):
        return self.real(name, lo, hi, digits=digits)

    def int(self, name, lo, hi):
        a = self.c.add_input(name, "input", lambda r: Fraction(r.randint(lo, hi)),
                             "+" if lo > 0 else ("0+" if lo >= 0 else None), True)
        self.c.axiom(a, a.z >= lo, a.z <= hi)
        self.names[name] = a
        return SymReal(Poly.atom(a.id), None, True)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        a = self.int(name, 0, len(options) - 1)
        for i in range(len(options) - 1):
            if bool(a == i):
                return options[i]
        return options[-1]

    def boolean(self, name):
        return self.choice(name, [False, True])

    def cplx(self, name, lo=-10, hi=10):
        return SymComplex(self.real(name + ".re", lo, hi), self.real(name + ".im", lo, hi))

    def mkc(self, re_, im_):
        return SymComplex(re_, im_)

    def lit(self, v):
        """a text token standing for the number v"""
        if not is_sym(v):
            return repr(v)
        k = len(self.tokens)
        t = f"{7000 + k}.{90001 + k}7"
        self.tokens[t] = v
        return t

    def ilit(self, v):
        if not is_sym(v):
            return repr(v)
        k = len(self.tokens)
        t = f"{700000 + k}"
        self.tokens[t] = v
        return t

    def inverse(self, rows):
        """the inverse of a complex matrix"""
        from . import shims
        return shims.linalg.inv(np.array(rows, dtype=object).view(shims.SymArray)).tolist()

    @contextlib.contextmanager
    def texts(self):
        """str() of a symbolic number is a token"""
        sym.STR_HOOK[0] = self.lit
        try:
            yield
        finally:
            sym.STR_HOOK[0] = None

    @contextlib.contextmanager
    def inverse_as_function(self, module, name):
        """module.name (matrix inversion) is encoded as a function of which only its definition is known"""
        from . import shims
        old = getattr(module, name, None)
        setattr(module, name, shims.linalg.opaque)
        try:
            yield
        finally:
            setattr(module, name, old)

    def sqrt(self, x):
        return sym.s_sqrt(x)

    def log(self, x):
        return sym.s_log(x)

    def shown(self, label, text, value, decimals):
        """text must show value, rounded to the given number of decimals"""
        t = str(text).strip()
        if t[:1] == "⟪" and t[-1:] == "⟫":
            v, spec = sym.SHOWN[int(t[1:-1])]
            self.check(label + " precision", spec == f".{decimals}f")
            self.eq(label, v, value)
        else:
            try:
                v = float(t)
            except ValueError:
                return self.check(label, False)
            self.check(label + " precision", len(t.partition(".")[2]) == decimals)
            if is_sym(value):
                d = value - v
                near = self.branch(self.all(d <= 0.51 * 10 ** -decimals, d >= -0.51 * 10 ** -decimals))
            else:
                near = abs(v - value) <= 0.51 * 10 ** -decimals
            self.eq(label, value if near else v, value)

    # ---- logic -------------------------------------------------------------
    def assume(self, cond):
        self.c.assume(cond)

    def branch(self, cond):
        return bool(cond)

    def all(self, *conds):
        r = True
        for c in conds:
            if c is False:
                return False
            if c is True:
                continue
            r = c if r is True else (r & c)
        return r

    def any(self, *conds):
        r = False
        for c in conds:
            if c is True:
                return True
            if c is False:
                continue
            r = c if r is False else (r | c)
        return r

    def lazy_max(self):
        from . import shims
        shims.LAZY_MAX = True

    def note(self, s):
        self.x.note(s)

    # ---- assertions ---------------------------------------------------------
    def _label(self, label):
        self.nassert += 1
        self.x.labels[label] = self.x.labels.get(label, 0) + 1

    def observe(self, label, value):
        self.c.observed.append((label, value))

    def check(self, label, cond, known=None):
        self._label(label)
        if self.c.replaying():
            return
        self.x.stats.asserts += 1
        if isinstance(cond, np.generic):
            cond = bool(cond)
        if cond is True:
            return
        if isinstance(cond, bool) or not isinstance(cond, SymBool):
            if not cond:
                self._violate(label, [], "condition is false")
            return
        nb = ~cond
        self._search(label, [nb.e], [nb], "condition is false")

    def fail(self, label, msg=""):
        self.check(label, False)

    def eq(self, label, actual, expected, tol=1e-6, known=None):
        """actual must equal expected for all values on this path.
        known: (finding id, deviant value) of a recorded finding."""
        self._label(label)
        self.c.observed.append((label, actual))
        if self.c.replaying():
            return
        if known is not None and self._holds(actual, known[1]) and not self._holds(actual, expected):
            self.x.known.setdefault(known[0], label)
            self.x.stats.asserts += 1
            # recorded deviation: remember a witness for the replay
            self._violate(label, [], "recorded finding", known=known[0], pair=(actual, expected))
            return
        self._eq(label, actual, expected)

    def _holds(self, a, b):
        """do a and b agree identically (normal form)?"""
        if _is_seq(a) and _is_seq(b):
            return len(a) == len(b) and all(self._holds(x, y) for x, y in zip(a, b))
        if _is_num(a) and _is_num(b):
            d = SymComplex.of(a) - SymComplex.of(b)
            return all(p.n.is_zero() or self._noise(p, a, b) for p in (d.re, d.im))
        try:
            return bool(a == b)
        except SymbolicUnsupported:
            return False

    def _eq(self, label, actual, expected):
        a, b = actual, expected
        if isinstance(b, dict):
            if not isinstance(a, dict) or set(a) != set(b):
                self.x.stats.asserts += 1
                return self._violate(label, [], f"keys {sorted(map(str, a)) if isinstance(a, dict) else a} != {sorted(map(str, b))}")
            for k in b:
                self._eq(label, a[k], b[k])
            return
        if _is_seq(b):
            if not _is_seq(a) or len(a) != len(b):
                self.x.stats.asserts += 1
                return self._violate(label, [], f"length/shape {a!r} vs {b!r}"[:300])
            for u, v in zip(a, b):
                self._eq(label, u, v)
            return
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        if isinstance(a, (SymBool,)) or isinstance(b, SymBool):
            za, zb = sym.zbool(a), sym.zbool(b)
            self.x.stats.asserts += 1
            return self._search(label, [za != zb], [], "truth values differ")
        if _is_num(a) and _is_num(b):
            for x, y in self._parts(a, b):
                self._eq_real(label, x, y)
            return
        self.x.stats.asserts += 1
        try:
            same = bool(a == b)
        except SymbolicUnsupported:
            same = False
        if not same:
            self._violate(label, [], f"{a!r} != {b!r}"[:300])

    def _parts(self, a, b):
        if sym.is_complexlike(a) or sym.is_complexlike(b):
            a, b = SymComplex.of(a), SymComplex.of(b)
            return [(a.re, b.re), (a.im, b.im)]
        return [(a, b)]

    def _noise(self, d, a, b):
        """difference explained by binary rounding of float constants"""
        a, b = SymComplex.of(a), SymComplex.of(b)
        big = {}
        for part in (a.re, a.im, b.re, b.im):
            n = part
            # bring to d's denominator
            try:
                q = SymReal(n.n, dict(n.d))
                for f, e in d.d.items():
                    q = q * SymReal(f.pow(e))
            except Exception:
                return False
            if q.d:
                return False
            for m, c in q.n.t.items():
                big[m] = max(big.get(m, 0), abs(c))
        top = max(big.values(), default=0)
        for m, c in d.n.t.items():
            if abs(c) > NOISE * max(big.get(m, 0), top / 10 ** 4):
                return False
        return True

    def _eq_real(self, label, a, b):
        st = self.x.stats
        st.asserts += 1
        fa = isinstance(a, (float, np.floating)) and not math.isfinite(a)
        fb = isinstance(b, (float, np.floating)) and not math.isfinite(b)
        if fa or fb:
            if not (fa and fb and (a == b or (a != a and b != b))):
                self._violate(label, [], f"{a} != {b}")
            return
        a, b = to_rf(a), to_rf(b)
        d = a - b
        if d.n.is_zero():
            if a.is_const():
                return
            # the solver confirms the identity on the two independently built sides
            an, ad = self.c.rf_z3(a)
            bn, bd = self.c.rf_z3(b)
            l = an * bd if bd is not None else an
            r = bn * ad if ad is not None else bn
            if len(a.n.t) + len(b.n.t) <= 400:
                res, _ = self.c.solve([l != r], 1500)
            else:
                res = "unknown"
            if res != "unsat":
                st.nf += 1
            return
        if self._noise(d, a, b):
            self.x.note("differences below 1e-11 relative (binary rounding of float constants) are not distinguished")
            st.nf += 1
            return
        nz = d != 0
        if nz is False:
            return
        exprs = [nz.e] if isinstance(nz, SymBool) else []
        # margin version, relative to expected
        marg = None
        if isinstance(nz, SymBool):
            n, dd = self.c.rf_z3(d)
            bn, bd = self.c.rf_z3(b)
            lhs = n * bd if bd is not None else n
            # |d| > 1e-4 * (1 + |b|) with cleared denominators is heavy: use numerators
            marg = [z3.Or(n > sym_q(Fraction(1, 1000)), n < sym_q(Fraction(-1, 1000)))]

        def gap(vals):
            x = float(engine_eval(a, vals))
            y = float(engine_eval(b, vals))
            return abs(x - y) / (1e-9 + max(abs(x), abs(y))) if max(abs(x), abs(y)) > 1e-7 else 0
        self._search(label, exprs, [], "values differ", gap=gap, marg=marg, pair=(a, b))

    # ---- counterexamples -----------------------------------------------------
    def _pin(self, s):
        out = []
        for a in self.c.atoms:
            if a.kind == "input" and a.id in s:
                z = a.z
                out.append(z == sym_q(Fraction(s[a.id])))
        return out

    def _search(self, label, exprs, bools, why, gap=None, marg=None, pair=None):
        if self.x.enough():
            return
        t = time.time()
        try:
            self._search_for(label, exprs, bools, why, gap, marg, pair)
        finally:
            self.x.search_s += time.time() - t

    def _search_for(self, label, exprs, bools, why, gap=None, marg=None, pair=None):
        """solver query for pc and exprs; records a candidate counterexample"""
        c = self.c
        nknown = sum(1 for v in c.violations if v["label"] == label)
        if nknown >= 6:
            return
        # concrete hints first: inputs pinned, the solver decides the rest
        hints = []
        for s in list(c.get_samples()):
            try:
                if gap is not None:
                    g = gap(s)
                    if g > 1e-5:
                        hints.append((g, s))
                elif bools and all(b.ev and b.ev(s) is True for b in bools):
                    hints.append((1, s))
            except (KeyError, ZeroDivisionError, ValueError, OverflowError):
                pass
        hints.sort(key=lambda t: -t[0])
        for g, s in hints[:3]:
            r, m = c.solve(exprs, 4000, cone=False, extra=self._pin(s))
            if r != "unsat" and g > 1e-4:
                self.x.sure += 1
            if r == "sat":
                return self._record(label, c.model_inputs(m), why, pair)
            if r == "unknown":
                # let the replay judge this point
                self._record(label, {a.id: s[a.id] for a in c.atoms if a.kind == "input"}, why, pair)
                return
        if marg is not None:
            r, m = c.solve(exprs + marg, 4000, cone=False)
            if r == "sat":
                self._record(label, c.model_inputs(m), why, pair)
                return
        budget = min(self.x.check_budget, 3000) if self.x.sure else self.x.check_budget
        r, m = c.solve(exprs, budget)
        if r == "unsat":
            return
        if r == "sat":
            r2, m2 = c.solve(exprs, budget, cone=False)
            if r2 == "sat":
                self._record(label, c.model_inputs(m2), why, pair)
                return
            if r2 == "unsat":
                return
        self.x.unresolved.append(label)

    def _violate(self, label, exprs, why, known=None, pair=None):
        """the assertion fails on every value of this path: pick one"""
        c = self.c
        n = sum(1 for v in c.violations if v["label"] == label and v.get("known") == known)
        if n >= (1 if known else 6):
            return
        m = self.path_point(gap_pair=pair)
        if m is None:
            self.x.unresolved.append(label + " (no model of the path)")
            return
        self._record(label, m, why, pair, known)

    def path_point(self, gap_pair=None):
        c = self.c
        best = None
        for s in c.get_samples():
            try:
                if all(self._ev(b, s) for b in c.path_bools()):
                    if gap_pair is not None:
                        g = 0
                        for x, y in self._flat(*gap_pair):
                            xv, yv = complex(ev_num(x, s)), complex(ev_num(y, s))
                            g = max(g, abs(xv - yv) / (1e-9 + max(abs(xv), abs(yv))))
                        if best is None or g > best[0]:
                            best = (g, s)
                        continue
                    best = (1, s)
                    break
            except (KeyError, ZeroDivisionError, ValueError, OverflowError, TypeError):
                continue
        if best is not None:
            s = best[1]
            return {a.id: s[a.id] for a in c.atoms if a.kind == "input"}
        r, m = c.solve([], 10000, cone=False)
        if r != "sat":
            return None
        return c.model_inputs(m)

    def _flat(self, a, b):
        if _is_seq(a):
            for x, y in zip(a, b):
                yield from self._flat(x, y)
        elif _is_num(a) and _is_num(b):
            yield a, b

    @staticmethod
    def _ev(b, s):
        if b.ev is None:
            return False
        return b.ev(s) is True

    def _record(self, label, vals, why, pair=None, known=None):
        c = self.c
        inp = {}
        for a in c.atoms:
            if a.kind == "input":
                v = vals.get(a.id, Fraction(0))
                inp[a.name] = int(v) if a.is_int else float(v)
        detail = ""
        if pair is not None:
            try:
                detail = f"{pair[0]!r} vs {pair[1]!r}"[:600]
            except Exception:
                pass
        c.violations.append(dict(label=label, inputs=inp, why=why, detail=detail, known=known))

    def exception(self, e):
        """the scenario let an exception of the code under test escape"""
        import traceback
        tb = traceback.format_exception(type(e), e, e.__traceback__)
        self._violate("exception", [], f"{type(e).__name__}: {e} :: " + " | ".join(x.strip() for x in tb[-3:]))

    # ---- end of path ----------------------------------------------------------
    def finish(self):
        if self.c.replaying():
            return
        if len(self.x.path_models) < self.x.max_conf and self.c.observed:
            m = self.path_point()
            if m is not None:
                from .engine import Vals
                vals = Vals(self.c, m)
                obs = []
                for l, v in self.c.observed:
                    try:
                        obs.append([l, num_json(v, vals)])
                    except (KeyError, ZeroDivisionError, ValueError, OverflowError, TypeError):
                        obs.append([l, None])
                inp = {a.name: (int(m[a.id]) if a.is_int else float(m[a.id])) for a in self.c.atoms if a.kind == "input"}
                self.x.path_models.append(dict(inputs=inp, observed=obs))
        self.x.complete += 1
        self.x.nassert_total += self.nassert

    def raises(self, fn, *types):
        """call fn; return (exception or None, result)"""
        types = types or (Exception,)
        try:
            return None, fn()
        except SymbolicUnsupported:
            raise
        except types as e:
            return e, None


def ev_num(v, vals):
    if isinstance(v, SymReal):
        return engine_eval(v, vals)
    if isinstance(v, SymComplex):
        return complex(float(engine_eval(v.re, vals)), float(engine_eval(v.im, vals)))
    return v


def engine_eval(x, vals):
    from .engine import rf_eval
    return rf_eval(x, vals)


def sym_q(f):
    return z3.Q(f.numerator, f.denominator)


def num_json(v, vals=None):
    """JSON-able numeric picture of a value"""
    if isinstance(v, SymReal):
        return float(engine_eval(v, vals))
    if isinstance(v, SymComplex):
        return [float(engine_eval(v.re, vals)), float(engine_eval(v.im, vals))]
    if isinstance(v, SymBool):
        r = v.ev(vals) if v.ev else None
        return r
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, (complex, np.complexfloating)):
        return [float(v.real), float(v.imag)]
    if isinstance(v, dict):
        return {str(k): num_json(x, vals) for k, x in sorted(v.items(), key=lambda t: str(t[0]))}
    if _is_seq(v):
        return [num_json(x, vals) for x in v]
    if isinstance(v, np.ndarray):
        return num_json(v.item(), vals)
    return None if v is None else str(v) if isinstance(v, str) else type(v).__name__


def json_close(a, b, tol=1e-5):
    """do two pictures agree?  Real/complex forms of one number are equal."""
    if a is None:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1e-3, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, (int, float)):
        return len(a) == 2 and json_close(a[0], b, tol) and json_close(a[1], 0, tol)
    if isinstance(b, list) and isinstance(a, (int, float)):
        return json_close(b, a, tol)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(json_close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(json_close(a[k], b[k], tol) for k in a)
    return a == b


class AssumeFailed(BaseException):
    pass


class ConcreteEnv:
    mode = "concrete"
    sqrt = staticmethod(math.sqrt)
    cos = staticmethod(math.cos)
    sin = staticmethod(math.sin)
    log = staticmethod(math.log)
    atan2 = staticmethod(math.atan2)
    abs = staticmethod(abs)
    pi = math.pi

    def __init__(self, inputs, tier="quick"):
        self.inputs = inputs
        self.tier = tier
        self.failures = []
        self.observed = []

    def _get(self, name):
        if name not in self.inputs:
            raise AssumeFailed("no value for " + name)
        return self.inputs[name]

    def real(self, name, lo=None, hi=None, nonzero=False, digits=3):
        return float(self._get(name))

    pos = real

    def int(self, name, lo, hi):
        return int(self._get(name))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name))]

    def boolean(self, name):
        return self.choice(name, [False, True])

    def cplx(self, name, lo=None, hi=None):
        return complex(self.real(name + ".re"), self.real(name + ".im"))

    def mkc(self, a, b):
        return complex(a, b)

    def lit(self, v):
        return repr(float(v)) if isinstance(v, (float, np.floating)) else repr(v)

    def ilit(self, v):
        return repr(int(v))

    def inverse(self, rows):
        return np.linalg.inv(np.array(rows, dtype=complex)).tolist()

    @contextlib.contextmanager
    def texts(self):
        yield

    @contextlib.contextmanager
    def inverse_as_function(self, module, name):
        yield

    def sqrt(self, x):
        return math.sqrt(x)

    def log(self, x):
        return math.log(x)

    def shown(self, label, text, value, decimals):
        try:
            v = float(text)
        except ValueError:
            return self.check(label, False)
        self.check(label + " precision", len(str(text).strip().partition(".")[2]) == decimals)
        self.eq(label, value if abs(v - value) <= 0.51 * 10 ** -decimals else v, value)

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def branch(self, cond):
        return bool(cond)

    def all(self, *conds):
        return all(bool(c) for c in conds)

    def any(self, *conds):
        return any(bool(c) for c in conds)

    def lazy_max(self):
        pass

    def note(self, s):
        pass

    def observe(self, label, value):
        self.observed.append([label, num_json(value)])

    def check(self, label, cond, known=None):
        if not cond:
            self.failures.append(dict(label=label, actual=None, expected=None))

    def fail(self, label, msg=""):
        self.failures.append(dict(label=label, actual=msg, expected=None))

    def eq(self, label, actual, expected, tol=1e-6, known=None):
        self.observed.append([label, num_json(actual)])
        if not self._same(actual, expected, tol):
            self.failures.append(dict(label=label, actual=num_json(actual), expected=num_json(expected)))

    def _same(self, a, b, tol):
        if isinstance(b, dict):
            return isinstance(a, dict) and set(a) == set(b) and all(self._same(a[k], b[k], tol) for k in b)
        if _is_seq(b):
            return _is_seq(a) and len(a) == len(b) and all(self._same(x, y, tol) for x, y in zip(a, b))
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        if _is_num(a) and _is_num(b):
            a, b = complex(a), complex(b)
            if a == b:
                return True
            if a != a or b != b:
                return a != a and b != b
            return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-12
        try:
            return bool(a == b)
        except Exception:
            return False

    def exception(self, e):
        self.failures.append(dict(label="exception", actual=f"{type(e).__name__}: {e}", expected=None))

    def raises(self, fn, *types):
        types = types or (Exception,)
        try:
            return None, fn()
        except types as e:
            return e, None
