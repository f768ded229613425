"""Reference physics of the network elements, written from the textbook two-port
relations, with first and second derivatives.  Works on symbolic and on float
values.  A reference element yields contributions (row, multiplier, value): the
equation row in plain power flow, the index of its Lagrange multiplier, and the
value of the equation at the state."""


class Jet:
    """value, gradient, Hessian over the state indices"""
    __slots__ = ("v", "g", "h")

    def __init__(self, v, g=None, h=None):
        self.v = v
        self.g = g or {}
        self.h = h or {}

    @staticmethod
    def of(x):
        return x if isinstance(x, Jet) else Jet(x)

    def __add__(self, o):
        o = Jet.of(o)
        return Jet(self.v + o.v, _add(self.g, o.g), _add(self.h, o.h))

    __radd__ = __add__

    def __neg__(self):
        return Jet(-self.v, {k: -x for k, x in self.g.items()}, {k: -x for k, x in self.h.items()})

    def __sub__(self, o):
        return self + (-Jet.of(o))

    def __rsub__(self, o):
        return Jet.of(o) + (-self)

    def __mul__(self, o):
        if not isinstance(o, Jet):
            return Jet(self.v * o, {k: x * o for k, x in self.g.items()}, {k: x * o for k, x in self.h.items()})
        g = _add({k: x * o.v for k, x in self.g.items()}, {k: x * self.v for k, x in o.g.items()})
        h = _add({k: x * o.v for k, x in self.h.items()}, {k: x * self.v for k, x in o.h.items()})
        for i, a in self.g.items():
            for j, b in o.g.items():
                h[i, j] = h[i, j] + a * b if (i, j) in h else a * b
                h[j, i] = h[j, i] + a * b if (j, i) in h else a * b
        return Jet(self.v * o.v, g, h)

    __rmul__ = __mul__

    def inv(self):
        i = 1 / self.v
        i2 = i * i
        g = {k: -x * i2 for k, x in self.g.items()}
        h = {k: -x * i2 for k, x in self.h.items()}
        for a, x in self.g.items():
            for b, y in self.g.items():
                t = 2 * x * y * i2 * i
                h[a, b] = h[a, b] + t if (a, b) in h else t
        return Jet(i, g, h)

    def __truediv__(self, o):
        if isinstance(o, Jet):
            return self * o.inv()
        return self * (1 / o)

    def __rtruediv__(self, o):
        return self.inv() * o


def _add(a, b):
    r = dict(a)
    for k, x in b.items():
        r[k] = r[k] + x if k in r else x
    return r


class State:
    """the unknowns as jets"""

    def __init__(self, v):
        self.v = v

    def x(self, i):
        return Jet(0) if i is None else Jet(self.v[i], {i: 1})

    def V(self, bus):
        return self.x(bus.node_Vr), self.x(bus.node_Vi)


def cmul(a, z):
    """complex constant (re, im) times complex jet"""
    return a[0] * z[0] - a[1] * z[1], a[0] * z[1] + a[1] * z[0]


def sub(a, b):
    return a[0] - b[0], a[1] - b[1]


def two(f, t, I):
    """current I leaves bus f and enters bus t"""
    for b, s in ((f, 1), (t, -1)):
        yield b.node_Vr, b.node_lambda_Vr, I[0] * s
        yield b.node_Vi, b.node_lambda_Vi, I[1] * s


def admittance(f, t, y):
    return lambda s: two(f, t, cmul(y, sub(s.V(f), s.V(t))))


def power(f, t, P, Q):
    """S = V conj(I)"""
    def fn(s):
        v = sub(s.V(f), s.V(t))
        m = v[0] * v[0] + v[1] * v[1]
        P_, Q_ = (s.x(P[0]) if isinstance(P, tuple) else P), (s.x(Q[0]) if isinstance(Q, tuple) else Q)
        return two(f, t, ((v[0] * P_ + v[1] * Q_) / m, (v[1] * P_ - v[0] * Q_) / m))
    return fn


def current(f, t, I):
    return lambda s: two(f, t, (Jet(I[0]), Jet(I[1])))


def inv2(r, x):
    m = r * r + x * x
    return r / m, -x / m


def gain(tx):
    """how much the homotopy stiffens series admittances (its strength is a setting of the code)"""
    import models.components.line as line
    return 1 + getattr(line, "TX_LARGE_G", 20) * tx


# ---- elements ------------------------------------------------------------------

def ref_line(el, r, x, b, tx=0):
    from models.components.bus import GROUND
    y = inv2(r, x)
    k = gain(tx)
    fs = [admittance(el.from_bus, el.to_bus, (y[0] * k, y[1] * k)),
          admittance(el.from_bus, GROUND, (0, b / 2 * (1 - tx))),
          admittance(el.to_bus, GROUND, (0, b / 2 * (1 - tx)))]
    return chain(fs)


def chain(fs):
    def fn(s):
        for f in fs:
            yield from f(s)
    return fn


def ref_shunt(bus, g, b, tx=0):
    from models.components.bus import GROUND
    return admittance(bus, GROUND, (g * (1 - tx), b * (1 - tx)))


def ref_source(f, t, vset, idx, lam, sg=1):
    """ideal voltage source: current unknowns idx, V_f - V_t = vset; sign of the constraint row free
    in plain mode (sg fixes the sign of its multiplier in optimisation mode)"""
    def fn(s):
        I = s.x(idx[0]), s.x(idx[1])
        yield from two(f, t, I)
        d = sub(s.V(f), s.V(t))
        yield idx[0], lam[0], (d[0] - vset[0]) * sg, "any"
        yield idx[1], lam[1], (d[1] - vset[1]) * sg, "any"
    return fn


def ref_generator(el, P, Vset):
    """injects P, holds |V| = Vset with its reactive unknown (counted as consumption)"""
    from models.components.bus import GROUND
    q = el.get_Q_index()

    def fn(s):
        yield from power(el.bus, GROUND, -P, (q,))(s)
        v = s.V(el.bus)
        yield q, el.stamper.get_lambda_index(4), Vset * Vset - v[0] * v[0] - v[1] * v[1], "any"
    return fn


def ref_transformer(el, y, tr, cs, tx=0):
    """ideal tr:1 transformer with phase shift (cs = cos, sin) between the primary terminals and
    an internal secondary node, then the series admittance y to the secondary terminal.
    tr and cs already carry the homotopy factor."""
    k = gain(tx)

    def fn(s):
        I = s.x(el.node_primary_Ir), s.x(el.node_primary_Ii)
        yield from two(el.from_bus_pos, el.from_bus_neg, I)
        vs = s.x(el.node_secondary_Vr), s.x(el.node_secondary_Vi)
        vp = sub(s.V(el.from_bus_pos), s.V(el.from_bus_neg))
        n = s.V(el.to_bus_neg)
        e = cmul((tr * cs[0], tr * cs[1]), sub(vs, n))
        yield el.node_primary_Ir, el.node_primary_Lambda_Ir, vp[0] - e[0], "any"
        yield el.node_primary_Ii, el.node_primary_Lambda_Ii, vp[1] - e[1], "any"
        J = cmul((tr * cs[0], -tr * cs[1]), I)
        yield el.node_secondary_Vr, el.node_secondary_Lambda_Vr, -J[0]
        yield el.node_secondary_Vi, el.node_secondary_Lambda_Vi, -J[1]
        yield el.to_bus_neg.node_Vr, el.to_bus_neg.node_lambda_Vr, J[0]
        yield el.to_bus_neg.node_Vi, el.to_bus_neg.node_lambda_Vi, J[1]
        t = s.V(el.to_bus_pos)
        L = cmul((y[0] * k, y[1] * k), sub(vs, t))
        yield el.node_secondary_Vr, el.node_secondary_Lambda_Vr, L[0]
        yield el.node_secondary_Vi, el.node_secondary_Lambda_Vi, L[1]
        yield el.to_bus_pos.node_Vr, el.to_bus_pos.node_lambda_Vr, -L[0]
        yield el.to_bus_pos.node_Vi, el.to_bus_pos.node_lambda_Vi, -L[1]
    return fn


def ref_centertap(el, ys, n, tx=0):
    """Kersting split-phase: V_t1 = E0/n, V_t2 = -E0/n, I0 = (I1 - I2)/n; three winding admittances"""
    c0, c1, c2 = el.coils
    lam = [el.center_tap_xfmr_stamper.get_lambda_index(k) for k in (2, 3, 6, 7)]
    k = gain(tx)
    sc = lambda y: (y[0] * k, y[1] * k)

    def fn(s):
        p = c0.primary_node
        e0 = s.V(p)
        I1 = s.x(el.node_L1_Ir), s.x(el.node_L1_Ii)
        I2 = s.x(el.node_L2_Ir), s.x(el.node_L2_Ii)
        yield p.node_Vr, p.node_lambda_Vr, (I2[0] - I1[0]) / n
        yield p.node_Vi, p.node_lambda_Vi, (I2[1] - I1[1]) / n
        for bus, I, idx, lm, sg in ((c1.sending_node, I1, (el.node_L1_Ir, el.node_L1_Ii), lam[:2], 1),
                                    (c2.sending_node, I2, (el.node_L2_Ir, el.node_L2_Ii), lam[2:], -1)):
            v = s.V(bus)
            yield bus.node_Vr, bus.node_lambda_Vr, I[0]
            yield bus.node_Vi, bus.node_lambda_Vi, I[1]
            yield idx[0], lm[0], v[0] - e0[0] * sg / n, "any"
            yield idx[1], lm[1], v[1] - e0[1] * sg / n, "any"
        yield from admittance(c0.from_node, p, sc(ys[0]))(s)
        yield from admittance(c1.sending_node, c1.to_node, sc(ys[1]))(s)
        yield from admittance(c2.sending_node, c2.to_node, sc(ys[2]))(s)
    return fn


def ref_multiline(net, el, phases, fr, to, Y, B, tx=0):
    """I = Y (V_from - V_to) with mutual terms; half of the shunt susceptance matrix at each end"""
    from models.components.bus import GROUND
    F = [net.bus_name_map[fr + "_" + p] for p in phases]
    T = [net.bus_name_map[to + "_" + p] for p in phases]
    n = len(phases)

    def fn(s):
        for i in range(n):
            for j in range(n):
                k = gain(tx) if i == j else 1 - tx
                y = (Y[i][j].real * k, Y[i][j].imag * k)
                yield from two(F[i], T[i], cmul(y, sub(s.V(F[j]), s.V(T[j]))))
                if B is not None:
                    b = (0, B[i][j] / 2 * (1 - tx))
                    yield from two(F[i], GROUND, cmul(b, s.V(F[j])))
                    yield from two(T[i], GROUND, cmul(b, s.V(T[j])))
    return fn


# ---- the whole system ------------------------------------------------------------

class Recorder:
    """stands in for the matrix builder: keeps every contribution"""

    def __init__(self):
        self.cells = {}

    def stamp(self, row, col, value):
        k = (row, col)
        self.cells[k] = self.cells[k] + value if k in self.cells else value


class Sys:
    """equations of a set of reference elements at a state"""

    def __init__(self, refs, v, opt=False, objective=None):
        s = State(v)
        self.n = len(v)
        self.F = {}       # row -> Jet
        self.opt = opt
        self.free = set()
        L = []
        for r in refs:
            for c in r(s):
                row, lam, val = c[:3]
                val = Jet.of(val)
                idx = lam if opt else row
                if idx is None:
                    continue
                if len(c) > 3:
                    self.free.add(idx)
                self.F[idx] = self.F[idx] + val if idx in self.F else val
                if opt:
                    L.append((lam, val))
        if opt:
            for lam, val in L:
                l = v[lam]
                for j, g in val.g.items():
                    grad = {lam: g}
                    for (a, b), h in val.h.items():
                        if a == j:
                            grad[b] = grad[b] + l * h if b in grad else l * h
                    self._acc(j, Jet(l * g, grad))
            for j, val in (objective(s) if objective else ()):
                self._acc(j, val)

    def _acc(self, j, val):
        self.F[j] = self.F[j] + val if j in self.F else val

    def residual(self):
        return [self.F[i].v if i in self.F else 0 for i in range(self.n)]

    def jac(self):
        return {(i, j): g for i, f in self.F.items() for j, g in f.g.items()}


def newton(net, v, tx, iteration=0):
    """the linear system the real stamper assembles at v"""
    from logic.stamping.matrixstamper import build_matrix_stamper
    st = build_matrix_stamper(net)
    Y = Recorder()
    J = [0] * len(v)
    st.stamp_linear(Y, J, tx)
    st.stamp_nonlinear(Y, J, v, iteration)
    return st, Y, J


def vector(v):
    import numpy as np
    from symx import shims
    if any(shims.is_sym(x) for x in v):
        return shims.npx.array(list(v))
    return np.array([float(x) for x in v])


def zero_like(x):
    return x


def compare_newton(env, label, Y, J, sys, v, tol=1e-6):
    """rows of the assembled system against the reference; the sign of a constraint row is free"""
    jac = sys.jac()
    for i in range(sys.n):
        f = sys.F.get(i)
        row = {j: y for (r, j), y in Y.cells.items() if r == i}
        exp = dict(f.g) if f is not None else {}
        rhs = -(f.v) if f is not None else 0
        for j, g in exp.items():
            rhs = rhs + g * v[j]
        cols = sorted(set(row) | set(exp))
        act = [row.get(j, 0) for j in cols] + [J[i]]
        ex = [exp.get(j, 0) for j in cols] + [rhs]
        if i in sys.free and not sys.opt:
            act, ex = norm_sign(env, act, ex)
        env.eq(label, act, ex, tol=tol)


def norm_sign(env, act, ex):
    """multiply the expected row by -1 when that makes its first constant entry agree"""
    neg = [-e for e in ex]
    if env.mode == "sym":
        for a, e, n in zip(act, ex, neg):
            if env._holds(a, e) and not env._holds(a, n):
                return act, ex
            if env._holds(a, n) and not env._holds(a, e):
                return act, neg
        return act, ex
    k = max(range(len(ex)), key=lambda i: abs(ex[i]))
    return (act, neg) if abs(act[k] + ex[k]) < abs(act[k] - ex[k]) else (act, ex)


def compare_residual(env, label, actual, sys):
    ex = sys.residual()
    for i in range(sys.n):
        a, e = actual[i], ex[i]
        if i in sys.free and not sys.opt:
            (a,), (e,) = norm_sign(env, [a], [e])
        env.eq(label, a, e)


def mkbus(i, phase=None, name=None, vm=1.0, va=0.0, virtual=False):
    from models.components.bus import Bus
    return Bus(i, 1, vm, va, 1, name or f"n{i}", phase, virtual)


def unknowns(env, n, lo=-2, hi=2, prefix="x"):
    return [env.real(f"{prefix}{i}", lo, hi) for i in range(n)]


# ---- kits: an element added to a network together with its reference -----------------
# kit(env, net, buses, name, tx) -> function giving the reference once indexes exist

def k_line(env, net, b, n, tx=0):
    from models.components.line import Line
    r, x, sh = env.pos(n + "r", 0.01, 2), env.pos(n + "x", 0.01, 2), env.real(n + "b", 0, 2)
    el = Line(b[0], b[1], r, x, sh, True, 0, 0, 0)
    net.lines.append(el)
    return lambda: ref_line(el, r, x, sh, tx)


def k_shunt(env, net, b, n, tx=0):
    from models.components.shunt import Shunt
    g, s = env.real(n + "g", -50, 50), env.real(n + "s", -50, 50)
    el = Shunt(b[0], g, s, 0, 0, 0, 0, 0, 0, None)
    net.shunts.append(el)
    return lambda: ref_shunt(b[0], g / 100, s / 100, tx)


def k_pq(env, net, b, n, tx=0, to=None, vals=None):
    from models.components.load import Load
    from models.components.bus import GROUND
    P, Q = vals or (env.real(n + "P", -3, 3, nonzero=True), env.real(n + "Q", -3, 3))
    to = GROUND if to is None else to
    net.loads.append(Load(b[0], to, P, Q, 0, 0, 0))
    return lambda: power(b[0], to, P, Q)


def k_const_i(env, net, b, n, tx=0, to=None):
    from models.components.load import Load
    from models.components.bus import GROUND
    P, Q = env.real(n + "IP", -3, 3, nonzero=True), env.real(n + "IQ", -3, 3)
    to = GROUND if to is None else to
    net.loads.append(Load(b[0], to, 0, 0, 0, P, Q))
    return lambda: current(b[0], to, (P, Q))


def k_const_z(env, net, b, n, tx=0, to=None):
    from models.components.load import Load
    from models.components.bus import GROUND
    r, x = env.pos(n + "R", 0.1, 5), env.real(n + "X", -5, 5)
    to = GROUND if to is None else to
    net.loads.append(Load(b[0], to, 0, 0, env.mkc(r, x), 0, 0))
    y = inv2(r, x)
    return lambda: admittance(b[0], to, (y[0] * (1 - tx), y[1] * (1 - tx)))


def k_zip(env, net, b, n, tx=0, to=None):
    """all three parts of one load"""
    from models.components.load import Load
    from models.components.bus import GROUND
    P, Q = env.real(n + "P", -3, 3, nonzero=True), env.real(n + "Q", -3, 3)
    ip, iq = env.real(n + "IP", -3, 3), env.real(n + "IQ", -3, 3, nonzero=True)
    r, x = env.pos(n + "R", 0.1, 5), env.real(n + "X", -5, 5)
    to = GROUND if to is None else to
    net.loads.append(Load(b[0], to, P, Q, env.mkc(r, x), ip, iq))
    y = inv2(r, x)
    return lambda: chain([power(b[0], to, P, Q), current(b[0], to, (ip, iq)),
                          admittance(b[0], to, (y[0] * (1 - tx), y[1] * (1 - tx)))])


def k_gen(env, net, b, n, tx=0):
    from models.components.generator import Generator
    P, V = env.real(n + "P", -3, 3), env.pos(n + "V", 0.5, 1.5)
    el = Generator(b[0], P, V, 5, -5, 9, 0, 0.5, 0, 100, None)
    net.generators.append(el)
    return lambda: ref_generator(el, P, V)


def k_slack(env, net, b, n, tx=0, ang=None):
    from models.components.slack import Slack
    from models.components.bus import GROUND
    V = env.pos(n + "V", 0.5, 1.5)
    a = env.real(n + "a", -3, 3) if ang is None else ang
    el = Slack(b[0], V, a, 0, 0)
    net.slack.append(el)
    vs = V * env.cos(a), V * env.sin(a)
    return lambda: ref_source(b[0], GROUND, vs, (el.get_slack_Ir_index(), el.get_slack_Ii_index()),
                              (el.stamper.get_lambda_index(4), el.stamper.get_lambda_index(5)))


def k_xfmr(env, net, b, n, tx=0, neg=None, ang=None):
    from models.components.transformer import Transformer
    from models.components.bus import GROUND
    r, x = env.pos(n + "r", 0.01, 2), env.pos(n + "x", 0.01, 2)
    tr = env.pos(n + "t", 0.2, 5)
    a = env.real(n + "a", -90, 90) if ang is None else ang
    neg = neg or (GROUND, GROUND)
    el = Transformer(b[0], neg[0], b[1], neg[1], r, x, True, tr, a, 0, 0, 100)
    net.transformers.append(el)
    th = a * env.pi / 180
    th = th - th * tx
    t = tr + (1 - tr) * tx
    return lambda: ref_transformer(el, inv2(r, x), t, (env.cos(th), env.sin(th)), tx)


def k_switch(env, net, b, n, tx=0, status=None):
    from models.components.switch import Switch, SwitchStatus
    el = Switch(b[0], b[1], SwitchStatus.CLOSED if status is None else status, "A")
    net.switches.append(el)
    if el.status == SwitchStatus.OPEN:
        return lambda: chain([])
    return lambda: ref_vs(el.vs, (0, 0))


def ref_vs(vs, vset):
    from models.components.voltagesource import Ir, Ii
    st = vs.stamper
    return ref_source(vs.from_bus, vs.to_bus, vset, (st.get_var_col_index(Ir), st.get_var_col_index(Ii)),
                      (st.get_lambda_index(4), st.get_lambda_index(5)), -1)


def k_vs(env, net, b, n, tx=0):
    from models.components.voltagesource import VoltageSource
    vs = env.real(n + "vr", -2, 2), env.real(n + "vi", -2, 2)
    el = VoltageSource(b[0], b[1], *vs)
    net.misc.append(el)
    return lambda: ref_vs(el, vs)


def k_cap(env, net, b, n, tx=0, to=None):
    from models.components.capacitor import Capacitor, CapacitorMode
    from models.components.bus import GROUND
    q, v = env.pos(n + "q", 1, 100), env.pos(n + "v", 1, 10)
    to = GROUND if to is None else to
    el = Capacitor(b[0], to, q, v, CapacitorMode.MANUAL, 2, 1)
    net.misc.append(el)
    y = (0, q / (v * v) * (1 - tx))
    return lambda: admittance(b[0], to, y)


def k_fuse(env, net, b, n, tx=0, blown=False):
    """b = from, to, interior"""
    from models.components.fuse import Fuse, FuseStatus
    el = Fuse(b[0], b[1], b[2], 10, FuseStatus.BLOWN if blown else FuseStatus.GOOD, "A")
    net.misc.append(el)
    if blown:
        # the interior node has no other element, so its current is zero
        return lambda: ref_vs(el.current_sensor, (0, 0))
    k = gain(tx)
    return lambda: chain([admittance(b[0], b[2], (el.G * k, el.B * k)), ref_vs(el.current_sensor, (0, 0))])


def k_reg(env, net, b, n, tx=0, typ=None):
    """b = from, to, current node"""
    from models.components.regulator import Regulator, RegType, RegControl
    typ = typ or RegType.B
    tap, ar = env.int(n + "tap", -16, 16), env.pos(n + "ar", 0.001, 0.01, digits=4)
    el = Regulator(b[0], b[1], b[2], tap, ar, typ, RegControl.MANUAL, 100, 200, 16, 16)
    net.misc.append(el)
    t = 1 - ar * tap if typ == RegType.B else 1 / (1 + ar * tap)
    t = t + (1 - t) * tx
    y = inv2(el.transformer.r, el.transformer.x)
    return lambda: chain([ref_transformer(el.transformer, y, t, (1, 0), tx), ref_vs(el.current_sensor, (0, 0))])


def k_ct(env, net, b, n, tx=0):
    """b = from, primary internal, sending1, sending2, to1, to2"""
    from models.components.center_tap_transformer import CenterTapTransformer, CenterTapTransformerCoil
    coils, ys = [], []
    rated = env.pos(n + "S", 1, 50)
    for k in range(3):
        r, x, vn = env.pos(f"{n}r{k}", 0.01, 0.5), env.pos(f"{n}x{k}", 0.01, 0.5), env.pos(f"{n}v{k}", 0.1, 10)
        coils.append(CenterTapTransformerCoil(vn, rated, k, None, r, x))
        z = vn * vn / rated
        ys.append(inv2(r * z, x * z))
    nt = env.pos(n + "n", 0.5, 60)
    coils[0].from_node, coils[0].primary_node = b[0], b[1]
    coils[1].sending_node, coils[1].to_node = b[2], b[4]
    coils[2].sending_node, coils[2].to_node = b[3], b[5]
    el = CenterTapTransformer(*coils, "A", nt, rated, 0, 0)
    net.transformers.append(el)
    t = nt + (1 - nt) * tx
    return lambda: ref_centertap(el, ys, t, tx)


def add_buses(net, k, phases=None):
    out = []
    for i in range(k):
        b = mkbus(i)
        out.append(b)
        net.buses.append(b)
    return out


def tx_net():
    from logic.network.networkmodel import TxNetworkModel
    return TxNetworkModel()


def dx_net():
    from logic.network.networkmodel import DxNetworkModel
    return DxNetworkModel()
