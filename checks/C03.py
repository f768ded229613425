"""C03: positive-sequence elements draw the currents their physics prescribes."""
from symx.run import Scenario
from checks._nets import *

DERIVE = ["models.components.load:lh_pq", "models.components.generator:lh"]
SCENARIOS = []


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def residual(env, n, ks, label, v=None, tx=0):
    n.assign_matrix()
    v = unknowns(env, n.size_Y) if v is None else v
    from logic.stamping.matrixstamper import build_matrix_stamper
    env.lazy_max()
    d = build_matrix_stamper(n).calc_residuals(tx, vector(v), 0)
    s = Sys([k() for k in ks], v)
    compare_residual(env, label, d.residuals, s)
    return v, d.residuals


def one(kit, nb, **kw):
    def fn(env):
        n = tx_net()
        b = add_buses(n, nb)
        residual(env, n, [kit(env, n, b, "e", **kw)], "equations")
    return fn


def w_line(env, net, b, n):
    from models.components.line import Line
    r, x, sh = env.real(n + "r", 0, 2), env.real(n + "x", -2, 2, nonzero=True), env.real(n + "b", -2, 2)
    el = Line(b[0], b[1], r, x, sh, True, 0, 0, 0)
    net.lines.append(el)
    return lambda: ref_line(el, r, x, sh)


def line_power(env):
    """a branch without charging: what it absorbs is r|I|^2 + j x|I|^2, and its currents cancel"""
    n = tx_net()
    b = add_buses(n, 2)
    from models.components.line import Line
    r, x = env.real("r", 0, 2), env.real("x", 0.01, 2)
    n.lines.append(Line(b[0], b[1], r, x, 0, True, 0, 0, 0))
    n.assign_matrix()
    v = unknowns(env, n.size_Y)
    from logic.stamping.matrixstamper import build_matrix_stamper
    env.lazy_max()
    d = build_matrix_stamper(n).calc_residuals(0, vector(v), 0).residuals
    f, t = b
    I = d[f.node_Vr], d[f.node_Vi]
    env.eq("currents cancel", [I[0] + d[t.node_Vr], I[1] + d[t.node_Vi]], [0, 0])
    V = v[f.node_Vr] - v[t.node_Vr], v[f.node_Vi] - v[t.node_Vi]
    m = I[0] * I[0] + I[1] * I[1]
    env.eq("absorbed power", [V[0] * I[0] + V[1] * I[1], V[1] * I[0] - V[0] * I[1]], [r * m, x * m])


def load_power(kind):
    def fn(env):
        n = tx_net()
        b = add_buses(n, 1)
        from models.components.load import Load
        from models.components.bus import GROUND
        P, Q = env.real("P", -3, 3, nonzero=True), env.real("Q", -3, 3)
        if kind == "load":
            n.loads.append(Load(b[0], GROUND, P, Q, 0, 0, 0))
        else:
            from models.components.generator import Generator
            g = Generator(b[0], -P, env.pos("V", 0.5, 1.5), 5, -5, 9, 0, 0.5, 0, 100, None)
            n.generators.append(g)
        n.assign_matrix()
        v = unknowns(env, n.size_Y)
        from logic.stamping.matrixstamper import build_matrix_stamper
        env.lazy_max()
        d = build_matrix_stamper(n).calc_residuals(0, vector(v), 0).residuals
        if kind != "load":
            Q = v[g.get_Q_index()]
        a, c = v[b[0].node_Vr], v[b[0].node_Vi]
        I = d[b[0].node_Vr], d[b[0].node_Vi]
        env.eq("absorbed power", [a * I[0] + c * I[1], c * I[0] - a * I[1]], [P, Q])
    return fn


def special_load(env):
    """parts of a load that are exactly zero leave the other parts in force"""
    n = tx_net()
    b = add_buses(n, 2)
    from models.components.load import Load
    from models.components.bus import GROUND
    which = env.choice("zero parts", ["P", "Q", "IP", "IQ", "R", "X", "all power", "all current", "only P", "only IQ", "only X", "negative P", "capacitive"])
    P, Q, ip, iq, r, x = [env.real(k, 0.2, 3) for k in ("P", "Q", "IP", "IQ", "R", "X")]
    if which == "P":
        P = 0
    elif which == "Q":
        Q = 0
    elif which == "IP":
        ip = 0
    elif which == "IQ":
        iq = 0
    elif which == "R":
        r = 0
    elif which == "X":
        x = 0
    elif which == "all power":
        P = Q = 0
    elif which == "all current":
        ip = iq = 0
    elif which == "only P":
        Q = ip = iq = r = x = 0
    elif which == "only IQ":
        P = Q = ip = r = x = 0
    elif which == "only X":
        P = Q = ip = iq = r = 0
    elif which == "negative P":
        P, Q = -P, 0
    else:
        r, x = 0, -x
    to = b[1] if bool(env.boolean("between buses")) else GROUND
    z = 0 if which in ("only P", "only IQ") else env.mkc(r, x)
    n.loads.append(Load(b[0], to, P, Q, z, ip, iq))

    def ref():
        out = []
        if which not in ("all power", "only IQ", "only X"):
            out.append(power(b[0], to, P, Q))
        out.append(current(b[0], to, (ip, iq)))
        if which not in ("only P", "only IQ"):
            out.append(admittance(b[0], to, inv2(r, x)))
        return chain(out)
    residual(env, n, [ref], "equations")


def network(env):
    n = tx_net()
    b = add_buses(n, 4)
    ks = [w_line(env, n, [b[0], b[1]], "l1"), w_line(env, n, [b[2], b[1]], "l2"), k_pq(env, n, [b[1]], "p1"), k_pq(env, n, [b[2]], "p2"),
          k_const_z(env, n, [b[2]], "z"), k_const_i(env, n, [b[1]], "i"), k_shunt(env, n, [b[2]], "s"), k_slack(env, n, [b[0]], "sl"),
          k_gen(env, n, [b[1]], "g"), k_xfmr(env, n, [b[0], b[2]], "t"), k_xfmr(env, n, [b[3], b[1]], "t2")]
    residual(env, n, ks, "equations")


B1 = "all parameters in range and all states"
add("branch", one(w_line, 2), bounds=B1)
add("branch-power", line_power, bounds=B1)
add("shunt", one(k_shunt, 1), bounds=B1)
add("constant-power", one(k_pq, 1), bounds=B1)
add("constant-current", one(k_const_i, 1), bounds=B1)
add("constant-impedance", one(k_const_z, 1), bounds=B1)
add("mixed-load", one(k_zip, 1), bounds=B1)
add("zero-parts", special_load, bounds="loads whose parts are zero one by one or all but one")
add("generator", one(k_gen, 1), bounds=B1)
add("slack", one(k_slack, 1), bounds=B1)
add("transformer", one(k_xfmr, 2), bounds=B1)
add("load-power", load_power("load"), bounds=B1)
add("generator-power", load_power("gen"), bounds=B1)
add("network", network, bounds="4 buses, 11 elements, all parameters and states", weight=2)


def preload():
    import models.components.load, models.components.generator, models.components.slack, models.components.transformer  # noqa
    import models.components.shunt, models.components.line, logic.network.networkmodel, logic.stamping.matrixstamper  # noqa
