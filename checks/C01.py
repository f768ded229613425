"""C01: each Newton step is the exact linearisation of the network equations."""
from symx.run import Scenario
from checks._nets import *

ASSUMPTIONS = ["the derivation by sympy itself runs as is; its results are executed symbolically"]


def single(kit, nb, opt=False, net=tx_net, **kw):
    """one element, every parameter and state"""
    def fn(env):
        n = net()
        b = add_buses(n, nb)
        r = kit(env, n, b, "e", tx=env.real("lam", 0, 1) if kw.get("symtx") else kw.get("tx", 0), **{k: v for k, v in kw.items() if k not in ("tx", "symtx")})
        run(env, n, [r], opt, kw.get("tx", 0) if not kw.get("symtx") else None)
    return fn


class NoCurrents:
    """an empty optimisation: switches the stationarity equations on"""

    def assign_nodes(self, node_index, optimization_enabled):
        pass

    def get_stamps(self):
        return []


def run(env, n, kits, opt=False, tx=0, vals=None):
    if opt:
        n.optimization = NoCurrents()
    n.assign_matrix()
    if tx is None:
        tx = env.tx
    v = unknowns(env, n.size_Y) if vals is None else vals(n.size_Y)
    _, Y, J = newton(n, vector(v), tx)
    sys = Sys([k() for k in kits], v, opt)
    compare_newton(env, "system", Y, J, sys, v)
    return v


DERIVE = ["models.components.load:lh_pq", "models.components.generator:lh"]
SCENARIOS = []


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def sym_tx(kit, nb, opt=False, **kw):
    def fn(env):
        n = tx_net()
        b = add_buses(n, nb)
        tx = env.real("lam", 0, 1)
        r = kit(env, n, b, "e", tx=tx, **kw)
        run(env, n, [r], opt, tx)
    return fn


B = "one instance; all parameters in the stated ranges, all states, homotopy factor 0..1"
for opt in (False, True):
    o = "-opt" if opt else ""
    add("line" + o, sym_tx(k_line, 2, opt), bounds=B)
    add("shunt" + o, sym_tx(k_shunt, 1, opt), bounds=B)
    add("pq" + o, sym_tx(k_pq, 1, opt), bounds=B)
    add("const-i" + o, sym_tx(k_const_i, 1, opt), bounds=B)
    add("const-z" + o, sym_tx(k_const_z, 1, opt), bounds=B)
    add("generator" + o, sym_tx(k_gen, 1, opt), bounds=B)
    add("slack" + o, sym_tx(k_slack, 1, opt), bounds=B)
    add("transformer" + o, sym_tx(k_xfmr, 2, opt), bounds=B)
    add("source" + o, sym_tx(k_vs, 2, opt), bounds=B)
    add("center-tap" + o, sym_tx(k_ct, 6, opt), bounds=B)


def pq_two(env, opt=False):
    n = tx_net()
    b = add_buses(n, 2)
    run(env, n, [k_pq(env, n, [b[0]], "e", to=b[1])], opt)


add("pq-between-buses", pq_two, bounds="load between two buses")


def mix(opt):
    """several instances of several kinds sharing buses, equations and parameter values"""
    def fn(env):
        n = tx_net()
        b = add_buses(n, 3)
        tx = env.real("lam", 0, 1)
        P, Q = env.real("P", -3, 3, nonzero=True), env.real("Q", -3, 3)
        ks = [k_line(env, n, [b[0], b[1]], "l1", tx), k_line(env, n, [b[1], b[2]], "l2", tx), k_line(env, n, [b[2], b[1]], "l3", tx),
              k_pq(env, n, [b[1]], "p1", tx, vals=(P, Q)), k_pq(env, n, [b[2]], "p2", tx, vals=(P, Q)),
              k_pq(env, n, [b[2]], "p3", tx, vals=(P, Q)),
              k_const_z(env, n, [b[2]], "z", tx), k_const_i(env, n, [b[1]], "i", tx), k_shunt(env, n, [b[2]], "s", tx),
              k_slack(env, n, [b[0]], "sl", tx, ang=0), k_gen(env, n, [b[1]], "g", tx), k_xfmr(env, n, [b[0], b[2]], "t", tx)]
        run(env, n, ks, opt, tx)
    return fn


def near(env):
    """two loads whose parameters nearly coincide keep their own parameters"""
    n = tx_net()
    b = add_buses(n, 1)
    P, Q = env.pos("P", 1, 2), env.pos("Q", 1, 2)
    d = env.pos("d", 0, 1)
    k = 1e-4
    ks = [k_pq(env, n, b, "p1", vals=(P, Q)), k_pq(env, n, b, "p2", vals=(P + d * k, Q)), k_pq(env, n, b, "p3", vals=(P, Q - d * k)),
          k_pq(env, n, b, "p4", vals=(P, Q))]
    run(env, n, ks)


def near_exact(env):
    """as near, with literal parameters: 1.0 and 1.0000001 are different loads"""
    n = tx_net()
    b = add_buses(n, 2)
    ks = []
    for i, (bus, P, Q) in enumerate([(0, 1.0, 0.5), (0, 1.0000001, 0.5), (1, 1.0, 0.5), (1, 1.0, 0.5000001), (0, 100000.0, 1.0), (0, 100000.001, 1.0)]):
        ks.append(k_pq(env, n, [b[bus]], f"p{i}", vals=(P, Q)))
    n.assign_matrix()
    v = unknowns(env, n.size_Y)
    _, Y, J = newton(n, vector(v), 0)
    sys = Sys([k() for k in ks], v)
    compare_newton(env, "system", Y, J, sys, v, tol=1e-10)


def steps(env):
    """three successive assemblies on one stamper: each at its own state and factor"""
    n = tx_net()
    b = add_buses(n, 2)
    t = [env.real(f"lam{i}", 0, 1) for i in range(2)]
    r, x, sh = env.pos("r", 0.01, 2), env.pos("x", 0.01, 2), env.real("b", 0, 2)
    from models.components.line import Line
    el = Line(b[0], b[1], r, x, sh, True, 0, 0, 0)
    n.lines.append(el)
    P, Q = env.real("P", -3, 3, nonzero=True), env.real("Q", -3, 3)
    pk = k_pq(env, n, [b[1]], "p", vals=(P, Q))
    g = k_gen(env, n, [b[0]], "g")
    n.assign_matrix()
    from logic.stamping.matrixstamper import build_matrix_stamper
    st = build_matrix_stamper(n)
    for k in range(2):
        lin, J0 = Recorder(), [0] * n.size_Y
        st.stamp_linear(lin, J0, t[k])
        for it in range(2):
            v = unknowns(env, n.size_Y, prefix=f"x{k}_{it}_")
            Y, J = Recorder(), list(J0)
            Y.cells = dict(lin.cells)
            st.stamp_nonlinear(Y, J, vector(v), it + 7 * k)
            compare_newton(env, f"system of a later step", Y, J, Sys([ref_line(el, r, x, sh, t[k]), pk(), g()], v), v)


def three_phase(opt):
    def fn(env):
        n = dx_net()
        b = add_buses(n, 8)
        tx = env.real("lam", 0, 1)
        ks = [k_switch(env, n, [b[0], b[1]], "sw", tx), k_vs(env, n, [b[1], b[2]], "vs", tx), k_cap(env, n, [b[2]], "c", tx),
              k_fuse(env, n, [b[1], b[3], b[4]], "f", tx), k_reg(env, n, [b[3], b[5], b[6]], "r", tx),
              k_xfmr(env, n, [b[5], b[7]], "t", tx, neg=(b[2], b[6]), ang=0), k_const_z(env, n, [b[7]], "z", tx, to=b[2]),
              k_slack(env, n, [b[0]], "s", tx, ang=0)]
        run(env, n, ks, opt, tx)
    return fn


def infeas(kind):
    """stationarity equations with infeasibility currents"""
    def fn(env):
        n = tx_net()
        b = add_buses(n, 2)
        if kind == "L2":
            from models.optimization.L2infeasibility import load_infeasibility_analysis
        else:
            from models.optimization.L1infeasibility import load_infeasibility_analysis
        n.optimization = load_infeasibility_analysis(n)
        k1 = k_line(env, n, b, "l")
        k2 = k_pq(env, n, [b[1]], "p")
        n.assign_matrix()
        v = unknowns(env, n.size_Y)
        _, Y, J = newton(n, vector(v), 0)

        def slack_currents(s):
            for c in n.optimization.infeasibility_currents:
                yield c.bus.node_Vr, c.bus.node_lambda_Vr, s.x(c.node_Ir_inf)
                yield c.bus.node_Vi, c.bus.node_lambda_Vi, s.x(c.node_Ii_inf)

        def cost(s):
            for c in n.optimization.infeasibility_currents:
                for i in (c.node_Ir_inf, c.node_Ii_inf):
                    yield i, s.x(i) * 2
        sys = Sys([k1(), k2(), slack_currents], v, True, cost)
        compare_newton(env, "system", Y, J, sys, v)
    return fn


add("mix", mix(False), bounds="3 buses, 12 elements of 9 kinds, equal parameter values, all states and factors", weight=3)
add("mix-opt", mix(True), bounds="as mix, stationarity equations", weight=3)
add("near", near, bounds="four loads on one bus, parameters apart by up to 1e-4")
add("near-literal", near_exact, bounds="six loads, fixed parameters apart by 1e-7..1e-3, all states")
add("steps", steps, bounds="2 factors x 2 iterations on one stamper")
add("three-phase", three_phase(False), bounds="8 nodes, 8 elements, all states and factors")
add("three-phase-opt", three_phase(True), bounds="as three-phase, stationarity equations")
add("infeasibility-L2", infeas("L2"), bounds="2 buses, line and load with quadratic infeasibility currents")


def preload():
    import models.components.load, models.components.generator, models.components.slack, models.components.transformer  # noqa
    import models.components.center_tap_transformer, models.components.shunt, models.components.line, models.components.voltagesource  # noqa
    import logic.network.networkmodel, logic.stamping.matrixstamper  # noqa
