"""C12: every unknown and equation gets its own contiguous index."""
from symx.run import Scenario
from checks._nets import *

DERIVE = ["models.components.load:lh_pq", "models.components.generator:lh"]
SCENARIOS = []


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def source(vs, opt):
    from models.components.voltagesource import Ir, Ii
    st = vs.stamper
    return [st.get_var_col_index(Ir), st.get_var_col_index(Ii)] + ([st.get_lambda_index(4), st.get_lambda_index(5)] if opt else [])


def trafo(t, opt):
    return [t.node_primary_Ir, t.node_primary_Ii, t.node_secondary_Vr, t.node_secondary_Vi] + (
        [t.node_primary_Lambda_Ir, t.node_primary_Lambda_Ii, t.node_secondary_Lambda_Vr, t.node_secondary_Lambda_Vi] if opt else [])


def own(el, opt):
    """the unknowns (and multipliers) that belong to an element alone"""
    k = type(el).__name__
    if k == "Bus":
        return [el.node_Vr, el.node_Vi] + ([el.node_lambda_Vr, el.node_lambda_Vi] if opt else [])
    if k == "Generator":
        return [el.get_Q_index()] + ([el.get_LQ_init()[0]] if opt else [])
    if k == "Slack":
        return [el.get_slack_Ir_index(), el.get_slack_Ii_index()] + ([el.stamper.get_lambda_index(4), el.stamper.get_lambda_index(5)] if opt else [])
    if k in ("VoltageSource", "CurrentSensor"):
        return source(el, opt)
    if k == "Switch":
        return source(el.vs, opt) if el.status.name == "CLOSED" else []
    if k == "Fuse":
        return source(el.current_sensor, opt)
    if k == "Regulator":
        return trafo(el.transformer, opt) + source(el.current_sensor, opt)
    if k == "Transformer":
        return trafo(el, opt)
    if k == "CenterTapTransformer":
        return [el.node_L1_Ir, el.node_L1_Ii, el.node_L2_Ir, el.node_L2_Ii] + (
            [el.center_tap_xfmr_stamper.get_lambda_index(i) for i in (2, 3, 6, 7)] if opt else [])
    return []


def indexes(n, opt):
    ix = [i for el in n.get_all_elements() for i in own(el, opt)]
    if n.optimization is not None:
        for c in n.optimization.infeasibility_currents:
            ix += [c.node_Ir_inf, c.node_Ii_inf]
    return ix


def verify(env, n, opt, stamps=True):
    n.assign_matrix()
    first = indexes(n, opt)
    env.check("distinct", len(set(first)) == len(first))
    env.check("contiguous from zero", sorted(first) == list(range(len(first))))
    env.check("size is their number", n.size_Y == len(first))
    from models.components.bus import GROUND
    env.check("ground has none", all(getattr(GROUND, a) is None for a in ("node_Vr", "node_Vi", "node_lambda_Vr", "node_lambda_Vi")))
    if stamps:
        v = [0.5 + 0.25 * ((i * 7) % 5) for i in range(n.size_Y)]
        st, Y, J = newton(n, vector(v), 0)
        env.check("entries inside the system", all(0 <= r < n.size_Y and 0 <= c < n.size_Y for r, c in Y.cells))
        rows = {r for r, c in Y.cells}
        env.observe("rows", sorted(rows))
    # the names given to unknowns belong to the right ones
    for b in n.buses:
        env.check("named", n.matrix_map[b.node_Vr] == f"bus:{b.NodeName}:{b.NodePhase}:Vr"
                  and n.matrix_map[b.node_Vi] == f"bus:{b.NodeName}:{b.NodePhase}:Vi")
    size = n.size_Y
    n.assign_matrix()
    env.check("assigning again gives the same", indexes(n, opt) == first and n.size_Y == size)


def opt_on(env, n):
    from models.optimization.L2infeasibility import load_infeasibility_analysis
    if bool(env.boolean("optimise")):
        n.optimization = load_infeasibility_analysis(n)
        return True
    return False


def transmission(top):
    def fn(env):
        n = tx_net()
        b = add_buses(n, 3)
        ng, ns, nx, nl = env.choice("gens", range(top)), env.choice("slacks", range(top)), env.choice("xfmrs", range(top)), env.choice("others", [0, 1])
        z = 0
        for i in range(ng):
            k_gen(env, n, [b[i % 3]], f"g{i}")
        for i in range(nx):
            k_xfmr(env, n, [b[i % 3], b[(i + 1) % 3]], f"x{i}", ang=0)
        for i in range(ns):
            k_slack(env, n, [b[i % 3]], f"s{i}", ang=0)
        if nl:
            k_line(env, n, b, "l")
            k_shunt(env, n, [b[2]], "h")
            k_vs(env, n, [b[0], b[2]], "v")
            # a load whose parts may each be zero
            from models.components.load import Load
            from models.components.bus import GROUND
            n.loads.append(Load(b[1], GROUND, env.real("P", -1, 1), env.real("Q", -1, 1), 0, env.real("IP", -1, 1), 0))
        verify(env, n, opt_on(env, n), stamps=nl == 1 and nx <= 1 and ng <= 1)
    return fn


def distribution(top):
    def fn(env):
        from models.components.switch import SwitchStatus
        n = dx_net()
        b = add_buses(n, 7)
        if bool(env.boolean("switch")):
            k_switch(env, n, [b[0], b[1]], "w", status=SwitchStatus.OPEN if bool(env.boolean("open")) else None)
        for i in range(env.choice("fuses", range(top))):
            from models.components.fuse import Fuse, FuseStatus
            n.fuses.append(Fuse(b[1], b[2 + i], b[4], 1, FuseStatus.GOOD, "A"))
        for i in range(env.choice("regs", range(top))):
            k_reg(env, n, [b[1], b[2], b[3]], f"r{i}")
            n.regulators.append(n.misc.pop())
        for i in range(env.choice("cts", range(top))):
            k_ct(env, n, b[:6], f"c{i}")
        if bool(env.boolean("rest")):
            k_slack(env, n, [b[0]], "s", ang=0)
            k_xfmr(env, n, [b[4], b[6]], "x", ang=0, neg=(b[0], b[1]))
            k_cap(env, n, [b[6]], "q")
            n.capacitors.append(n.misc.pop())
        verify(env, n, opt_on(env, n), stamps=False)
    return fn


def lines(env):
    """multi-phase lines own nothing, whatever their phases"""
    from models.components.unbalanced_line import UnbalancedLine
    from checks.C04 import line_buses
    ph = env.choice("phases", ["A", "BC", "ABC", "CAB"])
    n = dx_net()
    line_buses(n, ph)
    m = len(ph)
    Z = [[complex(1 + i, 2) if i == j else complex(0.1, 0.3) for j in range(m)] for i in range(m)]
    n.lines.append(UnbalancedLine(n, Z, None, "a", "b", env.pos("len", 0.1, 3), ph))
    k_slack(env, n, [n.buses[0]], "s", ang=0)
    verify(env, n, opt_on(env, n))


add("transmission", transmission(2), bounds="every mix of 0..1 generators, sources, transformers with or without other elements, both modes; loads with any zero parts")
add("transmission-pairs", transmission(3), tiers=("thorough",), bounds="as transmission with up to two of each")
add("distribution", distribution(2), bounds="every mix of switch (open or closed), fuse, regulator, split-phase transformer and the rest, both modes")
add("distribution-pairs", distribution(3), tiers=("thorough",), bounds="as distribution with up to two of each")
add("lines", lines, bounds="four phase sets, both modes, any length")


def preload():
    import models.components.load, models.components.slack, models.components.transformer, models.components.regulator  # noqa
    import models.components.center_tap_transformer, models.components.unbalanced_line, models.components.capacitor  # noqa
    import logic.network.networkmodel, logic.stamping.matrixstamper, models.optimization.L2infeasibility  # noqa
