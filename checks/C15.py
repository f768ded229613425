"""C15: reported quantities are those of the solved state."""
import os
import tempfile
from symx.run import Scenario
from checks._nets import *

DERIVE = ["models.components.load:lh_pq", "models.components.generator:lh"]
SCENARIOS = []


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def power_of(V, I):
    """V conj(I)"""
    return V[0] * I[0] + V[1] * I[1], V[1] * I[0] - V[0] * I[1]


def results(env, n, v, residual=0.125, success=True):
    from logic.powerflowresults import PowerFlowResults
    from logic.powerflowsettings import PowerFlowSettings
    from logic.residualdetails import ResidualDetails
    rows = [(None, i, 0.0) for i in range(n.size_Y)]
    rows[2] = (None, 2, -residual)
    return PowerFlowResults(success, 3, 0, 1.0, n, vector(v), PowerFlowSettings(), ResidualDetails(rows, n.size_Y))


def polar(env, label, mag, deg, re_, im_):
    env.eq(label + " magnitude", mag * mag, re_ * re_ + im_ * im_)
    env.check(label + " not negative", mag >= 0)
    t = deg * env.pi / 180
    env.eq(label + " real part", mag * env.cos(t), re_)
    env.eq(label + " imaginary part", mag * env.sin(t), im_)


def bus_values(env):
    from logic.powerflowresults import BusResult
    b = mkbus(4, "A", "n")
    re_, im_ = env.real("re", -3, 3), env.real("im", -3, 3)
    env.assume(re_ * re_ + im_ * im_ > 0.01)
    r = BusResult(b, re_, im_, None, None)
    polar(env, "voltage", r.V_mag, r.V_deg, re_, im_)
    cells = r.csv_string().rstrip("\n").split(",")
    env.check("row names the bus", cells[:2] == ["4", "n:A"] and len(cells) == 4)
    env.shown("table magnitude", cells[2], r.V_mag, 3)
    env.shown("table angle", cells[3], r.V_deg, 3)


def dead_bus(env):
    from logic.powerflowresults import BusResult
    r = BusResult(mkbus(4), 0.0, 0.0, None, None)
    env.check("zero voltage", r.V_mag == 0 and r.V_deg == 0)
    env.check("row", r.csv_string() == "4,n4:NA,0.000,0.000\n")


def transmission(env):
    from models.components.generator import Generator
    from models.components.load import Load
    from models.components.slack import Slack
    from models.components.bus import GROUND
    n = tx_net()
    b = add_buses(n, 3)
    virt = env.choice("virtual", [None, 0, 1])
    if virt is not None:
        b[virt].IsVirtual = True
    p = [env.real(f"p{i}", -3, 3) for i in range(2)]
    n.generators += [Generator(b[2 - i], p[i], 1.0, 5, -5, 9, 0, 0.5, 0, 100, None) for i in range(2)]
    d = [(env.real(f"dp{i}", -3, 3), env.real(f"dq{i}", -3, 3)) for i in range(2)]
    n.loads += [Load(b[1], GROUND, *d[0], 0, 0, 0), Load(b[0], GROUND, *d[1], 0, 0, 0)]
    n.slack += [Slack(b[0], 1.0, 0, 0, 0), Slack(b[2], 1.0, 0, 0, 0)]
    n.assign_matrix()
    v = unknowns(env, n.size_Y)
    env.assume(env.all(*[v[x.node_Vr] * v[x.node_Vr] + v[x.node_Vi] * v[x.node_Vi] > 0.01 for x in b]))
    r = results(env, n, v, env.real("res", 0.1, 2))
    s = State(v)
    env.eq("largest mismatch", r.max_residual, r.residuals.max_residual)
    env.check("buses", [x.bus.Bus for x in r.bus_results] == [x.Bus for x in b if not x.IsVirtual])
    for x in r.bus_results:
        env.eq("bus voltage", [x.V_r, x.V_i], [v[x.bus.node_Vr], v[x.bus.node_Vi]])
    env.check("generator kinds", [(x.type_str, x.generator) for x in r.generator_results]
              == [("PV", g) for g in n.generators] + [("Slack", g) for g in n.slack])
    for x, g, q in zip(r.generator_results, n.generators, p):
        env.eq("generator power", [x.P, x.Q], [-q, v[g.get_Q_index()]])
    for x, g in zip(r.generator_results[2:], n.slack):
        env.eq("source power", [x.P, x.Q], list(power_of((v[g.bus.node_Vr], v[g.bus.node_Vi]),
                                                        (v[g.get_slack_Ir_index()], v[g.get_slack_Ii_index()]))))
    env.check("load kinds", [(x.type_str, x.load) for x in r.load_results] == [("PQ", l) for l in n.loads])
    for x, q in zip(r.load_results, d):
        env.eq("load power", [x.P, x.Q], list(q))
    env.check("no fictitious totals", r.infeasibility_totals is None)


def files(env):
    """the exported tables show the results"""
    from models.components.generator import Generator
    from models.components.load import Load
    from models.components.slack import Slack
    from models.components.bus import GROUND
    n = tx_net()
    b = add_buses(n, 3)
    b[1].IsVirtual = bool(env.boolean("virtual"))
    n.generators.append(Generator(b[2], env.real("gp", -3, 3), 1.0, 5, -5, 9, 0, 0.5, 0, 100, None))
    n.loads.append(Load(b[1], GROUND, env.real("dp", -3, 3), env.real("dq", -3, 3), 0, 0, 0))
    n.slack.append(Slack(b[0], 1.0, 0, 0, 0))
    n.assign_matrix()
    v = unknowns(env, n.size_Y)
    env.assume(env.all(*[v[x.node_Vr] * v[x.node_Vr] + v[x.node_Vi] * v[x.node_Vi] > 0.01 for x in b]))
    ok = bool(env.boolean("success"))
    r = results(env, n, v, success=ok)
    viol = env.choice("ratings", [None, False, True])
    if viol is not None:
        r.violates_equipment_ratings = viol
    with tempfile.TemporaryDirectory() as d:
        r.output(os.path.join(d, "sub", "out"))
        with open(os.path.join(d, "sub", "out_voltage.csv")) as f:
            volts = f.read().split("\n")
        with open(os.path.join(d, "sub", "out_power.csv")) as f:
            pows = f.read().split("\n")
        env.check("two files", sorted(os.listdir(os.path.join(d, "sub"))) == ["out_power.csv", "out_voltage.csv"])
    if not ok:
        env.check("a failed run exports no numbers", volts == ["FAILURE"] and pows == ["FAILURE"])
        return
    tail = ["VIOLATED EQUIPMENT RATINGS"] if viol else [""]
    env.check("one row per bus", len(volts) == len(r.bus_results) + 2 and volts[-1:] == tail)
    for row, x in zip(volts[1:], r.bus_results):
        c = row.split(",")
        env.check("bus named", c[:2] == [str(x.bus.Bus), f"{x.bus.NodeName}:{x.bus.NodePhase}"])
        env.shown("magnitude", c[2], x.V_mag, 3)
        env.shown("angle", c[3], x.V_deg, 3)
    want = [(str(x.generator.bus.Bus), x.type_str, x.P, x.Q) for x in r.generator_results] + \
        [(x.load.from_bus.NodeName, x.type_str, x.P, x.Q) for x in r.load_results]
    env.check("one row per source and load", len(pows) == len(want) + 2 and pows[-1:] == tail)
    for row, (bus, kind, P, Q) in zip(pows[1:], want):
        c = row.split(",")
        env.check("element named", c[:2] == [bus, kind])
        env.shown("P", c[2], P, 2)
        env.shown("Q", c[3], Q, 2)


def infeasibility(env):
    from models.optimization.L2infeasibility import load_infeasibility_analysis
    n = tx_net()
    b = add_buses(n, 2)
    k_slack(env, n, [b[0]], "s", ang=0)
    k_line(env, n, b, "l")
    n.optimization = load_infeasibility_analysis(n)
    n.assign_matrix()
    v = unknowns(env, n.size_Y)
    env.assume(env.all(*[v[x.node_Vr] * v[x.node_Vr] + v[x.node_Vi] * v[x.node_Vi] > 0.01 for x in b]))
    r = results(env, n, v)
    inf = [x for x in r.generator_results if x.type_str == "Inf"]
    env.check("one per bus", [x.generator.bus for x in inf] == b)
    tp = tq = 0
    for x, c in zip(inf, n.optimization.infeasibility_currents):
        # the optimisation adds +I to the currents leaving the bus: -I is injected
        I = -v[c.node_Ir_inf], -v[c.node_Ii_inf]
        P, Q = power_of((v[c.bus.node_Vr], v[c.bus.node_Vi]), I)
        for act, ex, lab in ((x.P, P, "P"), (x.Q, Q, "Q")):
            small = env.branch(env.abs(ex) < 1e-5)
            env.eq("fictitious " + lab, act, 0 if small else ex)
        tp, tq = tp + x.P, tq + x.Q
    env.eq("totals", list(r.infeasibility_totals), [tp, tq])
    for x in r.bus_results:
        env.eq("multipliers", [x.lambda_r, x.lambda_i], [v[x.bus.node_lambda_Vr], v[x.bus.node_lambda_Vi]])
    env.check("reported where not zero", r.report_infeasible() == [x for x in inf if env.branch(env.any(env.abs(x.P) >= 1e-5, env.abs(x.Q) >= 1e-5))])


def transformer(env):
    """what the primary terminal draws"""
    from logic.powerflowresults import TransformerResult
    n = dx_net()
    b = add_buses(n, 4)
    k_slack(env, n, [b[0]], "s", ang=0)
    grounded = env.choice("windings", ["grounded", "delta"])
    k_xfmr(env, n, [b[1], b[3]], "x", ang=0, neg=(b[0], b[2]) if grounded == "delta" else None)
    n.assign_matrix()
    v = unknowns(env, n.size_Y)
    r = results_only(n, v)
    t = n.transformers[0]
    x = TransformerResult(t, r)
    g = (0, 0) if grounded == "grounded" else (v[b[0].node_Vr], v[b[0].node_Vi])
    V = v[b[1].node_Vr] - g[0], v[b[1].node_Vi] - g[1]
    P, Q = power_of(V, (v[t.node_primary_Ir], v[t.node_primary_Ii]))
    env.eq("P", x.get_P(), P)
    env.eq("Q", x.get_Q(), Q)
    c = x.csv_string().rstrip("\n").split(",")
    env.check("row", c[:2] == ["1", "Transformer"])
    env.shown("shown P", c[2], P, 2)
    env.shown("shown Q", c[3], Q, 2)


class results_only:
    def __init__(self, n, v):
        self.network, self.v_final = n, vector(v)


def centertap(env):
    """the power through the two secondary coils equals what the ideal primary coil takes in"""
    from logic.powerflowresults import CenterTapTransformerResult
    n = dx_net()
    b = add_buses(n, 7)
    k_slack(env, n, [b[0]], "s", ang=0)
    k_ct(env, n, b[:6], "c")
    n.assign_matrix()
    v = unknowns(env, n.size_Y)
    t = n.transformers[0]
    x = CenterTapTransformerResult(t, results_only(n, v))
    V1, V2 = (v[b[2].node_Vr], v[b[2].node_Vi]), (v[b[3].node_Vr], v[b[3].node_Vi])
    P1, Q1 = power_of(V1, (v[t.node_L1_Ir], v[t.node_L1_Ii]))
    P2, Q2 = power_of(V2, (v[t.node_L2_Ir], v[t.node_L2_Ii]))
    env.eq("P", x.get_P(), P1 + P2)
    env.eq("Q", x.get_Q(), Q1 + Q2)


add("bus", bus_values, bounds="every voltage above 0.1 in magnitude")
add("dead-bus", dead_bus, bounds="one state")
add("transmission", transmission, bounds="3 buses (any one virtual), 2 generators, 2 loads, 2 sources; every state")
add("files", files, bounds="3 buses, one element of each kind, success or not, rating verdict unset/false/true")
add("infeasibility", infeasibility, bounds="2 buses; every state")
add("transformer", transformer, bounds="grounded and delta windings; every state")
add("centertap", centertap, bounds="one transformer; every state")


def preload():
    import logic.network.networkmodel, models.components.load, models.components.slack, models.components.transformer  # noqa
    import models.components.center_tap_transformer, logic.stamping.matrixstamper, models.optimization.L2infeasibility, logic.powerflowresults  # noqa
