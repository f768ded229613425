"""C17: time-series runs: load values per hour, results per hour, rating verdicts."""
import os
import tempfile
from symx.run import Scenario
from checks._nets import *

SCENARIOS = []


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


class Flow:
    """stands in for the solver: notes the loads it is called with"""

    def __init__(self, n, result):
        self.network, self.result, self.calls = n, result, []

    def execute(self):
        self.calls.append([(l.P, l.Q) for l in self.network.loads])
        return self.result(self)


class Snapshot:
    def __init__(self, network, v=(), buses=(), success=True):
        self.network, self.v_final, self.bus_results, self.is_success = network, list(v), list(buses), success
        self.generator_results = []
        self.written = []

    def output(self, path):
        self.written.append(path)


def loads(env, n, spec):
    from models.components.load import Load
    from models.components.bus import GROUND
    b = add_buses(n, len(spec))
    out = []
    for i, (num, phase, P, Q) in enumerate(spec):
        l = Load(b[i], GROUND, P, Q, 0, 0, 0, num, phase)
        n.loads.append(l)
        out.append(l)
    return out


def processor(n, table, result=None, start=0, end=0, outputfile=None):
    """table: column -> values per hour (may be symbolic)"""
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    import pandas
    d = tempfile.mkdtemp()
    path = os.path.join(d, "loads.csv")
    with open(path, "w") as f:
        f.write("x\n0\n")
    flow = Flow(n, result or (lambda s: Snapshot(n)))
    p = TimeSeriesProcessor(TimeSeriesSettings(loadfile_name=path, loadfile_start=start, loadfile_end=end, outputfile=outputfile), flow)
    p.load_data = pandas.DataFrame({k: pandas.Series(v, dtype=object) for k, v in table.items()})
    return p, flow, path


def clean(path):
    os.unlink(path)
    os.rmdir(os.path.dirname(path))


def factor(env, name, quadrant):
    """a nonzero declared power, and its magnitude"""
    P, Q = env.real(name + "P", -3, 3), env.real(name + "Q", -3, 3)
    m2 = P * P + Q * Q
    env.assume(m2 > 0.01)
    return P, Q


def along(env, label, P, Q, P0, Q0, mag):
    """(P, Q) has magnitude mag and the direction of (P0, Q0)"""
    env.eq(label + " magnitude", P * P + Q * Q, mag * mag)
    env.eq(label + " direction", P * Q0 - Q * P0, 0 * P)
    env.check(label + " sign", P * P0 + Q * Q0 >= (0 if env.mode == "sym" else -1e-9))


def values(env):
    """one hour: named loads take the magnitude with their power factor, the others stay"""
    n = dx_net()
    P, Q = factor(env, "a", 0)
    la, lb, lc = loads(env, n, [("7", "A", P, Q), ("8", "B", 0.0, 0.0), ("9", "C", 0.3, 0.4)])
    m, z = env.real("m", 0, 5), env.real("z", 0, 5)
    p, flow, path = processor(n, {"cl_7A": [9.0, m], "cl_8B": [3.0, z], "cl_nobody": [1.0, 2.0]})
    p.set_load_names()
    p.set_load_values(1)
    along(env, "load", la.P, la.Q, P, Q, m)
    env.eq("a load declared zero is purely active", [lb.P, lb.Q], [z, 0])
    env.check("loads without a column stay", (lc.P, lc.Q) == (0.3, 0.4))
    # an hour beyond the table changes nothing
    before = [la.P, la.Q, lb.P, lb.Q]
    p.set_load_values(5)
    env.eq("hours beyond the table", [la.P, la.Q, lb.P, lb.Q], before)
    clean(path)


def sequence(hours):
    """any sequence of magnitudes, zero included: power factor kept throughout, each hour solved with its own values"""
    def fn(env):
        n = dx_net()
        P, Q = factor(env, "a", 0)
        la, lb = loads(env, n, [("7", "A", P, Q), ("8", "B", 0.6, 0.8)])
        ms = [0 if bool(env.boolean(f"zero{h}")) else env.real(f"m{h}", 0.1, 5) for h in range(hours)]
        start = env.choice("start", [0, 1])
        end = env.choice("end", [hours - 1, hours])
        snaps = []

        def result(flow):
            s = Snapshot(n)
            snaps.append(s)
            return s
        out = env.choice("outputs", [None, "res"])
        p, flow, path = processor(n, {"cl_7A": ms}, result, start, end, out)
        r = p.execute()
        want = list(range(start, end))
        env.check("one result per hour", list(r.powerflow_snapshot_results) == want)
        env.check("one solve per hour", len(flow.calls) == len(want))
        for k, h in enumerate(want):
            env.check("its own result", r.powerflow_snapshot_results[h] is snaps[k])
            env.check("written once under its hour", snaps[k].written == ([f"res_{h}"] if out else []))
            (P1, Q1), (P2, Q2) = flow.calls[k]
            along(env, f"hour {k}", P1, Q1, P, Q, ms[h])
            env.check("other loads", (P2, Q2) == (0.6, 0.8))
        clean(path)
    return fn


def names(env):
    """which column drives which load: commercial, residential or plain"""
    n = dx_net()
    kind = env.choice("kind", ["alpha", "digit", "other"])
    ph = {"alpha": "B", "digit": "12", "other": "1S"}[kind]
    la, lb = loads(env, n, [("7", ph, 0.6, 0.8), ("17", "A", 0.6, 0.8)])
    want = {"alpha": "cl_7B", "digit": "rl_7_1", "other": "7_1S"}[kind]
    col = env.choice("column", ["cl_7B", "rl_7_1", "7_1S", "cl_7A", "rl_7_2", "7"])
    m = env.real("m", 0.1, 5)
    p, flow, path = processor(n, {col: [m], "cl_17A": [2 * m]})
    p.set_load_names()
    p.set_load_values(0)
    hit = col == want
    env.eq("driven by its own column only", [la.P, la.Q], [0.6 * m, 0.8 * m] if hit else [0.6, 0.8])
    env.eq("the other load", [lb.P, lb.Q], [1.2 * m, 1.6 * m])
    clean(path)


def refused(env):
    """positive-sequence networks are refused"""
    n = tx_net()
    p, flow, path = processor(n, {"a": [1.0]})
    e, _ = env.raises(p.execute)
    env.check("refused", e is not None and not flow.calls)
    e, _ = env.raises(lambda: p.set_load_values(0))
    env.check("refused", e is not None)
    clean(path)


class BusResult:
    def __init__(self, bus, mag):
        self.bus, self.V_mag = bus, mag


def verdict(n, v, buses=(), success=True):
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    s = Snapshot(n, v, buses, success)
    s.v_final = vector(list(v)) if len(v) else s.v_final
    flow = Flow(n, lambda f: s)
    p = TimeSeriesProcessor(TimeSeriesSettings(), flow)
    r = p.execute_powerflow()
    return bool(getattr(r, "violates_equipment_ratings", False))


def voltages(env):
    """five percent around nominal"""
    n = dx_net()
    nom = [env.pos(f"nom{i}", 1, 5) for i in range(2)]
    mag = [env.real(f"mag{i}", 0, 8) for i in range(2)]
    ok = bool(env.boolean("success"))
    bs = [BusResult(mkbus(i, vm=nom[i]), mag[i]) for i in range(2)]
    for a, b in zip(mag, nom):
        # stay clear of the exact threshold, where binary rounding decides
        env.assume(env.any(a <= 0.949 * b, a >= 0.951 * b))
        env.assume(env.any(a <= 1.049 * b, a >= 1.051 * b))
    got = verdict(n, [], bs, ok)
    bad = any([env.branch(env.any(a < 0.95 * b, a > 1.05 * b)) for a, b in zip(mag, nom)])
    env.observe("verdict", got)
    env.check("flagged exactly when a voltage is off by five percent or more", got == (bad and ok))


def transformers(env):
    n = dx_net()
    b = add_buses(n, 7)
    from models.components.transformer import Transformer
    from models.components.bus import GROUND
    rating = env.choice("rated", [False, True])
    rate = env.pos("rating", 0.1, 4) if rating else None
    kind = env.choice("kind", ["two-winding", "split-phase"])
    if kind == "two-winding":
        n.transformers.append(Transformer(b[1], GROUND, b[3], GROUND, 0.1, 0.2, True, 2.0, 0, 0, 0, rate))
    else:
        k_ct(env, n, b[:6], "c")
        n.transformers[0].power_rating = rate
    k_slack(env, n, [b[6]], "s", ang=0)
    n.assign_matrix()
    t = n.transformers[0]
    v = [0.5 + 0.25 * ((i * 7) % 5) for i in range(n.size_Y)]
    x = [env.real(f"x{i}", -2, 2) for i in range(4)]
    if kind == "two-winding":
        for k, i in enumerate((b[1].node_Vr, b[1].node_Vi, t.node_primary_Ir, t.node_primary_Ii)):
            v[i] = x[k]
        P, Q = x[0] * x[2] + x[1] * x[3], x[1] * x[2] - x[0] * x[3]
    else:
        for k, i in enumerate((b[2].node_Vr, b[2].node_Vi, t.node_L1_Ir, t.node_L1_Ii)):
            v[i] = x[k]
        a, c, d, e = v[b[3].node_Vr], v[b[3].node_Vi], v[t.node_L2_Ir], v[t.node_L2_Ii]
        P = x[0] * x[2] + x[1] * x[3] + (a * d + c * e)
        Q = x[1] * x[2] - x[0] * x[3] + (c * d - a * e)
    got = verdict(n, v)
    env.observe("verdict", got)
    env.check("flagged exactly above the rating", got == (rating and env.branch(P * P + Q * Q > rate * rate)))


def lines(phases):
    """the series current of every phase, couplings included, against its rating"""
    def fn(env):
        from models.components.unbalanced_line import UnbalancedLine
        from checks.C04 import line_buses
        n = dx_net()
        line_buses(n, phases)
        m = len(phases)
        Z = [[complex(0.2 + i / 10, 0.5) if i == j else complex(0.1, 0.2 + 0.1 * abs(i - j)) for j in range(m)] for i in range(m)]
        which = env.choice("rated", ["none"] + list(range(m)))
        rated = [which == i for i in range(m)]
        amp = [env.pos(f"amp{i}", 0.1, 6) if r else None for i, r in enumerate(rated)]
        n.lines.append(UnbalancedLine(n, Z, None, "a", "b", 1.0, phases, amp))
        n.assign_matrix()
        Y = n.lines[0].admittances      # judged by C04
        v = [0.0] * n.size_Y
        d = []
        for i, p in enumerate(phases):
            f, t = n.bus_name_map["a_" + p], n.bus_name_map["b_" + p]
            fv = (env.real(f"fr{i}", -2, 2), env.real("fi", -2, 2) if i == 0 and m == 1 else 0.4)
            tv = (1.0 / (i + 1), -0.5 * i)
            v[f.node_Vr], v[f.node_Vi], v[t.node_Vr], v[t.node_Vi] = *fv, *tv
            d.append((fv[0] - tv[0], fv[1] - tv[1]))
        got = verdict(n, v)
        bad = False
        for i in range(m):
            if amp[i] is None:
                continue
            I = (0.0, 0.0)
            for j in range(m):
                w = cmul((Y[i][j].real, Y[i][j].imag), d[j])
                I = I[0] + w[0], I[1] + w[1]
            mag = abs(env.mkc(*I))
            env.assume(env.any(mag > amp[i] * 1.001, mag < amp[i] * 0.999))
            bad = bad or env.branch(mag > amp[i])
        env.observe("verdict", got)
        env.check("flagged exactly when a phase exceeds its rating", got == bad)
    return fn


add("values", values, bounds="3 loads, one hour; every declared power and magnitude")
add("sequence", sequence(3), bounds="3 hours of any magnitudes incl. zero, every start/end", nsamples=2, max_paths=20000)
add("sequence-long", sequence(4), tiers=("thorough",), bounds="4 hours", nsamples=1, max_paths=50000)
add("names", names, bounds="three kinds of phase name against six columns")
add("refused", refused, bounds="positive-sequence network")
add("voltages", voltages, bounds="2 buses, every nominal and solved magnitude farther than 0.1 % from a threshold")
add("transformers", transformers, bounds="both transformer kinds, rated or not; 4 free state entries")
add("line-1", lines("B"), bounds="one phase", nsamples=4)
add("line-2", lines("AC"), bounds="two phases, any one rated, any real parts of the sending-end voltages", nsamples=4)


def preload():
    import logic.network.networkmodel, models.components.load, models.components.slack, models.components.transformer  # noqa
    import models.components.center_tap_transformer, models.components.unbalanced_line, logic.stamping.matrixstamper, logic.network.timeseriesprocessor  # noqa
    import pandas  # noqa
