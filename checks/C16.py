"""C16: only one connected network with consistent nominal voltages is solved."""
from symx.run import Scenario
from checks._nets import *

SCENARIOS = []


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


KINDS = ["line", "switch", "open", "fuse", "blown", "transformer", "regulator", "center-tap", "none"]
JOINS = {"line", "switch", "fuse", "transformer", "regulator", "center-tap"}
SAME = {"line", "switch", "fuse"}


class Net:
    def __init__(self, three):
        self.n = dx_net() if three else tx_net()
        self.k = 0

    def bus(self, name, ph, vm=1.0, virt=False):
        b = mkbus(self.k, ph, name, vm=vm, virtual=virt)
        self.k += 1
        self.n.buses.append(b)
        if self.n.is_three_phase:
            self.n.bus_name_map[f"{name}_{ph}"] = b
        return b

    def join(self, kind, f, t):
        from models.components.bus import GROUND
        from models.components.switch import Switch, SwitchStatus
        from models.components.fuse import Fuse, FuseStatus
        from models.components.regulator import Regulator, RegType, RegControl
        from models.components.transformer import Transformer
        from models.components.center_tap_transformer import CenterTapTransformer, CenterTapTransformerCoil
        from models.components.unbalanced_line import UnbalancedLine
        from models.components.line import Line
        n, v = self.n, lambda s: self.bus(f"{f.NodeName}-{t.NodeName}-{s}", "A", 0.1, True)
        if kind == "line":
            n.lines.append(UnbalancedLine(n, [[complex(1, 2)]], None, f.NodeName, t.NodeName, 1.0, "A", [None]) if n.is_three_phase
                           else Line(f, t, 0.1, 0.2, 0, True, 0, 0, 0))
        elif kind in ("switch", "open"):
            n.switches.append(Switch(f, t, SwitchStatus.CLOSED if kind == "switch" else SwitchStatus.OPEN, "A"))
        elif kind in ("fuse", "blown"):
            n.fuses.append(Fuse(f, t, v("Fuse"), 10, FuseStatus.GOOD if kind == "fuse" else FuseStatus.BLOWN, "A"))
        elif kind == "regulator":
            n.regulators.append(Regulator(f, t, v("Reg"), 1, 0.00625, RegType.B, RegControl.MANUAL, 1, 2, 16, 16))
        elif kind == "transformer":
            n.transformers.append(Transformer(f, GROUND, t, GROUND, 0.1, 0.1, True, 1.0, 0, 0, 0, None))
        elif kind == "center-tap":
            co = [CenterTapTransformerCoil(1, 1, j, None, 0.1, 0.1) for j in range(3)]
            co[0].from_node, co[0].primary_node = f, v("p")
            co[1].sending_node, co[1].to_node = v("1"), t
            co[2].sending_node, co[2].to_node = v("2"), t
            n.transformers.append(CenterTapTransformer(*co, "A", 2.0, 1.0, 0, 0))


def attempt(env, n):
    """run the solve with the numerical part replaced; did it get that far?"""
    import logic.powerflow as PF
    from logic.powerflowsettings import PowerFlowSettings
    got = []

    class Stop(Exception):
        pass

    class Controller:
        def __init__(self, *a):
            pass

        def run_powerflow(self):
            got.append(1)
            raise Stop()
    old = PF.DeviceController
    PF.DeviceController = Controller
    try:
        e, _ = env.raises(lambda: PF.PowerFlow(n, PowerFlowSettings()).execute())
    finally:
        PF.DeviceController = old
    return bool(got), e


def groups(n, edges):
    c = list(range(n))
    for a, b in edges:
        o, w = c[a], c[b]
        c = [w if x == o else x for x in c]
    return c


def connectivity(kinds):
    def fn(env):
        """three places, any element between each pair, plus loads and grounded elements that join nothing"""
        from models.components.load import Load
        from models.components.slack import Slack
        from models.components.capacitor import Capacitor, CapacitorMode
        from models.components.bus import GROUND
        w = Net(True)
        b = [w.bus(f"p{i}", "A") for i in range(3)]
        b2 = w.bus("p1", "B")
        edges = []
        for i, j in ((0, 1), (1, 2), (0, 2)):
            k = env.choice(f"join{i}{j}", kinds)
            w.join(k, b[i], b[j])
            if k in JOINS:
                edges.append((i, j))
        w.n.loads += [Load(b[0], GROUND, 1, 0, 0, 0, 0, "1", "A"), Load(b[1], b2, 1, 0, 0, 0, 0, "2", "AB")]
        w.n.slack.append(Slack(b[0], 1, 0, 0, 0))
        w.n.capacitors.append(Capacitor(b[2], GROUND, 10, 10, CapacitorMode.MANUAL, 1, 2))
        one = len(set(groups(3, edges))) == 1
        ran, e = attempt(env, w.n)
        env.observe("solved", ran)
        env.check("solved exactly when connected", ran == one)
        from logic.graphanalyzer import GraphAnalyzer
        g = GraphAnalyzer(w.n)
        env.check("islands counted", g.get_island_count() == len(set(groups(3, edges))))
        gs = groups(3, edges)
        env.check("islands named", sorted(sorted(x) for x in g.get_islands())
                  == sorted(sorted(f"p{i}" for i in range(3) if gs[i] == c) for c in set(gs)))
    return fn


def nominal(env):
    """chain of three places: nominal voltages must agree unless something that changes voltage lies between"""
    w = Net(True)
    v = [env.real(f"v{i}", 100, 200) for i in range(3)]
    b = [w.bus(f"p{i}", "A", v[i]) for i in range(3)]
    kinds = [env.choice(f"join{i}", ["line", "switch", "fuse", "transformer", "regulator", "center-tap"]) for i in range(2)]
    for i, k in enumerate(kinds):
        w.join(k, b[i], b[i + 1])
    pairs = []
    if kinds[0] in SAME:
        pairs.append((0, 1))
    if kinds[1] in SAME:
        pairs.append((1, 2))
    if len(pairs) == 2:
        pairs.append((0, 2))
    close = [env.all(v[i] - v[j] <= 9, v[j] - v[i] <= 9) for i, j in pairs]
    far = [env.any(v[i] - v[j] > 21, v[j] - v[i] > 21) for i, j in pairs]
    ran, e = attempt(env, w.n)
    env.observe("voltages", v)
    if ran:
        for f in far:
            env.check("never solved with clearly different nominal voltages", far_not(env, f))
    elif pairs:
        env.check("never refused with matching nominal voltages", far_not(env, env.all(*close)))
    else:
        env.check("never refused across devices that change voltage", False)


def far_not(env, c):
    return not env.branch(c)


def transmission(env):
    """positive-sequence branches and transformers join, disconnected buses are refused"""
    w = Net(False)
    b = [w.bus(f"p{i}", "A") for i in range(3)]
    edges = []
    for i, j in ((0, 1), (1, 2)):
        k = env.choice(f"join{i}{j}", ["line", "transformer", "none"])
        w.join(k, b[i], b[j])
        if k in JOINS:
            edges.append((i, j))
    k_slack(env, w.n, [b[0]], "s", ang=0)
    k_shunt(env, w.n, [b[1]], "h")
    k_pq(env, w.n, [b[2]], "d")
    ran, e = attempt(env, w.n)
    env.observe("solved", ran)
    env.check("solved exactly when connected", ran == (len(edges) == 2))


add("connectivity", connectivity(["line", "open", "blown", "center-tap", "none"]), bounds="3 places, any of 5 kinds between each pair", nsamples=1, max_paths=20000)
add("connectivity-all", connectivity(KINDS), tiers=("thorough",), bounds="3 places, any of 9 kinds between each pair", nsamples=1, max_paths=20000)
add("nominal", nominal, bounds="3 places in a chain, 6 kinds of element, every nominal voltage in 100..200; differences between 9 and 21 left open", nsamples=2, max_paths=20000)
add("transmission", transmission, bounds="3 buses, any of 3 kinds between neighbours")


def preload():
    import logic.network.networkmodel, models.components.load, models.components.slack, models.components.transformer  # noqa
    import models.components.center_tap_transformer, models.components.unbalanced_line, logic.powerflow  # noqa
    import models.components.regulator, models.components.capacitor, models.components.generator  # noqa
