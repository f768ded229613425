"""C18: generation adjustment at an artificial swing bus, and island selection."""
from symx.run import Scenario
from checks._nets import *

SCENARIOS = []


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


class Gen:
    def __init__(self, bus):
        self.bus = bus


class GenResult:
    def __init__(self, bus, P, Q):
        self.generator, self.P, self.Q, self.type_str = Gen(bus), P, Q, "Slack"


class Snapshot:
    is_success = True

    def __init__(self, n, gens):
        self.network, self.v_final, self.bus_results, self.generator_results = n, [], [], gens


def adjust(env):
    """three solves at most: swing output of every phase symbolic in each"""
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from models.components.load import Load
    from models.components.bus import GROUND
    n = dx_net()
    kind = env.choice("phases", ["A", "AB", "12"])
    b = [mkbus(i, p, "sw") for i, p in enumerate(kind)]
    o = mkbus(9, "A", "other")
    n.buses += b + [o]
    neg, rest = [], []
    for i, p in enumerate(kind):
        P, Q = env.real(f"P{p}", -3, 3), env.real(f"Q{p}", -3, 3)
        # a load across both legs carries the leg it stands for in its triplex phase
        l = Load(b[i], GROUND, P, Q, 0, 0, 0, "77", "12" if p in "12" else p, p if p in "12" else None)
        l2 = Load(b[i], GROUND, 0.5, 0.25, 0, 0, 0, "7", p, None)
        n.loads += [l2, l]
        neg.append(l)
        rest.append(l2)
    calls, snaps = [], []
    top = 3

    def execute():
        k = len(calls)
        calls.append([(l.P, l.Q) for l in n.loads])
        if k == top - 1:
            g = [(0.0, 0.0)] * len(kind)
        else:
            g = [(env.real(f"s{k}P{p}", -2, 2), env.real(f"s{k}Q{p}", -2, 2)) for p in kind]
            for x in g[1:]:
                env.assume(x[0] == 0)        # keeps the sum of magnitudes decidable
        s = Snapshot(n, [GenResult(o, 5.0, 5.0)] + [GenResult(bb, *x) for bb, x in zip(b, g)])
        s.g = g
        snaps.append(s)
        return s

    class Flow:
        network = n
    flow = Flow()
    flow.execute = execute
    nl = env.choice("negative", [["neg_77"], ["x_5", "neg_77"]])
    p = TimeSeriesProcessor(TimeSeriesSettings(artificialswingbus="sw", negativeloads=nl), flow)
    r = p.execute()
    env.check("the last solve is returned", r is snaps[-1])
    want = calls[0]
    for k, s in enumerate(snaps):
        tot = 0
        for x in s.g:
            tot = tot + (abs(env.mkc(*x)) if k < top - 1 else 0)
        last = k == len(snaps) - 1
        env.check("stops at the first small output only", env.branch(tot < 0.1) == last)
        env.eq("loads of the solve", [z for y in calls[k] for z in y], [z for y in want for z in y])
        new = []
        for i, y in enumerate(want):
            if i % 2:
                new.append((y[0] + s.g[i // 2][0], y[1] + s.g[i // 2][1]))
            else:
                new.append(y)
        want = new
    env.eq("nothing moves after the last solve", [z for l in n.loads for z in (l.P, l.Q)], [z for y in calls[-1] for z in y])


def off(env):
    """no swing bus or no negative loads: one solve, nothing changed"""
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from models.components.load import Load
    from models.components.bus import GROUND
    n = dx_net()
    b = mkbus(0, "A", "sw")
    n.buses.append(b)
    P = env.real("P", -3, 3)
    n.loads.append(Load(b, GROUND, P, 0.5, 0, 0, 0, "77", "A"))
    snaps = []

    class Flow:
        network = n

        def execute(self):
            snaps.append(Snapshot(n, [GenResult(b, env.real("sp", -3, 3), env.real("sq", -3, 3))]))
            return snaps[-1]
    which = env.choice("missing", ["loads", "bus"])
    st = TimeSeriesSettings(artificialswingbus="sw") if which == "loads" else TimeSeriesSettings(negativeloads=["x_77"])
    p = TimeSeriesProcessor(st, Flow())
    r = p.execute_powerflow()
    env.check("one solve", len(snaps) == 1 and r is snaps[0])
    env.eq("nothing moves", [n.loads[0].P, n.loads[0].Q], [P, 0.5])


def island(env):
    """two or more islands, each with every kind of element; the chosen one stays whole, the others go whole"""
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from models.components.load import Load
    from models.components.slack import Slack
    from models.components.generator import Generator
    from models.components.capacitor import Capacitor, CapacitorMode
    from models.components.regulator import Regulator, RegType, RegControl
    from models.components.fuse import Fuse, FuseStatus
    from models.components.switch import Switch, SwitchStatus
    from models.components.transformer import Transformer
    from models.components.center_tap_transformer import CenterTapTransformer, CenterTapTransformerCoil
    from models.components.unbalanced_line import UnbalancedLine
    from models.components.bus import GROUND
    n = dx_net()
    keep = env.choice("chosen", [0, 1])
    tie = env.choice("tie", ["none", "open switch", "blown fuse"])
    link = [env.choice(f"link{k}", ["line", "switch", "fuse", "regulator", "transformer", "center-tap"]) for k in range(2)]
    extra = env.choice("elements", ["loads", "sources"])
    num = [0]

    def bus(name, ph, virt=False):
        b = mkbus(num[0], ph, name, virtual=virt)
        num[0] += 1
        n.buses.append(b)
        n.bus_name_map[name + "_" + ph] = b
        return b
    own = [dict(buses=[], lines=[], transformers=[], switches=[], slack=[], generators=[], loads=[], fuses=[], regulators=[], capacitors=[])
           for _ in range(2)]

    def put(k, where, el):
        getattr(n, where).append(el)
        own[k][where].append(el)
        return el
    ends = []
    for k in range(2):
        ids = own[k]["buses"]

        def nb(name, ph, virt=False):
            x = bus(f"i{k}{name}", ph, virt)
            ids.append(x)
            return x
        f, t = nb("f", "A"), None
        ends.append(f)
        kind = link[k]
        if kind == "center-tap":
            t1, t2 = nb("t", "1"), nb("t", "2")
            co = [CenterTapTransformerCoil(1, 1, j, None, 0.1, 0.1) for j in range(3)]
            co[0].from_node, co[0].primary_node = f, nb("f-p", "A", True)
            co[1].sending_node, co[1].to_node = nb("f-1", "1", True), t1
            co[2].sending_node, co[2].to_node = nb("f-2", "2", True), t2
            put(k, "transformers", CenterTapTransformer(*co, "A", 2.0, 1.0, 0, 0))
            t = t1
        else:
            t = nb("t", "A")
            if kind == "line":
                put(k, "lines", UnbalancedLine(n, [[complex(1, 2)]], None, f.NodeName, t.NodeName, 1.0, "A", [None]))
            elif kind == "switch":
                put(k, "switches", Switch(f, t, SwitchStatus.CLOSED, "A"))
            elif kind == "fuse":
                put(k, "fuses", Fuse(f, t, nb("f-Fuse", "A", True), 10, FuseStatus.GOOD, "A"))
            elif kind == "regulator":
                put(k, "regulators", Regulator(f, t, nb("f-Reg", "A", True), 1, 0.00625, RegType.B, RegControl.MANUAL, 1, 2, 16, 16))
            else:
                put(k, "transformers", Transformer(f, GROUND, t, GROUND, 0.1, 0.1, True, 1.0, 0, 0, 0, None))
        if extra == "loads":
            put(k, "loads", Load(t, GROUND, 1, 0, 0, 0, 0, "1", "A"))
            put(k, "loads", Load(f, t, 1, 0, 0, 0, 0, "2", "A"))
            put(k, "capacitors", Capacitor(t, GROUND, 10, 10, CapacitorMode.MANUAL, 1, 2))
        else:
            put(k, "slack", Slack(f, 1, 0, 0, 0))
            put(k, "generators", Generator(t, 1, 1, 1, 0, 1, 0, 0, 0, 0, None))
            put(k, "loads", Load(f, GROUND, 1, 0, 0, 0, 0, "1", "A"))
    gone = {}
    if tie == "open switch":
        gone["switches"] = Switch(ends[0], ends[1], SwitchStatus.OPEN, "A")
        n.switches.append(gone["switches"])
    elif tie == "blown fuse":
        v = bus("tie-Fuse", "A", True)
        gone["fuses"] = Fuse(ends[0], ends[1], v, 10, FuseStatus.BLOWN, "A")
        gone["buses"] = v
        n.fuses.append(gone["fuses"])

    class Flow:
        network = n
    TimeSeriesProcessor(TimeSeriesSettings(artificialswingbus=ends[keep].NodeName, select_island=True), Flow())
    for where, els in own[keep].items():
        got = [e for e in getattr(n, where) if where != "switches" or e is not gone.get("switches")]
        env.check("exactly the chosen island stays: " + where, len(got) == len(els) and all(a is b for a, b in zip(got, els)))


def many(env):
    """several elements of one kind to drop and to keep, in any order of declaration"""
    from logic.network.timeseriesprocessor import TimeSeriesProcessor
    from logic.network.timeseriessettings import TimeSeriesSettings
    from models.components.load import Load
    from models.components.slack import Slack
    from models.components.generator import Generator
    from models.components.capacitor import Capacitor, CapacitorMode
    from models.components.regulator import Regulator, RegType, RegControl
    from models.components.fuse import Fuse, FuseStatus
    from models.components.switch import Switch, SwitchStatus
    from models.components.unbalanced_line import UnbalancedLine
    from models.components.bus import GROUND
    n = dx_net()
    kind = env.choice("kind", ["fuses", "regulators", "switches", "lines", "loads", "capacitors", "slack", "generators"])
    sides = [bool(env.boolean(f"kept{k}")) for k in range(4)]
    ids = [0]

    def bus(name, virt=False):
        b = mkbus(ids[0], "A", name, virtual=virt)
        ids[0] += 1
        n.buses.append(b)
        n.bus_name_map[name + "_A"] = b
        return b
    hub = {s: bus("kept" if s else "gone") for s in (True, False)}
    stay = [hub[True]]
    els, keep = [], []
    series = kind in ("fuses", "regulators", "switches", "lines")
    for k, s in enumerate(sides):
        t = bus(f"n{k}")
        inner = bus(f"v{k}", True) if kind in ("fuses", "regulators") else None
        if kind == "fuses":
            e = Fuse(hub[s], t, inner, 10, FuseStatus.GOOD, "A")
        elif kind == "regulators":
            e = Regulator(hub[s], t, inner, 1, 0.00625, RegType.B, RegControl.MANUAL, 1, 2, 16, 16)
        elif kind == "switches":
            e = Switch(hub[s], t, SwitchStatus.CLOSED, "A")
        elif kind == "lines":
            e = UnbalancedLine(n, [[complex(1, 2)]], None, hub[s].NodeName, t.NodeName, 1.0, "A", [None])
        elif kind == "loads":
            e = Load(t, GROUND, 1, 0, 0, 0, 0, str(k), "A")
        elif kind == "capacitors":
            e = Capacitor(t, GROUND, 10, 10, CapacitorMode.MANUAL, 1, 2)
        elif kind == "slack":
            e = Slack(t, 1, 0, 0, 0)
        else:
            e = Generator(t, 1, 1, 1, 0, 1, 0, 0, 0, 0, None)
        els.append(e)
        if not series:
            n.lines.append(UnbalancedLine(n, [[complex(1, 2)]], None, hub[s].NodeName, t.NodeName, 1.0, "A", [None]))
        getattr(n, kind).append(e)
        if s:
            keep.append(e)
            stay += [t] + ([inner] if inner else [])

    class Flow:
        network = n
    TimeSeriesProcessor(TimeSeriesSettings(artificialswingbus="kept", select_island=True), Flow())
    got = getattr(n, kind)
    env.check("exactly the kept elements stay", len(got) == len(keep) and all(a is b for a, b in zip(got, keep)))
    env.check("exactly the kept buses stay", len(n.buses) == len(stay) and all(any(a is b for b in n.buses) for a in stay))
    env.observe("count", len(got))


add("adjust", adjust, bounds="1-2 phases incl. split-phase legs, two adjusting solves then a settled one; every output and declared load", max_paths=20000, nsamples=2)
add("off", off, bounds="no swing bus or no negative load given")
add("many", many, bounds="8 kinds x 4 elements, each in the kept or the dropped island", nsamples=1, max_paths=20000)
add("island", island, bounds="2 islands x 6 connecting elements each x 3 ties x 2 equipment sets", nsamples=1, max_paths=20000)


def preload():
    import logic.network.networkmodel, models.components.load, models.components.slack, models.components.transformer  # noqa
    import models.components.center_tap_transformer, models.components.unbalanced_line, logic.network.timeseriesprocessor  # noqa
    import models.components.regulator, models.components.capacitor, models.components.generator  # noqa
