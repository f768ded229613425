"""C26: sources, switches, fuses, capacitors and regulators of a feeder are the ones its objects declare."""
from symx.run import Scenario
from checks._glm import *

SCENARIOS = []


def preload():
    import logic.network.networkmodel
    import logic.network.networkloader


def sc(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


LINK = {"from": "src", "to": "end"}


def two_nodes(env, phases="ABCN"):
    f = Feeder(env, env.choice("style", ["plain", "busy"]))
    f.source("src", phases=phases)
    f.node("end", phases=phases)
    return f


def nodes_only(env, net, names, phases="ABC"):
    """every node of the feeder has a bus per phase, and there is no other one besides internal ones"""
    want = [(n, p) for n in names for p in phases]
    env.check("buses of the nodes", sorted((b.NodeName, b.NodePhase) for b in net.buses if not b.IsVirtual) == sorted(want))


def links(env, els, net, status, states, ends=("src", "end")):
    """one element per phase with the wanted state"""
    env.check("one per phase", sorted(e.phase for e in els) == sorted(states))
    for e in els:
        env.check("terminals", e.from_node is bus(env, net, ends[0], e.phase) and e.to_node is bus(env, net, ends[1], e.phase))
        env.check("state of phase " + e.phase, e.status == status[states.get(e.phase)])


def states(env, phases, on, off, key):
    """properties of a switch or fuse, and whether each of its phases is open"""
    props = {}
    whole = env.choice("status", [None, "CLOSED", "OPEN"])
    props["status"] = whole
    opened = {}
    for p in phases:
        # an open object whose phases are said to be closed has no clear meaning
        own = env.choice("state of " + p, [None, on, off]) if whole != "OPEN" else env.choice("state of " + p, [None, off])
        props[key.format(p)] = own
        opened[p] = (own or whole) in (off, "OPEN")
    return props, opened


def switch(kind):
    def fn(env):
        from models.components.switch import SwitchStatus
        f = two_nodes(env)
        phases = env.choice("phases", ["ABC", "B", "CA"])
        props, opened = states(env, phases, "CLOSED", "OPEN", "phase_{}_state")
        f.obj(kind, "s1", phases=phases + env.choice("neutral", ["", "N"]), **LINK, **props)
        net = f.read()
        nodes_only(env, net, ["src", "end"])
        links(env, net.switches, net, {True: SwitchStatus.OPEN, False: SwitchStatus.CLOSED}, opened)
        env.check("nothing else", not (net.fuses or net.lines or net.loads or net.capacitors or net.regulators or net.transformers))
    return fn


def stray_states(env):
    """states of phases that the object does not have"""
    from models.components.switch import SwitchStatus
    from models.components.fuse import FuseStatus
    f = two_nodes(env)
    p = env.choice("phase", ["A", "B", "C"])
    fuse = env.boolean("fuse")
    on, off, key = ("GOOD", "BLOWN", "phase_{}_status") if fuse else ("CLOSED", "OPEN", "phase_{}_state")
    own = {q: env.choice("state of " + q, [on, off]) for q in "ABC"}
    f.obj("fuse" if fuse else "switch", "s1", phases=p + "N", current_limit=100.0 if fuse else None, **LINK, **{key.format(q): s for q, s in own.items()})
    net = f.read()
    opened = {p: own[p] == off}
    if fuse:
        links(env, net.fuses, net, {True: FuseStatus.BLOWN, False: FuseStatus.GOOD}, opened)
    else:
        links(env, net.switches, net, {True: SwitchStatus.OPEN, False: SwitchStatus.CLOSED}, opened)


def fuse(env):
    from models.components.fuse import FuseStatus
    f = two_nodes(env)
    phases = env.choice("phases", ["ABC", "B", "CA"])
    props, opened = states(env, phases, "GOOD", "BLOWN", "phase_{}_status")
    lim = env.pos("limit", 0.1, 5000)
    f.obj("fuse", "s1", phases=phases, current_limit=(lim, "A") if env.boolean("unit") else lim, **LINK, **props)
    net = f.read()
    nodes_only(env, net, ["src", "end"])
    links(env, net.fuses, net, {True: FuseStatus.BLOWN, False: FuseStatus.GOOD}, opened)
    inner = [e.interior_node for e in net.fuses]
    env.check("a bus of its own inside each", all(sum(x is b for x in net.buses) == 1 and b.IsVirtual for b in inner)
              and len({id(b) for b in inner}) == len(inner))
    for e in net.fuses:
        env.eq("current limit", e.current_limit, lim)
    env.check("nothing else", not (net.switches or net.lines or net.loads or net.capacitors or net.regulators or net.transformers))


def several(env):
    """a chain of two links, next to one that ends at the same nodes"""
    from models.components.switch import SwitchStatus
    from models.components.fuse import FuseStatus
    f = Feeder(env, env.choice("style", ["plain", "busy"]))
    f.source("src")
    f.node("mid")
    f.node("end")
    opened = {}
    items = [("switch", "s1", "src", "mid", "ABC"), ("switch", "s2", "mid", "end", "AB"), ("fuse", "f1", "src", "mid", "C"), ("recloser", "r1", "end", "mid", "CB")]
    lim = env.pos("limit", 1, 500)
    for kind, name, a, b, phases in items:
        s = env.choice("status of " + name, ["CLOSED", "OPEN", None])
        opened[name] = s == "OPEN"
        f.obj(kind, name, phases=phases, status=s, current_limit=lim if kind == "fuse" else None, **{"from": a, "to": b})
    net = f.read()
    nodes_only(env, net, ["src", "mid", "end"])

    def key(e, off):
        return e.from_node.NodeName, e.to_node.NodeName, e.phase, e.from_node.NodePhase, e.to_node.NodePhase, e.status == off
    want = sorted((a, b, p, p, p, opened[n]) for k, n, a, b, ph in items if k != "fuse" for p in ph)
    env.check("switches", sorted(key(e, SwitchStatus.OPEN) for e in net.switches) == want)
    env.check("fuses", [key(e, FuseStatus.BLOWN) for e in net.fuses] == [("src", "mid", "C", "C", "C", opened["f1"])])


# ---- sources and nodes --------------------------------------------------------------------------------------------------

ANGLE = {"A": (1, 0), "B": (-0.5, -1), "C": (-0.5, 1)}      # the second is in units of sqrt(3)/2


def source(env):
    f = Feeder(env, env.choice("style", ["plain", "busy"]))
    phases = env.choice("phases", ["ABC", "CA", "B"])
    vn = env.pos("nominal", 100, 40000)
    given = env.choice("voltages", ["none", "one", "all"])
    v, props = {}, {}
    s3 = env.sqrt(3)
    for k, p in enumerate(phases):
        if given == "all" or given == "one" and k == 0:
            v[p] = env.cplx("v" + p, -20000, 20000)
            env.assume(v[p].real * v[p].real + v[p].imag * v[p].imag > 1)
            props["voltage_" + p] = ("c", v[p])
        else:
            c, s = ANGLE[p]
            v[p] = env.mkc(vn * c, vn * s * s3 / 2)
    unit = env.boolean("kV")
    f.obj(env.choice("kind", ["node", "meter"]), "src", phases=phases + "N", bustype="SWING", nominal_voltage=(vn / 1000, "kV") if unit else vn, **props)
    for n in env.choice("others", [["x"], ["x", "y"]]):
        f.node(n, vn, phases=phases + "N", bustype=env.choice("type of " + n, [None, "PQ"]))
    net = f.read()
    env.check("one source per phase", sorted(s.bus.NodePhase for s in net.slack) == sorted(phases))
    for s in net.slack:
        p = s.bus.NodePhase
        env.check("source terminal", s.bus is bus(env, net, "src", p))
        env.eq("source voltage " + p, [s.Vr_set, s.Vi_set], [v[p].real, v[p].imag], tol=1e-4)


def children(env):
    """children share the buses of their parents"""
    f = Feeder(env, env.choice("style", ["plain", "busy"]))
    v = env.pos("nominal", 100, 40000)
    mid = env.choice("phases of the first child", ["ABC", "BA"])
    end = env.choice("phases of the second child", ["B", "A"])
    objs = [lambda: f.source("src", v), lambda: f.node("n1", v),
            lambda: f.node("m1", v if env.boolean("nominal of m1") else None, phases=mid + "N", parent="n1"),
            lambda: f.obj("meter", "m2", phases=end + "N", nominal_voltage=v, parent="m1")]
    for k in env.choice("order", [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (0, 2, 1, 3)]):
        objs[k]()
    x = env.cplx("power", -90, 90)
    env.assume(env.any(x.real != 0, x.imag != 0))
    f.obj("load", "l1", phases=end + "N", parent="m2", nominal_voltage=v, **{"constant_power_" + end: ("c", x)})
    net = f.read()
    nodes_only(env, net, ["src", "n1"])
    for p in mid:
        env.check("first child", bus(env, net, "m1", p) is bus(env, net, "n1", p))
    env.check("second child", bus(env, net, "m2", end) is bus(env, net, "n1", end))
    env.check("one load", len(net.loads) == 1)
    env.check("terminal of the load", net.loads[0].from_bus is bus(env, net, "n1", end))
    env.eq("load", [net.loads[0].P, net.loads[0].Q], [x.real, x.imag])


# ---- capacitors and regulators ------------------------------------------------------------------------------------------

def capacitor(env):
    from models.components.capacitor import CapSwitchState, CapacitorMode
    from models.components.bus import GROUND
    f = two_nodes(env)
    v = env.pos("nominal", 100, 40000)
    mode = env.choice("control", ["MANUAL", "VOLT"])
    unit, k = env.choice("unit", [("", 1), ("VAr", 1), ("kVAr", 1000), ("MVAr", 1000000)])
    phases = env.choice("phases", ["ABC", "CA", "B"])
    connected = phases if env.boolean("all connected") else phases[:1]
    props, q, state = {}, {}, {}
    for p in phases:
        x = env.pos("q" + p, 0.01, 3000)
        props["capacitor_" + p] = (x, unit) if unit else x
        q[p] = x * k
        s = env.choice("switch of " + p, [None, "OPEN", "CLOSED"]) if mode == "MANUAL" else None
        props["switch" + p] = s
        state[p] = CapSwitchState[s or "OPEN"] if mode == "MANUAL" else None
    lo, hi = env.pos("low", 100, 40000), env.pos("high", 100, 40000)
    if mode == "VOLT":
        kv = env.boolean("thresholds in kV")
        props.update(voltage_set_low=(lo / 1000, "kV") if kv else lo, voltage_set_high=(hi / 1000, "kV") if kv else hi)
    f.obj("capacitor", "c1", phases=phases + "N", parent="end", control=mode, nominal_voltage=v, cap_nominal_voltage=v,
          phases_connected=None if connected == phases else connected + "N", **props)
    net = f.read()
    env.check("one per connected phase", sorted(c.from_bus.NodePhase for c in net.capacitors) == sorted(connected))
    for c in net.capacitors:
        p = c.from_bus.NodePhase
        env.check("terminals", c.from_bus is bus(env, net, "end", p) and c.to_bus is GROUND)
        env.eq("susceptance", [c.G, c.B], [0, q[p] / (v * v)])
        env.check("control", c.mode == CapacitorMode[mode])
        if mode == "MANUAL":
            env.check("switch", c.switch == state[p])
        else:
            env.eq("thresholds", [c.low_voltage, c.high_voltage], [lo, hi])


def regulator(env):
    style, late, conn, far = env.choice("layout", [("plain", False, "WYE_WYE", "A"), ("busy", True, "1", "B"), ("plain", True, "WYE_WYE", "C")])
    f = Feeder(env, style)
    f.source("src")
    f.node("end")
    typ = env.choice("type", ["A", "B"])
    n = env.choice("taps", [8, 16])
    reg = env.pos("regulation", 0.01, 0.15)
    width, center = env.pos("width", 1, 10), env.pos("center", 100, 300)
    tap = {p: env.int("tap" + p, -32, 32) if p == far else env.int("tap" + p, -7, 7) for p in "ABC"}
    props = dict(connect_type=conn, band_center=center, band_width=width, time_delay=30.0,
                 raise_taps=("i", n), lower_taps=("i", n), regulation=reg, Control="MANUAL", Type=typ,
                 **{"tap_pos_" + p: ("i", t) for p, t in tap.items()})
    if not late:
        f.obj("regulator_configuration", "cfg", **props)
    f.obj("regulator", "r1", phases="ABC", configuration="cfg", **LINK)
    if late:
        f.obj("regulator_configuration", "cfg", **props)
    net = f.read()
    nodes_only(env, net, ["src", "end"])
    env.check("one per phase", sorted(r.from_node.NodePhase for r in net.regulators) == ["A", "B", "C"])
    for r in net.regulators:
        p = r.from_node.NodePhase
        env.check("terminals", r.from_node is bus(env, net, "src", p) and r.to_node is bus(env, net, "end", p))
        t = tap[p] if p != far or env.branch(env.all(tap[p] <= n, tap[p] >= -n)) else (n if env.branch(tap[p] > n) else -n)
        step = t * reg / n
        env.eq("ratio", r.turn_ratio * (1 + step) if typ == "A" else r.turn_ratio, 1 if typ == "A" else 1 - step)
        env.eq("ratio of its equations", r.transformer.tr, r.turn_ratio)
        env.eq("band", [r.vlow, r.vhigh], [center - width / 2, center + width / 2])
        env.check("internal bus", r.current_node.IsVirtual and sum(x is r.current_node for x in net.buses) == 1)
    env.check("internal buses differ", len({id(r.current_node) for r in net.regulators}) == 3)


S1 = "phases ABC, B and CA, every combination of given and missing states"
sc("switch", switch("switch"), bounds=S1)
sc("recloser", switch("recloser"), bounds=S1)
sc("fuse", fuse, bounds=S1 + "; any limit")
sc("stray-states", stray_states, bounds="one phase, states given for all")
sc("several", several, bounds="two switches, a recloser and a fuse between three nodes, any of them open")
sc("source", source, bounds="any nominal and given voltages; phases ABC, CA, B; one or two further nodes")
sc("children", children, bounds="two levels of children in four orders")
sc("capacitor", capacitor, bounds="any size and nominal voltage, units VAr, kVAr, MVAr; phases ABC, CA, B; manual and voltage control")
sc("regulator", regulator, bounds="any regulation and taps, also beyond the limits in one phase, 8 or 16 steps each way, types A and B")
