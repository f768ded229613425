"""C23: the loads of a feeder draw what their objects declare, at the declared terminals."""
from symx.run import Scenario
from checks._glm import *

SCENARIOS = []


def preload():
    import logic.network.networkmodel
    import logic.network.networkloader


def sc(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def compare(env, net, declared):
    """declared: list of (first terminal, second terminal or None, kind, complex value)"""
    from models.components.bus import GROUND
    want, got, ends = {}, {}, {}

    def pair(a, b):
        ends[id(a), id(b)] = a, b
        return id(a), id(b)
    for a, b, kind, z in declared:
        key = pair(bus(env, net, *a), bus(env, net, *b) if b else GROUND)
        if kind == "power":
            add(want, key, z.real, z.imag, 0, 0, 0, 0)
        elif kind == "current":
            add(want, key, 0, 0, z.real, z.imag, 0, 0)
        else:
            d = z.real * z.real + z.imag * z.imag
            add(want, key, 0, 0, 0, 0, z.real / d, -z.imag / d)
    for l in net.loads:
        y = (0, 0)
        if env.branch(env.any(l.Z.real != 0, l.Z.imag != 0)):
            d = l.Z.real * l.Z.real + l.Z.imag * l.Z.imag
            y = (l.Z.real / d, -l.Z.imag / d)
        for b in (l.from_bus, l.to_bus):
            env.check("load terminals are buses of the network or ground", b is GROUND or sum(x is b for x in net.buses) == 1)
        add(got, pair(l.from_bus, l.to_bus), l.P, l.Q, l.IP, l.IQ, *y)
    for k in list(want) + [k for k in got if k not in want]:
        a, b = ends[k]
        name = f"{a.NodeName} {a.NodePhase}-{'ground' if b is GROUND else b.NodePhase}"
        env.eq("declared demand " + name, got.get(k, [0] * 6), want.get(k, [0] * 6))


NAMES = {"power": "constant_power_", "current": "constant_current_", "impedance": "constant_impedance_"}


def kinds(env):
    """each kind of demand on each phase of a load at a node"""
    f = Feeder(env, env.choice("style", ["plain", "busy"]))
    f.source()
    ph = env.choice("phase", ["A", "B", "C"])
    short = env.boolean("short names")
    decl, props = [], {}
    for kind in ("power", "current", "impedance"):
        v = env.cplx(kind, -90, 90)
        n = NAMES[kind]
        if kind == "power" and short:
            n = n.replace("constant_", "")
        props[n + ph] = ("c", v)
        decl.append((("src", ph), None, kind, v))
    f.obj("load", "l1", parent="src", phases=ph + "N", nominal_voltage=7200.0, **props)
    nonzero(env, decl, parts=False)
    compare(env, f.read(), decl)


def nonzero(env, decl, parts=True):
    """impedances are not zero; where parts is given, every value has an active and a reactive part"""
    for a, b, kind, v in decl:
        if parts:
            env.assume(env.all(v.real != 0, v.imag != 0))
        elif kind == "impedance":
            env.assume(env.any(v.real != 0, v.imag != 0))


def phases(env):
    """grounded, line-to-line and delta loads of three phases"""
    f = Feeder(env)
    f.source()
    f.node("n1")
    conn = env.choice("connection", ["grounded", "between phases", "delta"])
    kind = env.choice("kind", ["power"] if conn == "between phases" else ["power", "current", "impedance"])
    keys = {"grounded": ["A", "B", "C"], "between phases": ["AB", "BC", "CA"], "delta": ["A", "B", "C"]}[conn]
    props, decl = {}, []
    for k in keys:
        if env.choice("given " + k, [True, False]):
            v = env.cplx("v" + k, -90, 90)
            props[NAMES[kind] + k] = ("c", v)
            second = None if conn == "grounded" else ("n1", {"A": "B", "B": "C", "C": "A"}[k[0]])
            decl.append((("n1", k[0]), second, kind, v))
    f.obj("load", "l1", parent="n1", phases="ABCD" if conn == "delta" else "ABCN", nominal_voltage=7200.0, **props)
    nonzero(env, decl)
    compare(env, f.read(), decl)


def delta_pairs(env):
    """a delta load may also name the pair of phases"""
    f = Feeder(env)
    f.source()
    pair = env.choice("pair", ["AB", "BC", "CA"])
    kind = env.choice("kind", ["power", "current", "impedance"])
    v, w = env.cplx("v", -90, 90), env.cplx("w", -90, 90)
    f.obj("load", "l1", parent="src", phases="ABCD", nominal_voltage=7200.0, **{NAMES["power"] + pair: ("c", v), NAMES[kind] + pair[0]: ("c", w)})
    decl = [(("src", pair[0]), ("src", pair[1]), k, x) for k, x in (("power", v), (kind, w))]
    nonzero(env, decl)
    compare(env, f.read(), decl)


def places(env):
    """a load is its own node, hangs at a node, at a meter, or at a meter of a node"""
    f = Feeder(env, env.choice("style", ["plain", "busy"]))
    f.source()
    f.node("n1")
    f.obj("meter", "m1", parent="n1", phases="ABCN", nominal_voltage=7200.0)
    v = [env.cplx(f"v{i}", -90, 90) for i in range(5)]
    f.obj("load", "own", phases="ABN", nominal_voltage=7200.0, constant_power_A=("c", v[0]), constant_power_B=("c", v[1]))
    f.obj("load", "at_node", parent="n1", phases="AN", nominal_voltage=7200.0, constant_power_A=("c", v[2]))
    f.obj("load", "at_meter", parent="m1", phases="ACN", nominal_voltage=7200.0, constant_power_A=("c", v[3]), constant_power_C=("c", v[4]))
    for x in v:
        env.assume(x.real != 0)
    net = f.read()
    env.check("a meter at a node is that node", all(net.bus_name_map["m1_" + p] is net.bus_name_map["n1_" + p] for p in "ABC"))
    compare(env, net, [(("own", "A"), None, "power", v[0]), (("own", "B"), None, "power", v[1]), (("n1", "A"), None, "power", v[2]),
                       (("n1", "A"), None, "power", v[3]), (("n1", "C"), None, "power", v[4])])


def triplex(env):
    """split-phase loads: between a leg and the neutral, or between the legs"""
    f = Feeder(env, env.choice("style", ["plain", "busy"]))
    ph = env.choice("phase", ["A", "B", "C"])
    f.source()
    own = env.choice("place", ["own", "meter", "node"])
    if own != "own":
        f.obj("triplex_meter" if own == "meter" else "triplex_node", "t0", phases=ph + "S", nominal_voltage=120.0)
    n = env.choice("names", ["power_", "impedance_", "constant_power_"])
    kind = "impedance" if n == "impedance_" else "power"
    at = "l1" if own == "own" else "t0"
    props, decl = {}, []
    for k in ("1", "2", "12"):
        if env.choice("given " + k, [True, False]):
            v = env.cplx("v" + k, -90, 90)
            props[n + k] = ("c", v)
            decl.append(((at, k[0]), (at, "2") if k == "12" else None, kind, v))
    if own != "own":
        props["parent"] = "t0"
    cls = "triplex_load" if n.startswith("constant") else "triplex_node"
    f.obj(cls, "l1", phases=ph + "S", nominal_voltage=120.0, **props)
    nonzero(env, decl)
    net = f.read()
    compare(env, net, decl)


sc("kinds", kinds, bounds="one phase, each of the three kinds at once, both styles of names and text")
sc("phases", phases, bounds="any subset of three phases, three connections, three kinds")
sc("delta-pairs", delta_pairs, bounds="one pair of phases by its own name and by its first phase")
sc("places", places, bounds="3 loads: own node, node and meter")
sc("triplex", triplex, bounds="any subset of the legs, powers and impedances, own node, at a meter or at a node")
