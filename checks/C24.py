"""C24: transformers of a feeder connect the declared windings with the declared ratio and impedance."""
from symx.run import Scenario
from checks._glm import *

SCENARIOS = []


def preload():
    import logic.network.networkmodel
    import logic.network.networkloader


def sc(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


NEXT = {"A": "B", "B": "C", "C": "A"}
NAMES = {"wye-wye": ["WYE_WYE", "1"], "delta-delta": ["DELTA_DELTA", "2"], "delta-wye": ["DELTA_GWYE", "3"], "single": ["SINGLE_PHASE", "4"],
         "split": ["SINGLE_PHASE_CENTER_TAPPED", "5"]}


def volts(env, name, unit, lo, hi):
    """(declared value, volts)"""
    v = env.pos(name, lo, hi)
    if unit == "kV":
        return (v, "kV"), v * 1000
    if unit == "kV attached":
        return (v, "kV", ""), v * 1000
    return (v, "V") if unit == "V" else v, v


def config(env, f, conn, units=("", "V", "kV", "kV attached"), ratings=("total", "phases"), impedances=("parts", "complex")):
    """a configuration; returns (name, dict of what it says)"""
    u = env.choice("unit", list(units))
    hi, V1 = volts(env, "primary", u, 1, 60)
    lo, V2 = volts(env, "secondary", u, 1, 60)
    r, x = env.pos("r", 0.001, 0.1), env.pos("x", 0.001, 0.2)
    props = dict(connect_type=env.choice("connect type", NAMES[conn]), install_type="PADMOUNT", primary_voltage=hi, secondary_voltage=lo)
    if env.choice("ratings", list(ratings)) == "total":
        S = env.pos("rating", 1, 5000)
        props["power_rating"] = env.choice("rating unit", ["", "kVA"]) and (S, "kVA") or S
    else:
        parts = {p: env.pos("rating" + p, 1, 2000) for p in env.choice("rated phases", ["A", "AC", "ABC"])}
        props.update({f"power{p}_rating": v for p, v in parts.items()})
        S = sum(parts.values())
    if env.choice("impedance", list(impedances)) == "parts":
        props.update(resistance=r, reactance=x)
    else:
        props.update(impedance=("c", env.mkc(r, x)))
    return props, dict(V1=V1, V2=V2, r=r, x=x, S=S * 1000)


def three(conn, **kw):
    def fn(env):
        f = Feeder(env, env.choice("style", ["plain", "busy"]))
        f.source("src")
        f.node("low", 2400.0)
        props, d = config(env, f, conn, **kw)
        late = env.boolean("configuration after use")
        if not late:
            f.obj("transformer_configuration", "cfg", **props)
        phases = env.choice("phases", ["ABC", "CBA", "BCA"] if conn.startswith("delta") else ["ABC", "B", "CA"])
        f.obj("transformer", "t1", phases=phases + ("D" if conn == "delta-delta" else "N"), **{"from": "src", "to": "low"}, configuration="cfg")
        if late:
            f.obj("transformer_configuration", "cfg", **props)
        net = f.read()
        compare(env, net, conn, phases, d)
    return fn


def compare(env, net, conn, phases, d):
    from models.components.bus import GROUND
    one = [t for t in net.transformers]
    env.check("one winding pair per phase", len(one) == len(phases))
    s3 = env.sqrt(3)
    dp, ds = conn.startswith("delta"), conn == "delta-delta"
    ratio = d["V1"] / d["V2"]
    if dp and not ds:
        ratio = ratio * s3
    k = (3 if ds else 1) * d["V2"] * d["V2"] / d["S"]
    r, x = d["r"] * k, d["x"] * k
    den = r * r + x * x
    seen = []
    for t in one:
        p = t.from_bus_pos.NodePhase
        seen.append(p)
        env.check("winding terminals", t.from_bus_pos is bus(env, net, "src", p)
                  and t.from_bus_neg is (bus(env, net, "src", NEXT[p]) if dp else GROUND)
                  and t.to_bus_pos is bus(env, net, "low", p)
                  and t.to_bus_neg is (bus(env, net, "low", NEXT[p]) if ds else GROUND))
        env.eq("winding ratio", t.tr, ratio)
        env.eq("no phase shift besides the connection", t.ang_rad, 0)
        env.eq("series admittance", [t.G_loss, t.B_loss], [r / den, -x / den])
        env.eq("rated power", t.power_rating, d["S"])
    env.check("each phase once", sorted(seen) == sorted(phases))


def split(env, **kw):
    f = Feeder(env, env.choice("style", ["plain", "busy"]))
    f.source("src")
    ph = env.choice("phase", ["A", "B", "C"])
    f.obj("triplex_meter", "low", phases=ph + "S", nominal_voltage=120.0)
    props, d = config(env, f, "split", **kw)
    own = env.choice("winding impedances", [False, True])
    if own:
        z = [(d["r"], d["x"])] + [(env.pos(f"r{k}", 0.001, 0.1), env.pos(f"x{k}", 0.001, 0.2)) for k in (1, 2)]
        props.update({f"impedance{k}": ("c", env.mkc(*z[k])) for k in (1, 2)})
    else:
        z = [(d["r"] / 2, d["x"] * 0.8)] + [(d["r"], d["x"] * 0.4)] * 2
    f.obj("transformer_configuration", "cfg", **props)
    f.obj("transformer", "t1", phases=ph + "S", **{"from": "src", "to": "low"}, configuration="cfg")
    net = f.read()
    env.check("one transformer", len(net.transformers) == 1)
    t = net.transformers[0]
    c = t.coils
    env.check("winding terminals", c[0].from_node is bus(env, net, "src", ph) and c[1].to_node is bus(env, net, "low", "1")
              and c[2].to_node is bus(env, net, "low", "2"))
    inner = [c[0].primary_node, c[1].sending_node, c[2].sending_node]
    env.check("three inner nodes of its own", len({id(b) for b in inner}) == 3 and all(sum(x is b for x in net.buses) == 1 for b in inner)
              and all(b.IsVirtual for b in inner) and not any(b is x for b in inner for x in (c[0].from_node, c[1].to_node, c[2].to_node)))
    env.eq("turns ratio", t.turn_ratio, d["V1"] / d["V2"])
    env.eq("rated power", t.power_rating, d["S"])
    for k, (g, b) in enumerate(((t.g0, t.b0), (t.g1, t.b1), (t.g2, t.b2))):
        V = d["V1"] if k == 0 else d["V2"]
        r, x = (q * V * V / d["S"] for q in z[k])
        den = r * r + x * x
        env.eq(f"admittance of winding {k + 1}", [g, b], [r / den, -x / den])


def shared(env):
    """several transformers with one configuration"""
    f = Feeder(env)
    f.source("src")
    props, d = config(env, f, "split", units=("kV",), ratings=("total",), impedances=("parts",))
    f.obj("transformer_configuration", "cfg", **props)
    names = []
    for k, ph in enumerate("ABA"):
        n = f.obj("triplex_meter", f"low{k}", phases=ph + "S", nominal_voltage=120.0)
        f.obj("transformer", f"t{k}", phases=ph + "S", **{"from": "src", "to": n}, configuration="cfg")
        names.append((n, ph))
    net = f.read()
    env.check("each transformer once", len(net.transformers) == 3)
    inner = [b for t in net.transformers for b in (t.coils[0].primary_node, t.coils[1].sending_node, t.coils[2].sending_node)]
    env.check("inner nodes are not shared", len({id(b) for b in inner}) == 9)
    for t, (n, ph) in zip(net.transformers, names):
        env.check("winding terminals", t.coils[0].from_node is bus(env, net, "src", ph) and t.coils[1].to_node is bus(env, net, n, "1")
                  and t.coils[2].to_node is bus(env, net, n, "2"))
        env.eq("turns ratio", t.turn_ratio, d["V1"] / d["V2"])
        r, x = d["r"] * d["V2"] * d["V2"] / d["S"], d["x"] * d["V2"] * d["V2"] * 0.4 / d["S"]
        env.eq("winding admittance", [t.g2, t.b2], [r / (r * r + x * x), -x / (r * r + x * x)])


for c in ("wye-wye", "delta-delta", "delta-wye", "single"):
    sc(c, three(c), bounds="any voltages with or without unit, total or per-phase ratings, both impedance forms")
sc("split", split, bounds="any voltages with or without unit, total or per-phase ratings, default or own winding impedances")
sc("shared", shared, bounds="3 transformers with one configuration")
