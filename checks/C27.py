"""C27: what a feeder file means does not depend on its layout, the order of its objects or the units it uses."""
from symx.run import Scenario
from checks._glm import *

SCENARIOS = []


def preload():
    import logic.network.networkmodel
    import logic.network.networkloader
    import models.components.unbalanced_line


def sc(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


class Page(Feeder):
    """a feeder written in one of several layouts; spaced: complex numbers have spaces and phases bars"""

    def __init__(self, env, layout="plain", spaced=False, order=None, nested=(), others=False):
        super().__init__(env)
        self.others = others
        self.layout, self.spaced, self.order, self.nested = layout, spaced, order, dict(nested)

    def value(self, v):
        t = super().value(v)
        if self.spaced and isinstance(v, tuple) and v[0] == "c":
            im = self.env.lit(v[1].imag)
            t = self.env.lit(v[1].real) + (" -" + im[1:] if im[:1] == "-" else " + " + im) + "j"
        return t

    def text(self):
        objs = {n or k: (kind, n, [(p, self.value("|".join(v) if self.spaced and p == "phases" else v)) for p, v in props.items()]) for k, (kind, n, props) in enumerate(self.objs)}
        keys = list(objs)
        if self.order:
            keys = [keys[i] for i in self.order]
        inner = {}
        for a, b in self.nested.items():
            inner.setdefault(b, []).append(a)

        def put(k):
            kind, name, props = objs[k]
            if k in self.nested:
                props = [p for p in props if p[0] != "parent"]
            if name and ":" in name:
                kind = name
            elif name:
                props = [("name", name)] + props
            body = [p + " " + v for p, v in props]
            sub = [put(x) for x in inner.get(k, [])]
            return LAYOUTS[self.layout](kind, body, sub)
        parts = [put(k) for k in keys if k not in self.nested]
        if self.others:
            parts = [x for i, p in enumerate(parts) for x in (OTHERS[i % len(OTHERS)], p)] + [OTHERS[0]]
        return "\n".join(parts) + "\n"


def plain(kind, body, sub):
    return f"object {kind} {{\n" + "".join(f"  {x};\n" for x in body) + "".join(sub) + "}\n"


def one_line(kind, body, sub):
    return f"object {kind} {{ " + "; ".join(body) + "; " + " ".join(sub) + "}"


def tight(kind, body, sub):
    return f"object {kind}{{" + ";".join(body) + ";" + "".join(sub) + "};"


def pairs(kind, body, sub):
    r = [f"object {kind}", "{"]
    for i in range(0, len(body), 2):
        r.append("\t" + "; ".join(body[i:i + 2]) + ";")
    r += sub
    r[-1] += " }"
    return "\n".join(r)


def inside_first(kind, body, sub):
    """nested objects before the properties of their parent, name last"""
    return f"object {kind} {{ // comment; with {{ braces }}\n" + "".join(sub) + "".join(f"\t{x};   // {x};\n" for x in body[::-1]) + "}\n# remark { x }\n"


# what else is in such files
OTHERS = [
    "clock {\n timezone EST+5EDT;\n starttime '2017-06-01 14:00:00';\n};\n",
    "schedule weekday {\n 0-29 8 * * 1-5 1.5;\n * 9-17 * * 1-5 2.5;\n}\n",
    "schedule season {\n {\n  * * * 6-8 * 1.5;\n }\n {\n  * * * 9-12 * 2.5;\n }\n}\n",
    "module powerflow {\n solver_method NR;\n}\nmodule tape;\n#set profiler=1\n",
    "object recorder {\n parent src;\n property voltage_A,voltage_B;\n interval 60;\n}\n",
    "object house {\n parent src;\n floor_area 1500;\n object ZIPload {\n  base_power 2.5;\n };\n};\n",
    "// object load {\n//  parent src;\n// }\n",
]

LAYOUTS = dict(plain=plain, one_line=one_line, tight=tight, pairs=pairs, inside_first=inside_first)


# ---- what a network is ----------------------------------------------------------------------------------------------------

def describe(net):
    """terminals -> numbers, independent of the order of elements"""
    from models.components.bus import GROUND

    def at(b):
        return "ground" if b is GROUND else f"{b.NodeName}.{b.NodePhase}"
    d = {}

    def put(key, *xs):
        d[key] = [a + b for a, b in zip(d[key], xs)] if key in d else list(xs)
    for b in net.buses:
        if not b.IsVirtual:
            put("bus " + at(b), 1)
    for k, b in net.bus_name_map.items():
        if not b.IsVirtual:
            put(f"name {k} of {at(b)}", 1)
    for e in net.loads:
        put(f"load {at(e.from_bus)} {at(e.to_bus)}", e.P, e.Q, e.IP, e.IQ, e.Z.real, e.Z.imag)
    for e in net.switches:
        put(f"switch {at(e.from_node)} {at(e.to_node)} {e.status.name}", 1)
    for e in net.fuses:
        put(f"fuse {at(e.from_node)} {at(e.to_node)} {e.status.name}", 1, e.current_limit)
    for e in net.capacitors:
        put(f"capacitor {at(e.from_bus)} {e.mode.name} {e.switch.name}", 1, e.B, e.high_voltage or 0, e.low_voltage or 0)
    for e in net.regulators:
        put(f"regulator {at(e.from_node)} {at(e.to_node)}", 1, e.turn_ratio, e.vlow, e.vhigh)
    for e in net.transformers:
        if hasattr(e, "from_bus_pos"):
            put(f"transformer {at(e.from_bus_pos)} {at(e.from_bus_neg)} {at(e.to_bus_pos)} {at(e.to_bus_neg)}", 1, e.tr, e.ang_rad, e.G_loss, e.B_loss)
        else:
            c = e.coils
            put(f"center tap {at(c[0].from_node)} {at(c[1].to_node)} {at(c[2].to_node)}", 1, e.turn_ratio, e.g0, e.b0, e.g1, e.b1, e.g2, e.b2)
    for e in net.lines:
        for i, x in enumerate(e.lines):
            a, b = x.get_nodes(net)
            for j, y in enumerate(e.lines):
                c = y.get_nodes(net)[0]
                put(f"line {at(a)} {at(b)} by {at(c)}", 1, e.impedances[i][j].real, e.impedances[i][j].imag)
    for e in net.slack:
        put(f"source {at(e.bus)}", 1, e.Vr_set, e.Vi_set)
    return d


def read(env, f):
    import models.components.unbalanced_line as m
    with env.inverse_as_function(m, "calcInverse"):
        return describe(f.read())


def same(env, got, want):
    env.check("elements and their terminals", sorted(got) == sorted(want))
    for k in sorted(want):
        if k in got:
            env.eq(k, got[k], want[k])


# ---- layout -----------------------------------------------------------------------------------------------------------------

def feeder(env, f, fix):
    """the objects of a small feeder; fix: its numbers, drawn once"""
    z, w, q, lim, ln = fix
    f.source("src")
    f.node("n1")
    f.obj("load", "l1", parent="n1", phases="ABCN", nominal_voltage=7200.0, constant_power_A=("c", z), constant_impedance_B=("c", w))
    f.obj("meter", "m1", parent="n1", phases="ABN", nominal_voltage=7200.0)
    f.obj("load", "l2", parent="m1", phases="BN", nominal_voltage=7200.0, constant_current_B=("c", z))
    f.obj("capacitor", "c1", parent="n1", phases="ABN", control="MANUAL", switchA="CLOSED", capacitor_A=q, capacitor_B=q * 2,
          nominal_voltage=7200.0, cap_nominal_voltage=7200.0)
    f.obj("fuse", "f1", **{"from": "src", "to": "n1"}, phases="ABC", current_limit=lim, phase_B_status="BLOWN")
    f.obj("line_configuration", "cfg", z11=("c", w), z22=("c", w), z33=("c", w), **{k: ("c", env.mkc(0.125, 0.25)) for k in ("z12", "z13", "z23", "z21", "z31", "z32")})
    f.obj("node", "n2", phases="ABCN", nominal_voltage=7200.0)
    f.obj("overhead_line", "o1", **{"from": "n1", "to": "n2"}, phases="ABC", length=ln, configuration="cfg")


def configured(env, f, fix):
    """objects that refer to configurations"""
    z, w, q, lim, ln = fix
    f.source("src")
    f.node("n1")
    f.node("n2")
    f.node("n3", v=2400.0)
    f.obj("triplex_node", "t1", phases="BS", nominal_voltage=120.0)
    f.obj("triplex_node", "t2", phases="BS", nominal_voltage=120.0, power_1=("c", z), power_2=("c", w))
    f.obj("overhead_line", "o1", phases="AB", length=ln, configuration="ocfg", **{"from": "src", "to": "n1"})
    f.obj("line_configuration", "ocfg", conductor_A="acsr", conductor_B="acsr", conductor_N="acsr", spacing="gap")
    f.obj("overhead_line_conductor", "acsr", resistance=0.5, geometric_mean_radius=0.02)
    f.obj("line_spacing", "gap", distance_AB=4.0, distance_AN=5.0, distance_BN=3.0)
    f.obj("underground_line", "u1", phases="B", length=ln, configuration="ucfg", **{"from": "n1", "to": "n2"})
    f.obj("line_configuration", "ucfg", conductor_B="cable", spacing="none")
    f.obj("underground_line_conductor", "cable", conductor_resistance=0.5, conductor_gmr=0.02, conductor_diameter=0.5, outer_diameter=1.25, neutral_gmr=0.002,
          neutral_resistance=14.0, neutral_diameter=0.0625, neutral_strands="13")
    f.obj("line_spacing", "none", distance_AB=0.0)
    f.obj("triplex_line", "x1", phases="BS", length=ln, configuration="tcfg", **{"from": "t1", "to": "t2"})
    f.obj("triplex_line_configuration", "tcfg", conductor_1="wire", conductor_2="wire", conductor_N="wire", insulation_thickness=0.08, diameter=0.5)
    f.obj("triplex_line_conductor", "wire", resistance=0.5, geometric_mean_radius=0.02)
    f.obj("regulator", "r1", phases="ABC", configuration="rcfg", **{"from": "src", "to": "n1"})
    f.obj("regulator_configuration", "rcfg", connect_type="WYE_WYE", time_delay=30.0, band_center=120.0, band_width=2.0, raise_taps="16", lower_taps="16", regulation=0.1,
          Control="MANUAL", Type="B", tap_pos_A="1", tap_pos_B="2", tap_pos_C="3")
    f.obj("transformer", "d1", phases="ABC", configuration="dcfg", **{"from": "n1", "to": "n3"})
    f.obj("transformer_configuration", "dcfg", connect_type="WYE_WYE", primary_voltage=7200.0, secondary_voltage=2400.0, power_rating=q, resistance=0.01, reactance=0.05)
    f.obj("transformer", "d2", phases="BS", configuration="scfg", **{"from": "n2", "to": "t1"})
    f.obj("transformer_configuration", "scfg", connect_type="SINGLE_PHASE_CENTER_TAPPED", primary_voltage=7200.0, secondary_voltage=120.0, powerB_rating=q, impedance=("c", w))


def numbers(env):
    z, w = env.cplx("z", -90, 90), env.mkc(env.pos("wr", 0.5, 9), env.pos("wx", 0.5, 9))
    env.assume(env.all(z.real != 0, z.imag != 0))
    return z, w, env.pos("q", 1, 9000), env.pos("limit", 1, 500), env.pos("length", 10, 5000)


NESTED = ({}, {"l1": "n1"}, {"l1": "n1", "m1": "n1", "c1": "n1"}, {"m1": "n1", "l2": "m1"})


def layouts(env):
    fix = numbers(env)
    a = Feeder(env)
    feeder(env, a, fix)
    b = Page(env, env.choice("layout", list(LAYOUTS)), env.boolean("spaced"), nested=env.choice("nested", list(NESTED)), others=env.boolean("others"))
    feeder(env, b, fix)
    same(env, read(env, b), read(env, a))


def configured_layouts(env):
    fix = numbers(env)
    a = Feeder(env)
    configured(env, a, fix)
    b = Page(env, env.choice("layout", list(LAYOUTS)), env.boolean("spaced"), others=env.boolean("others"))
    configured(env, b, fix)
    same(env, read(env, b), read(env, a))


def orders(build):
    def fn(env):
        fix = numbers(env)
        a = Feeder(env)
        build(env, a, fix)
        n = len(a.objs)
        o = list(range(n))
        k = env.choice("order", ["reversed", "rotated", "halves", "odd first", "thirds"])
        o = dict(reversed=o[::-1], rotated=o[n - 3:] + o[:n - 3], halves=o[n // 2:] + o[:n // 2], thirds=o[2::3] + o[1::3] + o[::3]).get(k) or o[1::2] + o[::2]
        b = Page(env, env.choice("layout", ["plain", "one_line"]), order=o)
        build(env, b, fix)
        same(env, read(env, b), read(env, a))
    return fn


def unnamed(env):
    """objects without a name or with a number"""
    v, z = 7200.0, env.cplx("z", -90, 90)
    env.assume(env.any(z.real != 0, z.imag != 0))
    lim = env.pos("limit", 1, 500)
    link = {"from": "src", "to": "n1"}

    def build(f, named):
        def name(x, kind):
            return {"names": x, "numbers": kind + ":" + x[1:], "nothing": None}[named]
        f.source("src")
        f.node("n1")
        f.obj("switch", name("s1", "switch"), phases="ABC", **link, status="OPEN")
        f.obj("switch", name("s2", "switch"), phases="AB", **link)
        f.obj("fuse", name("f1", "fuse"), phases="C", current_limit=lim, **link)
        for k in range(2):
            f.obj("load", name(f"l{k}", "load"), parent="n1", phases="AN", nominal_voltage=v, constant_power_A=("c", z))
        f.obj("capacitor", name("c1", "capacitor"), parent="n1", phases="AN", control="MANUAL", switchA="CLOSED", capacitor_A=3000.0, nominal_voltage=v, cap_nominal_voltage=v)
    a, b = Feeder(env), Page(env, env.choice("layout", list(LAYOUTS)))
    build(a, "names")
    build(b, env.choice("instead of names", ["numbers", "nothing"]))
    same(env, read(env, b), read(env, a))


# ---- units ------------------------------------------------------------------------------------------------------------------

# how much of the first unit, as a fraction
UNITS = {
    "V": [("V", 1, 1), ("kV", 1000, 1), ("MV", 1000000, 1)],
    "A": [("A", 1, 1), ("kA", 1000, 1)],
    "VA": [("VA", 1, 1), ("kVA", 1000, 1), ("MVA", 1000000, 1)],
    "VAr": [("VAr", 1, 1), ("kVAr", 1000, 1), ("MVAr", 1000000, 1)],
    "kVA": [("kVA", 1, 1), ("MVA", 1000, 1), ("VA", 1, 1000)],
    "ft": [("ft", 1, 1), ("in", 1, 12), ("yd", 3, 1), ("mile", 5280, 1), ("m", 10000, 3048), ("km", 10000000, 3048)],
    "gap": [("ft", 1, 1), ("in", 1, 12), ("m", 10000, 3048), ("cm", 100, 3048)],
    "in": [("in", 1, 1), ("ft", 12, 1), ("cm", 100, 254), ("mm", 10, 254)],
    "Ohm/mile": [("Ohm/mile", 1, 1), ("Ohm/km", 1609344, 1000000), ("Ohm/ft", 5280, 1)],
}


def unit(env, kind, x):
    """(text with a unit, the same in the documented unit)"""
    u, n, d = env.choice("unit", UNITS[kind])
    if isinstance(x, tuple):
        return (x, u), ("c", env.mkc(x[1].real * n / d, x[1].imag * n / d))
    return (x, u), x * n / d


class Units(Feeder):
    """exponent: numbers are written as so many thousandths"""

    def __init__(self, env, exponent=False):
        super().__init__(env)
        self.exponent = exponent

    def number(self, v):
        return (self.env.lit(v * 1000) + "e-03") if self.exponent and not isinstance(v, str) else super().value(v)

    def value(self, v):
        if self.exponent and isinstance(v, tuple) and v[0] == "c":
            re, im = self.number(v[1].real), self.number(v[1].imag)
            return re + ("" if im[:1] == "-" else "+") + im + "j"
        if self.exponent and not isinstance(v, (str, tuple)):
            return self.number(v)
        if self.exponent and isinstance(v, tuple) and len(v) == 2 and not isinstance(v[0], tuple):
            return self.number(v[0]) + " " + v[1]
        if isinstance(v, tuple) and isinstance(v[0], tuple):
            return self.value(v[0]) + " " + v[1]
        return super().value(v)


def convert(env, build, kind, x):
    a, b = Units(env), Units(env, env.boolean("exponent"))
    with_unit, documented = unit(env, kind, x)
    build(a, documented)
    build(b, with_unit)
    same(env, read(env, b), read(env, a))


def unit_of(kind, value, build):
    def fn(env):
        def go(f, v):
            f.source("src")
            f.node("n1")
            build(env, f, v)
        convert(env, go, kind, value(env))
    return fn


def load(prop):
    def build(env, f, v):
        f.obj("load", "l1", parent="n1", phases=prop[-1] + "N", nominal_voltage=7200.0, **{prop: v})
    return build


def source_voltage(env, f, v):
    f.obj("node", "s2", phases="AN", bustype="SWING", nominal_voltage=v)


def source_phase(env, f, v):
    f.obj("node", "s2", phases="AN", bustype="SWING", nominal_voltage=100.0, voltage_A=v)


def fuse_limit(env, f, v):
    f.obj("fuse", "f1", phases="ABC", **{"from": "src", "to": "n1"}, current_limit=v)


def cap(which):
    def build(env, f, v):
        p = dict(capacitor_A=500.0, nominal_voltage=7200.0, cap_nominal_voltage=7200.0, voltage_set_high=7000.0, voltage_set_low=6000.0)
        p[which] = v
        f.obj("capacitor", "c1", parent="n1", phases="AN", control="VOLT", **p)
    return build


def regulator(which):
    def build(env, f, v):
        p = dict(band_center=120.0, band_width=2.0)
        p[which] = v
        f.obj("regulator_configuration", "cfg", connect_type="WYE_WYE", time_delay=30.0, raise_taps="16", lower_taps="16", regulation=0.1, Control="MANUAL",
              Type="B", tap_pos_A="1", tap_pos_B="2", tap_pos_C="3", **p)
        f.obj("regulator", "r1", phases="ABC", configuration="cfg", **{"from": "src", "to": "n1"})
    return build


def xfmr(which):
    def build(env, f, v):
        p = dict(primary_voltage=7200.0, secondary_voltage=2400.0, power_rating=500.0)
        p[which] = v
        f.obj("transformer_configuration", "cfg", connect_type="WYE_WYE", resistance=0.01, reactance=0.05, **p)
        f.obj("transformer", "t1", phases="ABCN", configuration="cfg", **{"from": "src", "to": "n1"})
    return build


def line(which):
    def build(env, f, v):
        p = dict(z11=("c", env.mkc(0.5, 1.0)), z22=("c", env.mkc(0.625, 1.125)), z12=("c", env.mkc(0.125, 0.25)), z21=("c", env.mkc(0.125, 0.25)))
        ln = 1000.0
        if which == "length":
            ln = v
        else:
            p[which] = v
        f.obj("line_configuration", "cfg", **p)
        f.obj("overhead_line", "o1", phases="AB", length=ln, configuration="cfg", **{"from": "src", "to": "n1"})
    return build


def overhead(which):
    def build(env, f, v):
        c = dict(resistance=0.5, geometric_mean_radius=0.02)
        s = dict(distance_AB=4.0, distance_AN=5.0, distance_BN=3.0)
        (c if which in c else s)[which] = v
        f.obj("overhead_line_conductor", "con", **c)
        f.obj("line_spacing", "gap", **s)
        f.obj("line_configuration", "cfg", conductor_A="con", conductor_B="con", conductor_N="con", spacing="gap")
        f.obj("overhead_line", "o1", phases="ABN", length=1000.0, configuration="cfg", **{"from": "src", "to": "n1"})
    return build


def underground(which):
    def build(env, f, v):
        c = dict(conductor_resistance=0.5, conductor_gmr=0.02, conductor_diameter=0.5, outer_diameter=1.25, neutral_gmr=0.002, neutral_resistance=14.0,
                 neutral_diameter=0.0625, neutral_strands="13")
        s = dict(distance_AB=0.5)
        (c if which in c else s)[which] = v
        f.obj("underground_line_conductor", "con", **c)
        f.obj("line_spacing", "gap", **s)
        f.obj("line_configuration", "cfg", conductor_A="con", conductor_B="con", spacing="gap")
        f.obj("underground_line", "o1", phases="AB", length=1000.0, configuration="cfg", **{"from": "src", "to": "n1"})
    return build


def triplex(which):
    def build(env, f, v):
        c = dict(resistance=0.5, geometric_mean_radius=0.02)
        g = dict(insulation_thickness=0.08, diameter=0.5)
        (c if which in c else g)[which] = v
        for n in "ab":
            f.obj("triplex_node", n, phases="AS", nominal_voltage=120.0)
        f.obj("triplex_line_conductor", "con", **c)
        f.obj("triplex_line_configuration", "cfg", conductor_1="con", conductor_2="con", conductor_N="con", **g)
        f.obj("triplex_line", "o1", phases="AS", length=100.0, configuration="cfg", **{"from": "a", "to": "b"})
    return build


sc("layouts", layouts, bounds="a feeder of ten objects in five layouts, four nestings, complex numbers with and without spaces, other blocks between the objects; any numbers", weight=4)
sc("layouts-configured", configured_layouts, bounds="a feeder of 23 objects, with lines, transformers and a regulator that refer to configurations, in five layouts")
sc("orders", orders(feeder), bounds="the first feeder in five orders and two layouts")
sc("orders-configured", orders(configured), bounds="the second feeder in five orders and two layouts")
sc("unnamed", unnamed, bounds="parallel links, loads and a capacitor without names, or with numbers, in five layouts")
U = "any value, every unit of the quantity, with and without exponents"
for name, kind, lo, hi, build in [
        ("source nominal voltage", "V", 0.1, 40000, source_voltage),
        ("fuse limit", "A", 0.1, 5000, fuse_limit),
        ("capacitor size", "VAr", 0.1, 5000, cap("capacitor_A")),
        ("capacitor rated voltage", "V", 0.1, 40000, cap("cap_nominal_voltage")),
        ("capacitor threshold", "V", 0.1, 40000, cap("voltage_set_high")),
        ("regulator band", "V", 1, 300, regulator("band_center")),
        ("transformer voltage", "V", 0.1, 40000, xfmr("secondary_voltage")),
        ("transformer rating", "kVA", 0.1, 5000, xfmr("power_rating")),
        ("line length", "ft", 0.1, 5000, line("length")),
        ("overhead resistance", "Ohm/mile", 0.05, 9, overhead("resistance")),
        ("overhead gmr", "gap", 0.001, 0.1, overhead("geometric_mean_radius")),
        ("overhead spacing", "gap", 1, 30, overhead("distance_AB")),
        ("cable resistance", "Ohm/mile", 0.05, 9, underground("conductor_resistance")),
        ("neutral resistance", "Ohm/mile", 1, 30, underground("neutral_resistance")),
        ("neutral diameter", "in", 0.03, 0.1, underground("neutral_diameter")),
        ("triplex insulation", "in", 0.02, 0.2, triplex("insulation_thickness"))]:
    sc("unit of " + name, unit_of(kind, lambda env, lo=lo, hi=hi: env.pos("x", lo, hi, digits=4), build), bounds=U)
for name, kind, build in [
        ("source phase voltage", "V", source_phase),
        ("load power", "VA", load("constant_power_A")),
        ("load current", "A", load("constant_current_B")),
        ("line impedance", "Ohm/mile", line("z11"))]:
    sc("unit of " + name, unit_of(kind, lambda env: ("c", env.mkc(env.pos("x.re", 0.5, 90), env.pos("x.im", 0.5, 90))), build), bounds=U)
