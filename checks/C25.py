"""C25: lines of a feeder get the series impedance their configuration states."""
from symx.run import Scenario
from checks._glm import *

SCENARIOS = []


def preload():
    import logic.network.networkmodel
    import logic.network.networkloader
    import models.components.unbalanced_line


def sc(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


MILE = 1609.344
CLOSE = 0.04, 0.2        # distances of cables, just above their diameter
PAIRS = ("AB", "AC", "BC", "AN", "BN", "CN")


def own(env, r, gmr, under=False):
    """ohm per mile of a wire with earth return"""
    return env.mkc(r + (0.09327 if under else 0.0953), 0.12134 * ((7.95153 if under else 7.93402) - env.log(gmr)))


def mutual(env, d, under=False):
    return env.mkc(0.09327 if under else 0.0953, 0.12134 * ((7.95153 if under else 7.93402) - env.log(d)))


def length(env, units=True):
    """(declared, metres)"""
    v = env.pos("length", 0.1, 5000)
    if not units:
        return v, v * 0.3048
    u = env.choice("length unit", ["", "ft", "km", "km attached"])
    if u.startswith("km"):
        return (v, "km", "" if "att" in u else " "), v * 1000
    return (v, u) if u else v, v * 0.3048


def read(env, f):
    import models.components.unbalanced_line as m
    with env.inverse_as_function(m, "calcInverse"):
        return f.read()


def line_of(env, net, phases, ohms, metres, end="end", count=1):
    """compares the impedances of the line to that end, phase by phase"""
    env.check("number of lines", len(net.lines) == count)
    to = [bus(env, net, end, p) for p in phases]
    at = [x for x in net.lines if any(y.get_nodes(net)[1] is b for y in x.lines for b in to)]
    env.check("one line to this end", len(at) == 1)
    l = at[0]
    got = [x.phase for x in l.lines]
    env.check("phases of the line", sorted(got) == sorted(phases))
    for i, p in enumerate(got):
        a, b = l.lines[i].get_nodes(net)
        env.check("terminals of the line", a is bus(env, net, "src", p) and b is bus(env, net, end, p))
        for j, q in enumerate(got):
            env.eq("series impedance " + p + q, l.impedances[i][j], ohms[p, q] * metres / MILE)


def kron(z, phases, neutral="N"):
    return {(p, q): z[p, q] - z[p, neutral] * z[neutral, q] / z[neutral, neutral] for p in phases for q in phases}


def bare(env, f, phases, units):
    """a conductor per phase; returns names, (resistance in ohm per mile, radius in feet)"""
    names, data = {}, {}
    for p in phases:
        r, g = env.pos("r" + p, 0.05, 9), env.pos("gmr" + p, 0.001, 0.1)
        ru = gu = False
        if units == "metric":
            R, G = (r, "Ohm/km"), (g, "cm")
            data[p] = r * 1.609344, g / 30.48
        else:
            R, G = r, g
            data[p] = r, g
        names[p] = f.obj("overhead_line_conductor", "cond" + p, resistance=R, geometric_mean_radius=G)
    return names, data


def spaced(env, f, phases, unit="", scale=(0.5, 4)):
    """a spacing of the phases; returns the distances in feet"""
    d = {}
    props = {}
    base = {"AB": 2.5, "AC": 7.0, "BC": 4.5, "AN": 5.66, "BN": 4.27, "CN": 5.0}
    s = env.pos("spacing", *scale)
    k = 0
    for pq in PAIRS:
        if pq[0] in phases and pq[1] in phases:
            v = s * base[pq]
            props["distance_" + pq] = (v * 12, "in") if unit == "in" else v
            d[pq] = d[pq[::-1]] = v
    f.obj("line_spacing", "spacing1", **props)
    return d


def overhead(env):
    f = Feeder(env, env.choice("style", ["plain", "busy"]))
    f.source("src")
    f.node("end")
    phases = env.choice("phases", ["A", "BC", "ABC", "CN", "ABN", "ACN", "ABCN"])
    units = env.choice("units", ["", "metric"])
    names, data = bare(env, f, phases, units)
    d = spaced(env, f, phases, env.choice("spacing unit", ["", "in"])) if len(phases) > 1 else spaced(env, f, phases + "N")
    f.obj("line_configuration", "cfg", spacing="spacing1", **{"conductor_" + p: n for p, n in names.items()})
    L, metres = length(env)
    f.obj("overhead_line", "line1", phases=phases, **{"from": "src", "to": "end"}, length=L, configuration="cfg")
    z = {(p, q): own(env, *data[p]) if p == q else mutual(env, d[p + q]) for p in phases for q in phases}
    main = phases.replace("N", "")
    line_of(env, read(env, f), main, kron(z, main) if "N" in phases else z, metres)


def subset(env):
    """the line has fewer phases than its configuration, or the spacing has room for more wires"""
    f = Feeder(env)
    f.source("src")
    f.node("end")
    has = env.choice("conductors", ["AC", "BCN", "ABCN"])
    main = has.replace("N", "")
    phases = env.choice("phases", ["all"] + [p for p in main] + ([p for p in ("AB", "BC", "AC") if set(p) < set(main)]))
    phases = main if phases == "all" else phases
    names, data = bare(env, f, has, "")
    d = spaced(env, f, "ABCN")
    f.obj("line_configuration", "cfg", spacing="spacing1", **{"conductor_" + p: n for p, n in names.items()})
    L, metres = length(env)
    n = "N" if "N" in has and env.boolean("neutral") else ""
    f.obj("overhead_line", "line1", phases=phases + n, **{"from": "src", "to": "end"}, length=L, configuration="cfg")
    w = phases + n
    z = {(p, q): own(env, *data[p]) if p == q else mutual(env, d[p + q]) for p in w for q in w}
    line_of(env, read(env, f), phases, kron(z, phases) if n else z, metres)


def shared(kind):
    """two lines of one configuration, and a third whose configuration has the same conductors"""
    def fn(env):
        f = Feeder(env)
        f.source("src")
        first, second = env.choice("phases", [("ABCN", "BN"), ("A", "ABC"), ("BN", "ABCN"), ("AC", "AC")]) if kind == "overhead" else ("B", "CA")
        units = env.choice("units", ["", "metric"])
        if kind == "overhead":
            names, data = bare(env, f, "ABCN", units)
        else:
            names, data = cables(env, f, "ABC", units, (4, 3, 5))
        d = spaced(env, f, "ABCN", env.choice("spacing unit", ["", "in"]), (0.5, 4) if kind == "overhead" else CLOSE)
        f.obj("line_configuration", "cfg", spacing="spacing1", **{"conductor_" + p: n for p, n in names.items()})
        # conductors of other phases
        turn = dict(zip("ABC", "BCA"))
        f.obj("line_configuration", "cfg2", spacing="spacing1", **{"conductor_" + p: names[turn[p]] for p in "ABC"})
        want = []
        for n, (w, c) in enumerate([(first, "cfg"), (second, "cfg"), ("AB", "cfg2")]):
            end = f"end{n}"
            f.node(end)
            v = env.pos("length" + end, 0.1, 5000)
            f.obj(kind + "_line", f"line{n}", phases=w, **{"from": "src", "to": end}, length=v, configuration=c)
            main = w.replace("N", "")
            if kind == "overhead":
                dat = data if c == "cfg" else {p: data[turn[p]] for p in "ABC"}
                z = {(p, q): own(env, *dat[p]) if p == q else mutual(env, d[p + q]) for p in w for q in w}
                z = kron(z, main) if "N" in w else z
            else:
                z = concentric(env, main, False, data if c == "cfg" else {p: data[turn[p]] for p in "ABC"}, d)
            want.append((main, z, v * 0.3048, end))
        net = read(env, f)
        for main, z, metres, end in want:
            line_of(env, net, main, z, metres, end, 3)
    return fn


def cables(env, f, phases, units, strands):
    """underground conductors; returns names and per phase (r, gmr, radius of the neutral's circle, its resistance, its radius, strands)"""
    names, data = {}, {}
    for n, p in enumerate(phases):
        r, g = env.pos("r" + p, 0.05, 9), env.pos("gmr" + p, 0.001, 0.1)
        R = r
        if units:
            R, r = (r, "Ohm/km"), r * 1.609344
        if p == "N":
            props, data[p] = {}, (r, g)
        else:
            od, nd = env.pos("outer" + p, 0.8, 2), env.pos("strand" + p, 0.05, 0.2)
            rs, gs = env.pos("rs" + p, 1, 20), env.pos("gs" + p, 0.001, 0.01)
            k = strands[n % len(strands)]
            props = dict(outer_diameter=od, neutral_diameter=nd, neutral_resistance=rs, neutral_gmr=gs, neutral_strands=str(k),
                         conductor_diameter=env.pos("core" + p, 0.2, 0.6))
            data[p] = r, g, (od - nd) / 24, rs / k, gs, k
        names[p] = f.obj("underground_line_conductor", "cond" + p, conductor_resistance=R, conductor_gmr=g, **props)
    return names, data


def underground(phases_list, strand_list, units=True):
    def fn(env):
        pick = env.choice if units else lambda n, o: o[0]
        f = Feeder(env, pick("style", ["plain", "busy"]))
        f.source("src")
        f.node("end")
        phases = env.choice("phases", phases_list)
        main = phases.replace("N", "")
        names, data = cables(env, f, phases, pick("metric", [False, True]), env.choice("strands", strand_list))
        d = spaced(env, f, phases if len(phases) > 1 else phases + "N", pick("spacing unit", ["", "in"]), CLOSE)
        f.obj("line_configuration", "cfg", spacing="spacing1", **{"conductor_" + p: n for p, n in names.items()})
        L, metres = length(env, units)
        f.obj("underground_line", "line1", phases=phases, **{"from": "src", "to": "end"}, length=L, configuration="cfg")
        line_of(env, read(env, f), main, concentric(env, main, "N" in phases, data, d), metres)
    return fn


def concentric(env, main, neutral, data, d):
    """cores and their neutrals (and the neutral wire), reduced to the cores"""
    import numpy as np
    ear = lambda lg: env.mkc(0.09327, 0.12134 * (7.95153 - lg))
    core = [("core", p) for p in main]
    ret = [("cn", p) for p in main] + ([("wire", "N")] if neutral else [])

    def z(a, b):
        (ka, p), (kb, q) = a, b
        if a == b:
            if ka in ("core", "wire"):
                return env.mkc(data[p][0], 0) + ear(env.log(data[p][1]))
            _, _, R, r, g, k = data[p]
            return env.mkc(r, 0) + ear(env.log(g * k * R ** (k - 1)) / k)
        if {ka, kb} == {"core", "cn"}:
            c = a if ka == "cn" else b
            R, k = data[c[1]][2], data[c[1]][5]
            return ear(env.log(R)) if p == q else ear(env.log(d[p + q] ** k - R ** k) / k)
        return ear(env.log(d[p + q]))
    m = lambda A, B: [[z(a, b) for b in B] for a in A]
    inv = env.inverse(m(ret, ret))
    zin, znj = m(core, ret), m(ret, core)
    out = {}
    for i, p in enumerate(main):
        for j, q in enumerate(main):
            t = z(core[i], core[j])
            for x in range(len(ret)):
                for y in range(len(ret)):
                    t = t - zin[i][x] * inv[x][y] * znj[y][j]
            out[p, q] = t
    return out


def triplex(env):
    f = Feeder(env, env.choice("style", ["plain", "busy"]))
    f.source("far")
    for n in ("src", "end"):
        f.obj("triplex_meter", n, phases="BS", nominal_voltage=120.0)
    units = env.choice("units", ["", "metric"])
    names, data = {}, {}
    for p in "12N":
        r, g = env.pos("r" + p, 0.05, 9), env.pos("gmr" + p, 0.001, 0.1)
        data[p] = (r * 1.609344, g / 30.48) if units else (r, g)
        names["conductor_" + p] = f.obj("triplex_line_conductor", "cond" + p, resistance=(r, "Ohm/km") if units else r,
                                        geometric_mean_radius=(g, "cm") if units else g)
    dia, ins = env.pos("diameter", 0.1, 1), env.pos("insulation", 0.02, 0.3)
    f.obj("triplex_line_configuration", "cfg", diameter=dia, insulation_thickness=ins, **names)
    L, metres = length(env)
    f.obj("triplex_line", "line1", phases="BS", **{"from": "src", "to": "end"}, length=L, configuration="cfg")
    d = {"12": (dia + 2 * ins) / 12, "1N": (dia + ins) / 12, "2N": (dia + ins) / 12}
    z = {(p, q): own(env, *data[p]) if p == q else mutual(env, d[min(p, q) + max(p, q)]) for p in "12N" for q in "12N"}
    line_of(env, read(env, f), "12", kron(z, "12"), metres)


def direct(env):
    """the impedance matrix of the configuration"""
    f = Feeder(env, env.choice("style", ["plain", "busy"]))
    f.source("src")
    kind = env.choice("kind", ["overhead_line", "underground_line", "triplex_line"])
    names = "12" if kind == "triplex_line" else "ABC"
    if kind == "triplex_line":
        f.objs.clear()
        f.source("far")
        for n in ("src", "end"):
            f.obj("triplex_meter", n, phases="AS", nominal_voltage=120.0)
        phases = "12"
    else:
        f.node("end")
        phases = env.choice("phases", ["ABC", "AC", "B"])
    z, props = {}, {}
    for i, p in enumerate(names):
        for j, q in enumerate(names):
            z[p, q] = env.cplx(f"z{p}{q}", 1, 2) if p == q else env.cplx(f"z{p}{q}", 0.1, 0.4)
            props[f"z{i + 1}{j + 1}"] = ("c", z[p, q])
    f.obj("triplex_line_configuration" if kind == "triplex_line" else "line_configuration", "cfg", **props)
    L, metres = length(env)
    f.obj(kind, "line1", phases="AS" if kind == "triplex_line" else phases + "N", **{"from": "src", "to": "end"}, length=L, configuration="cfg")
    line_of(env, read(env, f), phases, z, metres)


sc("overhead", overhead, bounds="1 to 3 phases with or without neutral, own conductor per phase")
sc("subset", subset, bounds="2 to 4 conductors, any of their phases, spacing for four wires")
sc("shared", shared("overhead"), bounds="3 lines, 2 configurations, 4 conductors")
sc("shared-underground", shared("underground"), bounds="3 lines, 2 configurations, 3 cables", nsamples=48)
sc("underground", underground(["A", "B"], [(3,), (6,)]), bounds="1 cable of 3 or 6 strands")
sc("underground-neutral", underground(["AN"], [(3,), (13,)]), bounds="1 cable of 3 or 13 strands and a neutral wire")
sc("underground-two", underground(["CA", "AB"], [(3, 6), (4, 4)], units=False), nsamples=48, bounds="2 cables of 3 to 6 strands")
sc("underground-two-neutral", underground(["BCN"], [(3, 5)], units=False), nsamples=48, bounds="2 cables of 3 and 5 strands and a neutral wire")
sc("underground-three", underground(["ABC"], [(3, 4, 5)], units=False), nsamples=48, bounds="3 cables of 3, 4 and 5 strands", weight=9)
sc("triplex", triplex, bounds="one triplex line")
sc("direct", direct, bounds="1 to 3 phases, any matrix")
