"""C22: transformers of a RAW case get the ratio, shift, impedance and connections their records describe."""
from symx.run import Scenario
from checks._raw import Case, compare

SCENARIOS = []


def preload():
    import logic.network.networkmodel
    import logic.network.networkloader


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def root(env, x):
    import math
    import symx.sym as S
    return S.s_sqrt(x) if S.is_sym(x) else math.sqrt(x)


def ratio(t, w, n, base):
    """winding voltage in per unit of its bus base"""
    if t["cw"] == 1:
        return t[w]
    if t["cw"] == 2:
        return t[w] / base
    return t[w] * (t[n] if t["has_nominal"] else base) / base


def impedance(env, code, r, x, sb, sbase):
    """in per unit of the system base"""
    if code == 1:
        return r, x
    if code == 2:
        return r * sbase / sb, x * sbase / sb
    rp = r / (1000000 * sb)
    return rp * sbase / sb, root(env, x * x - rp * rp) * sbase / sb


def magnetising(env, t, sb, sbase):
    """in per unit of the system base"""
    if t["cm"] == 1:
        return t["mag1"], t["mag2"]
    g = t["mag1"] / (1000000 * sbase)
    s = t["mag2"] * sb / sbase
    return g, -root(env, s * s - g * g)


def found(net, i, j):
    return [t for t in net.transformers if (t.from_bus_pos.Bus, t.to_bus_pos.Bus) == (i, j)]


def match(env, label, t, want):
    """want: ratio, shift in degrees, r, x, g, b in per unit of 100 MVA"""
    from models.components.bus import GROUND
    env.check(label + " grounded", t.from_bus_neg is GROUND and t.to_bus_neg is GROUND)
    env.eq(label + " ratio and shift", [t.tr, t.ang_rad], [want[0], want[1] * env.pi / 180])
    env.eq(label + " impedance", [t.r, t.x], [want[2], want[3]])
    env.eq(label + " magnetising", [t.G_shunt, t.B_shunt], [want[4], want[5]])


def two(env):
    c = Case(env, env.choice("revision", [30, 32, 33, 34]), env.real("sbase", 10, 1000))
    b1, b2 = env.pos("base1", 1, 500), env.pos("base2", 1, 500)
    c.bus(3, 3, baskv=b2)
    c.bus(12, 1, baskv=b1)
    cw, cz, cm = env.choice("cw", [1, 2, 3]), env.choice("cz", [1, 2, 3]), env.choice("cm", [1, 2])
    w = [env.pos("w1", 0.5, 1.5), env.pos("w2", 0.5, 1.5)]
    if cw == 2:
        w = [w[0] * b1, w[1] * b2]
    nominal = bool(cw == 3 and env.boolean("nominal given"))
    n = [env.pos("nom1", 1, 500), env.pos("nom2", 1, 500)] if nominal else [0, 0]
    sb = env.pos("sb", 10, 1000)
    r, x = env.pos("r", 0, 0.1), env.pos("x", 0.2, 1)
    if cz == 3:
        r = env.pos("watts", 1000, 100000)
    if cm == 1:
        m = env.real("mag1", 0, 1), env.real("mag2", -1, 0)
    else:
        m = env.pos("loss", 1000, 10000), env.pos("current", 0.05, 1)
    c.xf2(12, 3, "1", cw=cw, cz=cz, cm=cm, mag1=m[0], mag2=m[1], r=r, x=x, sbase=sb, w1=w[0], w2=w[1], n1=n[0], n2=n[1],
          ang=env.real("ang", -180, 180), rata=100.0, cod=env.choice("cod", [0, 1]) if cw == cz == 1 else 0, rma=1.1, rmi=0.9)
    net = c.read()
    t = c.two[0]
    t["has_nominal"] = nominal
    got = found(net, 12, 3)
    env.check("one transformer", len(net.transformers) == len(got) == 1)
    t1, t2 = ratio(t, "w1", "n1", b1), ratio(t, "w2", "n2", b2)
    r, x = impedance(env, cz, r, x, sb, c.sbase)
    g, b = magnetising(env, t, sb, c.sbase)
    k = 100 / c.sbase
    match(env, "transformer", got[0], (t1 / t2, t["ang"], r * t2 * t2 * k, x * t2 * t2 * k, g / k, b / k))
    compare(env, net, c, what=("buses",))


def two_status(env):
    c = Case(env, 33, 100)
    for i in (1, 2, 3):
        c.bus(i, 3 if i == 1 else env.choice(f"type{i}", [1, 4]))
    want = {}
    for i, j, k in ((2, 1, "1"), (1, 3, "1"), (3, 2, "1"), (2, 1, "2")):
        on = bool(env.boolean(f"on {i}{j}{k}"))
        w, x = env.pos(f"w{i}{j}{k}", 0.5, 1.5), env.pos(f"x{i}{j}{k}", 0.01, 1)
        c.xf2(i, j, k, stat=1 if on else 0, w1=w, x=x, r=0.0)
        if on and i in c.online() and j in c.online():
            want.setdefault((i, j), []).append((w, 0, 0, x, 0, 0))
    net = c.read()
    env.check("in-service transformers", len(net.transformers) == sum(len(v) for v in want.values()))
    for (i, j), ts in want.items():
        got = found(net, i, j)
        env.check("all of them", len(got) == len(ts))
        # parallel ones may come in any order
        env.eq("ratios", sum(t.tr for t in got), sum(w[0] for w in ts))
        env.eq("impedances", sum(t.x for t in got), sum(w[3] for w in ts))
        env.eq("products", sum(t.tr * t.x for t in got), sum(w[0] * w[3] for w in ts))


def star(env, c, t, bases, sbase):
    """per winding: ratio, shift, star impedance, magnetising part"""
    z = [impedance(env, t["cz"], t["r" + s], t["x" + s], t["sbase" + s], sbase) for s in ("12", "23", "31")]
    k = 100 / sbase
    out = []
    for n, (a, b, o) in enumerate(((0, 2, 1), (0, 1, 2), (1, 2, 0))):
        zs = [(z[a][q] + z[b][q] - z[o][q]) / 2 * k for q in (0, 1)]
        s = "123"[n]
        g, bb = magnetising(env, t, t["sbase12"], sbase) if n == 0 else (0, 0)
        out.append((ratio(t, "w" + s, "n" + s, bases[n]), t["ang" + s], zs[0], zs[1], g / k, bb / k))
    return out


def three(env):
    c = Case(env, env.choice("revision", [32, 33, 34]), env.real("sbase", 10, 1000))
    bases = [env.pos(f"base{i}", 1, 500) for i in "123"]
    for i, b in zip((5, 1, 9), bases):
        c.bus(i, 3 if i == 1 else 1, baskv=b)
    mode = env.choice("codes", [(1, 1, 1), (2, 2, 1), (3, 3, 1), (1, 2, 2), (1, 3, 1), (3, 1, 2)])
    cw, cz, cm = mode
    nominal = bool(cw == 3 and env.boolean("nominal given"))
    k = {}
    for n, s in enumerate(("12", "23", "31")):
        k["r" + s] = env.pos("watts" + s, 1000, 100000) if cz == 3 else env.pos("r" + s, 0.001, 0.1)
        k["x" + s] = env.pos("x" + s, 0.2, 1)
        k["sbase" + s] = env.pos("sb" + s, 10, 1000)
        d = "123"[n]
        k["w" + d] = env.pos("w" + d, 0.5, 1.5) * (bases[n] if cw == 2 else 1)
        k["ang" + d] = env.real("ang" + d, -180, 180)
        if nominal:
            k["n" + d] = env.pos("nom" + d, 1, 500)
    if cm == 1:
        k.update(mag1=env.real("mag1", 0, 1), mag2=env.real("mag2", -1, 0))
    else:
        k.update(mag1=env.pos("loss", 1000, 10000), mag2=env.pos("current", 0.05, 1))
    vm, va = env.pos("vmstar", 0.5, 1.5), env.real("anstar", -180, 180)
    c.xf3(5, 1, 9, "1", cw=cw, cz=cz, cm=cm, vmstar=vm, anstar=va, **k)
    t = c.three[0]
    t["has_nominal"] = nominal
    net = c.read()
    compare(env, net, c, stars=1, what=("buses",))
    extra = [b for b in net.buses if b.Bus not in (1, 5, 9)]
    env.check("one star point", len(extra) == 1)
    a = va * env.pi / 180
    env.eq("star point starts as declared", [extra[0].Vr_init, extra[0].Vi_init], [vm * env.cos(a), vm * env.sin(a)])
    env.check("three windings at the star point", len(net.transformers) == 3 and all(x.to_bus_pos is extra[0] for x in net.transformers))
    for i, w in zip((5, 1, 9), star(env, c, t, bases, c.sbase)):
        got = found(net, i, extra[0].Bus)
        env.check("one winding per bus", len(got) == 1)
        match(env, f"winding at {i}", got[0], w)


def three_status(env):
    """windings and buses out of service"""
    c = Case(env, 33, 100)
    c.bus(1, 3)
    for i in (2, 3, 4):
        c.bus(i, env.choice(f"type{i}", [1, 4]) if i < 4 else 1)
    sts = []
    for n, (i, j, k) in enumerate(((1, 2, 3), (4, 3, 1))):
        s = env.choice(f"stat{n}", [0, 1, 2, 3, 4])
        x = env.pos(f"x{n}", 0.2, 1)
        c.xf3(i, j, k, "1", stat=s, x12=x, w1=env.pos(f"w{n}1", 0.5, 1.5), w2=env.pos(f"w{n}2", 0.5, 1.5), w3=env.pos(f"w{n}3", 0.5, 1.5))
        sts.append(s)
    net = c.read()
    on = set(c.online())
    stars = 0
    want = []
    for t, s in zip(c.three, sts):
        legs = []
        if s != 0:
            for n, (q, out) in enumerate((("i", 4), ("j", 2), ("k", 3))):
                others = [t[o] for o in "ijk" if o != q]
                if s != out and t[q] in on and any(o in on for o in others):
                    legs.append((t[q], t["w" + "123"[n]], (t["x12"], t["x12"], 0.2 - t["x12"])[n] / 2))
        want.append(legs)
        stars += 1 if legs else 0
    env.check("windings in service", len(net.transformers) == sum(map(len, want)))
    compare(env, net, c, stars=stars, what=("buses",))
    groups = {}
    for x in net.transformers:
        groups.setdefault(x.to_bus_pos.Bus, []).append(x)
    env.check("a star point of its own for each", len(groups) == stars and not set(groups) & {1, 2, 3, 4})
    env.check("star points are buses", all(any(b is x.to_bus_pos for b in net.buses) for x in net.transformers))
    env.check("star points differ", len({b.Bus for b in net.buses}) == len(net.buses))
    left = [w for w in want if w]
    order = sorted(groups)
    # the two transformers differ in the set of their buses or have symbolic ratios; match by buses
    for g in order:
        cand = [w for w in left if sorted(l[0] for l in w) == sorted(x.from_bus_pos.Bus for x in groups[g])]
        env.check("windings of one transformer meet", len(cand) >= 1)
        w = cand[0]
        left.remove(w)
        if len(cand) > 1:
            continue
        for bus, tr, x in w:
            got = [y for y in groups[g] if y.from_bus_pos.Bus == bus][0]
            env.eq("ratio", got.tr, tr)
            env.eq("star reactance", got.x, x)


def numbers(env):
    """star points never take the number of another bus, whatever the numbering"""
    c = Case(env, 33, 100)
    ids = env.choice("numbers", [(1, 2, 3, 4), (1000001, 1000002, 1000003, 1000004), (1000004, 1000005, 1000006, 1000003),
                                 (1, 1000001, 1000002, 2000001), (999999, 1000000, 2000001, 2000002), (7, 1000003, 1000007, 1000008)])
    for n, i in enumerate(ids):
        c.bus(i, (env.choice("last", [1, 4]) if n == 3 else 3 if n == 0 else 1), env.pos(f"vm{n}", 0.8, 1.2), env.real(f"va{n}", -90, 90))
    a, b, d, e = ids
    want = []
    for n, (i, j, k) in enumerate(((a, b, d), (d, a, b), (b, e, a))):
        w = [env.pos(f"w{n}{m}", 0.5, 1.5) for m in "123"]
        c.xf3(i, j, k, "1", w1=w[0], w2=w[1], w3=w[2])
        want.append([(q, t) for q, t in zip((i, j, k), w) if q in c.online()])
    net = c.read()
    compare(env, net, c, stars=3, what=("buses",))
    groups = {}
    for x in net.transformers:
        groups.setdefault(x.to_bus_pos.Bus, []).append(x)
    env.check("a star point of its own for each", len(groups) == 3 and not set(groups) & set(ids))
    env.check("star points are buses", all(any(y is x.to_bus_pos for y in net.buses) for x in net.transformers))
    env.check("windings in service", sorted(len(g) for g in groups.values()) == sorted(map(len, want)))
    for i in c.online():
        env.eq("ratios at the bus", sum(x.tr for x in net.transformers if x.from_bus_pos.Bus == i), sum(t for w in want for q, t in w if q == i))


add("numbers", numbers, bounds="3 three-winding transformers sharing four buses, six numberings around the numbers of star points")
add("two", two, bounds="one two-winding transformer; every unit code, revision, system base, bus base, and any values")
add("two-status", two_status, bounds="4 two-winding transformers, two of them parallel, each on or off, buses of type 1 or 4")
add("three", three, bounds="one three-winding transformer, six combinations of unit codes, any values")
add("three-status", three_status, bounds="2 three-winding transformers sharing buses, status 0..4 each, two buses of type 1 or 4")
