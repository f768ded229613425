"""C20: records of a RAW case become elements with the declared values in the solver's units."""
from symx.run import Scenario
from checks._raw import Case, compare, sqrt_of

SCENARIOS = []


def preload():
    import logic.network.networkmodel
    import logic.network.networkloader


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def start(env, revs=(30, 32, 33, 34)):
    c = Case(env, env.choice("revision", list(revs)), env.real("sbase", 10, 1000))
    return c


def buses(c, env, ides=(1, 3, 2)):
    for k, ide in enumerate(ides):
        c.bus((10, 2, 35)[k], ide, env.pos(f"vm{k}", 0.5, 1.5), env.real(f"va{k}", -180, 180), 138.0)


def loads(env):
    c = start(env)
    c.bus(1)
    c.bus(2, 3)
    for i, id in ((1, "1"), (2, "A"), (1, "2")):
        c.load(i, id, 1, *[env.real(f"{q}{i}{id}", -300, 300) for q in ("pl", "ql", "ip", "iq")], 0, 0)
    compare(env, c.read(), c)


def admittance(env):
    c = start(env)
    c.bus(1)
    c.bus(2, 3)
    for i, id in ((1, "1"), (2, "A")):
        c.load(i, id, 1, env.real(f"p{i}", -300, 300), 0, 0, 0, env.real(f"yp{i}", -300, 300), env.real(f"yq{i}", -300, 300))
    compare(env, c.read(), c)


def branches(env):
    c = start(env)
    for i in (1, 2, 3):
        c.bus(i, 3 if i == 1 else 1)
    for i, j, k in ((2, 1, "1"), (2, 3, "1"), (2, 3, "2")):
        n = f"{i}{j}{k}"
        c.branch(i, j, k, 1, env.real("r" + n, 0, 1), env.real("x" + n, 0.001, 2), env.real("b" + n, -2, 2))
    compare(env, c.read(), c)


def branch_shunts(env):
    c = start(env)
    for i in (1, 2):
        c.bus(i, 3 if i == 1 else 1)
    c.branch(1, 2, "1", 1, 0.01, 0.1, 0.02, *[env.real(k, -1, 1) for k in ("gi", "bi", "gj", "bj")])
    compare(env, c.read(), c)


def shunts(env):
    c = start(env, (32, 33, 34))
    c.bus(1)
    c.bus(2, 3)
    c.shunt(1, "1", 1, env.real("gl", -100, 100), env.real("bl", -100, 100))
    c.shunt(2, "1", 1, env.real("gl2", -100, 100), env.real("bl2", -100, 100))
    c.switched_shunt(1, env.choice("mode", [0, 1, 3]), 1, 1.05, 0.95, env.real("binit", -100, 100), [(1, env.real("b1", -50, 50)), (2, 10.0)])
    compare(env, c.read(), c)


def shunts30(env):
    c = start(env, (30,))
    c.bus(1, gl=env.real("gl", -100, 100), bl=env.real("bl", -100, 100))
    c.bus(2, 3, gl=env.real("gl2", -100, 100), bl=env.real("bl2", -100, 100))
    c.switched_shunt(1, 1, 1, 1.05, 0.95, env.real("binit", -100, 100), [(1, 20.0)])
    compare(env, c.read(), c)


def machines(env):
    c = start(env)
    buses(c, env)
    c.machine(2, "1", 1, env.real("ps", -500, 500), env.real("qs", -300, 300), 300.0, -300.0, env.pos("vs", 0.8, 1.2))
    qt = env.real("qt", -300, 300)
    qb = qt if bool(env.boolean("fixed")) else qt - env.pos("range", 0.01, 600)
    c.machine(35, "1", 1, env.real("pg", -500, 500), env.real("qg", -300, 300), qt, qb,
              env.pos("vg", 0.8, 1.2), 0, 1.0, env.real("pt", 0, 900), env.real("pb", -900, 0))
    compare(env, c.read(), c)


def wind(env):
    """reactive limits from the power factor (mode 2), or a fixed reactive power (mode 3)"""
    c = start(env, (32, 33, 34))
    c.bus(1, 3)
    c.bus(2, 2)
    c.machine(1, "1", 1, 0, 0, 300.0, -300.0, 1.0)
    mode = env.choice("mode", [2, 3])
    pf = env.real("wpf", 0.1, 0.9)
    if bool(env.boolean("negative")):
        pf = -pf
    pg = env.real("pg", 1, 500)
    if bool(env.boolean("consuming")):
        pg = -pg
    c.machine(2, "1", 1, pg, env.real("qg", -300, 300), env.real("qt", 10, 300), env.real("qb", -300, -10), 1.02, mode, pf)
    compare(env, c.read(), c)


def continuous(env):
    c = start(env)
    c.bus(1, 3)
    c.bus(2, 1)
    c.bus(3, 2)
    c.machine(1, "1", 1, 0, 0, 300.0, -300.0, 1.0)
    at = env.choice("at", [2, 3])
    c.machine(3, "1", 1, env.real("pg", 1, 500), env.real("qg", -300, 300), env.real("qt", 10, 300), env.real("qb", -300, -10), 1.02)
    c.switched_shunt(at, 2, 1, env.pos("vswhi", 0.9, 1.2), env.pos("vswlo", 0.8, 1.1), env.real("binit", -100, 100),
                     [(1, env.real("b1", -50, 50)), (env.choice("steps", [0, 2]), env.real("b2", -50, 50)), (3, env.real("b3", -50, 50))])
    compare(env, c.read(), c)


def blank(env):
    """fields left empty have the format's defaults"""
    c = start(env)
    N = None
    c.bus(1, N, N, env.real("va", -90, 90))
    c.bus(2, 3, env.pos("vm", 0.8, 1.2), N)
    c.bus(3, 2, 1.0, 0.0)
    c.load(1, N, N, env.real("pl", -9, 9), N, N, env.real("iq", -9, 9), N, N)
    c.load(2, N, 1, N, env.real("ql", -9, 9), env.real("ip", -9, 9), N, env.pos("yp", 1, 9), N)
    if c.rev != 30:
        c.shunt(1, N, N, N, env.real("bl", -9, 9))
        c.shunt(2, N, N, env.real("gl", -9, 9), N)
    c.machine(2, N, N, env.real("ps", -9, 9), N, N, N, N)
    qt = env.pos("qt", 1, 9) if bool(env.boolean("upper limit given")) else N
    c.machine(3, N, N, env.real("pg", -9, 9), env.real("qg", -9, 9), qt, N, N, *([N] if c.rev != 30 else []))
    c.branch(1, 2, N, 1, env.real("r", 0, 1), env.pos("x", 0.01, 1), N, N, env.real("bi", -1, 1), N, N)
    c.switched_shunt(1, N, N, N, N, env.real("binit", -9, 9), [(1, N)])
    compare(env, c.read(), c)


def layout(env):
    """ends of sections, with or without comments and key lines; one record of every kind"""
    c = start(env)
    c.style = env.choice("style", ["commented", "plain", "indented"] + (["keys"] if c.rev == 34 else []))
    c.bus(3, 2, 1.02, env.real("va", -90, 90))
    c.bus(1, 3, 1.0, 0.0)
    c.load(3, "A", 1, env.real("pl", -9, 9), 1.0)
    if c.rev != 30:
        c.shunt(1, "1", 1, 0.0, env.real("bl", -9, 9))
    c.machine(1, "1", 1, env.real("ps", -9, 9), 0.0, 9.0, -9.0, 1.0)
    c.machine(3, "1", 1, env.real("pg", -9, 9), 0.0, env.pos("qt", 1, 9), -9.0, 1.0)
    c.branch(1, 3, "1", 1, 0.01, env.pos("x", 0.01, 1), 0.2)
    c.xf2(1, 3, "1", x=env.pos("xt", 0.01, 1), r=0.0)
    c.switched_shunt(3, 1, 1, 1.0, 1.0, env.real("binit", -9, 9), [(1, 20.0)])
    net = c.read()
    compare(env, net, c)
    env.check("the transformer", len(net.transformers) == 1)
    env.eq("its reactance", net.transformers[0].x, c.two[0]["x"] * 100 / c.sbase)


add("layout", layout, bounds="one record of every kind, three layouts of section ends, and key lines in revision 34")
add("blank", blank, bounds="defaults of fields left empty in every kind of record")
add("loads", loads, bounds="3 loads on 2 buses, revisions 30-34, any system base 10..1000 and powers within 300")
add("admittance", admittance, bounds="2 loads with constant-power and admittance parts")
add("branches", branches, bounds="3 branches, two of them parallel; any r, x, b and system base")
add("branch-shunts", branch_shunts, bounds="one branch, any terminal shunts")
add("shunts", shunts, bounds="2 fixed and 1 switched shunt, any values")
add("shunts-30", shunts30, bounds="revision 30: 2 bus shunts and 1 switched shunt")
add("machines", machines, bounds="one source and one machine, any values")
add("wind", wind, bounds="control modes 2 and 3, both signs of power factor and power")
add("continuous", continuous, bounds="one continuous switched shunt of three blocks, alone or with a machine")
