"""C21: only in-service records of a RAW case take part, and those at one bus add up."""
from symx.run import Scenario
from checks._raw import Case, compare

SCENARIOS = []


def preload():
    import logic.network.networkmodel
    import logic.network.networkloader


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def start(env, types=((2, (1, 2, 4)), (7, (1, 2, 4))), revs=(32, 33, 34)):
    c = Case(env, env.choice("revision", list(revs)), 100)
    ides = [(i, env.choice(f"type{i}", list(t))) for i, t in types]
    # the records need not be in order
    for i, t in ides[::-1]:
        c.bus(i, t, env.pos(f"vm{i}", 0.8, 1.2), env.real(f"va{i}", -90, 90))
    c.bus(4, 3)
    c.machine(4, "1", 1, env.real("ps", -100, 100), 0, 300.0, -300.0, 1.01)
    return c


def st(env, n):
    return 1 if env.boolean("on " + n) else 0


def loads(env):
    c = start(env)
    for i, id in ((7, "2"), (2, "1"), (7, "1")):
        n = f"{i}{id}"
        c.load(i, id, st(env, "load" + n), env.real("pl" + n, -300, 300), env.real("ql" + n, -300, 300), env.real("ip" + n, -30, 30), 5.0)
    compare(env, c.read(), c)


def shunts(env):
    c = start(env)
    c.shunt(7, "1", st(env, "a"), env.real("gl1", 1, 30), env.real("bl1", -30, -1))
    c.shunt(7, "2", st(env, "b"), 0.0, env.real("bl2", 1, 30))
    c.shunt(2, "1", st(env, "c"), env.real("gl3", 1, 30), 0.0)
    c.switched_shunt(2, 1, st(env, "d"), 1.05, 0.95, env.real("binit", 1, 100), [(2, 25.0)])
    compare(env, c.read(), c)


def branches(env):
    c = start(env)
    for i, j, k in ((7, 2, "1"), (2, 4, "1"), (4, 7, "1"), (2, 4, "2")):
        n = f"{i}{j}{k}"
        c.branch(i, j, k, st(env, n), env.real("r" + n, 0, 1), env.real("x" + n, 0.01, 2), 0.02, bi=0.03 if k == "1" else 0)
    compare(env, c.read(), c)


def machines(env):
    c = start(env, ((2, (1, 2, 4)),), (33,))
    for k in range(3):
        qb = env.real(f"qb{k}", -300, 0)
        qt = qb if bool(env.boolean(f"fixed{k}")) else qb + env.pos(f"range{k}", 0.01, 600)
        c.machine(2, str(3 - k), st(env, f"m{k}"), env.real(f"pg{k}", -500, 500), env.real(f"qg{k}", -300, 300), qt, qb, 1.02)
    compare(env, c.read(), c)


def zero(env):
    """machines without any power or range take no part, also among others"""
    c = start(env, ((2, (2,)), (7, (2,))))
    for i, k in ((2, 0), (2, 1), (7, 2), (7, 3)):
        z = env.choice(f"kind{k}", ["idle", "active", "range"])
        c.machine(i, str(k), 1, env.pos(f"pg{k}", 1, 500) if z == "active" else 0.0, env.real(f"qg{k}", -9, 9),
                  env.pos(f"qt{k}", 1, 300) if z != "idle" else 0.0, env.real(f"qb{k}", -300, -1) if z != "idle" else 0.0, 1.02)
    compare(env, c.read(), c)


def continuous(env):
    c = start(env, ((2, (1, 2, 4)),))
    c.machine(2, "1", st(env, "m"), env.real("pg", -500, 500), env.real("qg", -300, 300), env.pos("qt", 1, 300), env.real("qb", -300, -1), 1.02)
    c.switched_shunt(2, env.choice("mode", [1, 2]), st(env, "s"), 1.04, 1.0, env.real("binit", -100, 100), [(2, env.pos("b1", 1, 50)), (1, env.real("b2", -50, -1))])
    compare(env, c.read(), c)


def sources(env):
    c = Case(env, 33, 100)
    c.bus(1, 3, 1.0, env.real("va", -180, 180))
    c.bus(2, env.choice("type", [2, 3]), 1.0, env.real("va2", -180, 180))
    for k in range(3):
        c.machine(1, str(k), st(env, f"m{k}"), env.real(f"pg{k}", -500, 500), 10.0 * k, 100.0, -100.0, env.pos(f"vs{k}", 0.9, 1.1))
    c.machine(2, "1", st(env, "other"), env.real("pg", -500, 500), 0.0, 100.0, -100.0, 1.03)
    compare(env, c.read(), c)


add("loads", loads, bounds="3 loads on 2 buses of any type, each on or off")
add("shunts", shunts, bounds="3 fixed and 1 switched shunt on 2 buses of any type, each on or off")
add("branches", branches, bounds="4 branches between 3 buses of any type, each on or off, with terminal shunts")
add("machines", machines, bounds="3 machines at one bus of any type, each on or off, with or without reactive range")
add("zero", zero, bounds="2 machines at each of 2 buses, each idle, with active power or with a range only")
add("continuous", continuous, bounds="a machine and a switched shunt (fixed or continuous) at one bus of any type, each on or off")
add("sources", sources, bounds="3 machines at the reference bus, each on or off, and a second bus of type 2 or 3")
