"""C14: voltage limiting bounds every step and touches nothing else."""
from symx.run import Scenario
from checks._nets import *

SCENARIOS = []


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


STEP, TOP = 1, 2


def clip(env, x, lo, hi):
    if env.branch(x < lo):
        return lo
    if env.branch(x > hi):
        return hi
    return x


def limited(env, n, prefix, obj, within):
    """one call; within: previous values start inside the permitted band"""
    buses = n.buses
    lim = {i for b in buses for i in (b.node_Vr, b.node_Vi)}
    band = TOP if within else 5
    old = [env.real(f"{prefix}p{i}", -band, band) if i in lim else env.real(f"{prefix}p{i}", -9, 9) for i in range(n.size_Y)]
    new = [env.real(f"{prefix}n{i}", -9, 9) for i in range(n.size_Y)]
    vp = vector(old)
    r = obj.apply_limiting(vector(new), vp)
    r = list(r)
    env.eq("the previous state is left alone", list(vp), old)
    for i in range(n.size_Y):
        if i not in lim:
            env.eq("other unknowns pass", r[i], new[i])
    return lim, old, new, r


def judge(env, lim, old, new, r, eps):
    for i in sorted(lim):
        a, b, x = old[i], new[i], r[i]
        env.check("inside the band", env.all(x <= TOP + eps, x >= -TOP - eps))
        env.check("step bounded", env.all(x - a <= STEP + eps, a - x <= STEP + eps))
        env.check("never beyond the proposal or reversed", env.any(env.all(a <= x + eps, x <= b + eps), env.all(b <= x + eps, x <= a + eps)))
        if env.branch(env.all(b - a <= STEP, a - b <= STEP, b <= TOP, b >= -TOP)):
            env.eq("short steps pass", x, b)
        elif env.branch(env.any(b - a > STEP, a - b > STEP)) and env.branch(env.all(a + STEP <= TOP, a - STEP >= -TOP)):
            env.eq("long steps move by the limit", x, a + STEP if env.branch(b > a) else a - STEP)


def net(env):
    n = tx_net()
    b = add_buses(n, 1)
    from models.components.generator import Generator
    n.generators.append(Generator(b[0], 1.0, 1.0, 5, -5, 9, 0, 0.5, 0, 100, None))
    return n


def one(env):
    from logic.v_limiting import PositiveSeqVoltageLimiting
    n = net(env)
    if bool(env.boolean("source")):
        k_slack(env, n, [n.buses[0]], "s", ang=0)
    n.assign_matrix()
    judge(env, *limited(env, n, "", PositiveSeqVoltageLimiting(n), True), 0 if env.mode == "sym" else 1e-9)


def outside(env):
    """previous values outside the band: result still inside it, others untouched"""
    from logic.v_limiting import PositiveSeqVoltageLimiting
    n = tx_net()
    add_buses(n, 1)
    n.assign_matrix()
    lim, old, new, r = limited(env, n, "", PositiveSeqVoltageLimiting(n), False)
    eps = 0 if env.mode == "sym" else 1e-9
    for i in sorted(lim):
        env.check("inside the band", env.all(r[i] <= TOP + eps, r[i] >= -TOP - eps))
        m = clip(env, clip(env, new[i], old[i] - STEP, old[i] + STEP), -TOP, TOP)
        env.eq("bounded step, bounded result", r[i], m)


def reassigned(env):
    """the network changes between two uses of the same limiter"""
    from logic.v_limiting import PositiveSeqVoltageLimiting
    n = net(env)
    n.assign_matrix()
    o = PositiveSeqVoltageLimiting(n)
    v = [0.25 * i for i in range(n.size_Y)]
    o.apply_limiting(vector(v), vector(v))
    how = env.choice("change", ["front", "back", "optimise", "same size"])
    from checks._nets import mkbus
    if how == "front":
        n.buses.insert(0, mkbus(7))
    elif how == "back":
        n.buses.append(mkbus(7))
    elif how == "same size":
        from models.components.slack import Slack
        n.slack.append(Slack(n.buses[0], 1.0, 0, 0, 0))
        n.assign_matrix()
        o.apply_limiting(vector([0.1] * n.size_Y), vector([0.1] * n.size_Y))
        n.slack.clear()
        n.buses.append(mkbus(7))
    else:
        from models.optimization.L2infeasibility import load_infeasibility_analysis
        n.optimization = load_infeasibility_analysis(n)
    n.assign_matrix()
    lim = {i for x in n.buses for i in (x.node_Vr, x.node_Vi)}
    a, s = env.real("before", -1, 1), env.real("step", 1.01, 5)
    up = bool(env.boolean("up"))
    k = env.choice("entry", list(range(n.size_Y)))
    old, new = [0.1] * n.size_Y, [0.3] * n.size_Y
    old[k], new[k] = a, a + s if up else a - s
    r = list(o.apply_limiting(vector(new), vector(old)))
    new[k] = (a + STEP if up else a - STEP) if k in lim else new[k]
    env.eq("only the bus entries of the changed network are limited", r, new)


add("one", one, bounds="1 bus, generator, with or without source; previous values in the permitted band, any proposal", nsamples=2, max_paths=20000)
add("outside", outside, bounds="1 bus; any previous values and proposals", nsamples=2)
add("reassigned", reassigned, bounds="1-2 buses, one or two reassignments, also to other indexes with the same size", nsamples=2)


def preload():
    import logic.network.networkmodel, models.components.slack, models.components.generator, logic.v_limiting  # noqa
    import models.optimization.L2infeasibility  # noqa
