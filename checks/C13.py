"""C13: the starting vector holds every unknown's declared start."""
from symx.run import Scenario
from checks._nets import *

DERIVE = ["models.components.load:lh_pq", "models.components.generator:lh"]
SCENARIOS = []


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def optimise(env, n):
    from models.optimization.L2infeasibility import load_infeasibility_analysis
    if bool(env.boolean("optimise")):
        n.optimization = load_infeasibility_analysis(n)
        return True
    return False


def declared(env, n, k):
    """k buses with any declared magnitude and angle"""
    out = []
    for i in range(k):
        vm, va = env.real(f"vm{i}", 0, 2), env.real(f"va{i}", -3.2, 3.2)
        b = mkbus(i, vm=vm, va=va)
        n.buses.append(b)
        out.append((b, vm * env.cos(va), vm * env.sin(va)))
    return out


def transmission(env):
    from logic.powerflowsettings import PowerFlowSettings
    from models.components.generator import Generator
    from models.components.slack import Slack
    n = tx_net()
    bs = declared(env, n, 3)
    b = [x[0] for x in bs]
    gens, sl = [], []
    for i in range(env.choice("gens", [0, 1, 2])):
        q, hi, lo = env.real(f"q{i}", -3, 3), env.real(f"hi{i}", -3, 3), env.real(f"lo{i}", -3, 3)
        g = Generator(b[(i + 1) % 3], env.real(f"gp{i}", -2, 2), 1.0, hi, lo, 9, 0, q, 0, 100, None)
        n.generators.append(g)
        gens.append((g, q, hi, lo))
    for i in range(env.choice("slacks", [1, 2])):
        p, q = env.real(f"sp{i}", -300, 300), env.real(f"sq{i}", -300, 300)
        s = Slack(b[i * 2], 1.02, 0, p, q)
        n.slack.append(s)
        sl.append((s, p, q))
    if bool(env.boolean("xfmr")):
        k_xfmr(env, n, [b[0], b[1]], "x", ang=0)
    k_line(env, n, b, "l")
    opt = optimise(env, n)
    flat = bool(env.boolean("flat"))
    n.assign_matrix()
    v = n.generate_v_init(PowerFlowSettings(flat_start=flat))
    ex = [0.0] * n.size_Y
    for bus, r, i in bs:
        ex[bus.node_Vr], ex[bus.node_Vi] = (1, 0) if flat else (r, i)
        if opt:
            ex[bus.node_lambda_Vr] = ex[bus.node_lambda_Vi] = 1e-4
    for g, q, hi, lo in gens:
        # reactive powers of generators are unknowns in the consumption sense
        ex[g.get_Q_index()] = -(hi + lo) / 2 if flat else -q
        if opt:
            ex[g.stamper.get_lambda_index(4)] = 1e-4
    for s, p, q in sl:
        ex[s.get_slack_Ir_index()] = 0 if flat else p / 100
        ex[s.get_slack_Ii_index()] = 0 if flat else q / 100
    env.check("length", len(v) == n.size_Y)
    env.eq("start", list(v), ex)
    # asking again gives the same, whatever happened to the first answer
    for i in range(len(v)):
        v[i] = 7.0
    env.eq("start again", list(n.generate_v_init(PowerFlowSettings(flat_start=flat))), ex)


def distribution(env):
    from logic.powerflowsettings import PowerFlowSettings
    n = dx_net()
    bs = declared(env, n, 4)
    b = [x[0] for x in bs]
    k_slack(env, n, [b[0]], "s", ang=0)
    if bool(env.boolean("fuse")):
        k_fuse(env, n, [b[0], b[1], b[3]], "f")
        n.fuses.append(n.misc.pop())
    if bool(env.boolean("switch")):
        k_switch(env, n, [b[1], b[2]], "w")
    if bool(env.boolean("xfmr")):
        k_xfmr(env, n, [b[1], b[2]], "x", ang=0)
    optimise(env, n)
    n.assign_matrix()
    v = n.generate_v_init(PowerFlowSettings(flat_start=bool(env.boolean("flat"))))
    env.check("length", len(v) == n.size_Y)
    env.eq("bus voltages", [v[i] for x in b for i in (x.node_Vr, x.node_Vi)], [y for x in bs for y in x[1:]])
    mine = {i for x in b for i in (x.node_Vr, x.node_Vi)}
    env.eq("other unknowns start at zero", [v[i] for i in range(n.size_Y) if i not in mine], [0] * (n.size_Y - len(mine)))


def from_controller(env):
    """a solve without a given start uses it, and the first run gets it unchanged"""
    from logic.powerflowsettings import PowerFlowSettings
    from logic.devicecontroller import DeviceController
    n = tx_net()
    bs = declared(env, n, 2)
    k_slack(env, n, [bs[0][0]], "s", ang=0)
    k_line(env, n, [bs[0][0], bs[1][0]], "l")
    flat = bool(env.boolean("flat"))
    settings = PowerFlowSettings(flat_start=flat)
    seen = []

    class Solver:
        pass
    h = Solver()
    h.nrsolver = Solver()
    h.nrsolver.network = n

    def run(v):
        seen.append(list(v))
        return True, v, 1, 0, None
    h.run_powerflow = run
    DeviceController(settings, h).run_powerflow()
    ex = [0.0] * n.size_Y
    for bus, r, i in bs:
        ex[bus.node_Vr], ex[bus.node_Vi] = (1, 0) if flat else (r, i)
    env.check("one run", len(seen) == 1)
    env.eq("start of the first run", seen[0], ex)


add("transmission", transmission, bounds="3 buses, up to 2 generators and 2 sources, optional transformer, both modes, flat or not; all declared values", nsamples=2)
add("distribution", distribution, bounds="4 buses, optional fuse, switch, transformer, both modes; all declared values", nsamples=2)
add("solve", from_controller, bounds="2 buses, flat or not")


def preload():
    import logic.network.networkmodel, models.components.load, models.components.slack, models.components.transformer  # noqa
    import models.components.regulator, logic.stamping.matrixstamper, models.optimization.L2infeasibility, logic.devicecontroller  # noqa
