"""C02: residuals are the mismatch of the state they are reported for."""
from symx.run import Scenario
from checks._nets import *

DERIVE = ["models.components.load:lh_pq"]
SCENARIOS = []


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def network(env, lam, pq=True):
    n = tx_net()
    b = add_buses(n, 3)
    ks = [lambda t: None]
    P, Q = env.real("P", -3, 3, nonzero=True), env.real("Q", -3, 3)
    r, x, sh = env.pos("r", 0.01, 2), env.pos("x", 0.01, 2), env.real("b", 0, 2)
    from models.components.line import Line
    from models.components.load import Load
    from models.components.bus import GROUND
    l1, l2 = Line(b[0], b[1], r, x, sh, True, 0, 0, 0), Line(b[1], b[2], r, x, sh, True, 0, 0, 0)
    n.lines += [l1, l2]
    if pq:
        n.loads += [Load(b[1], GROUND, P, Q, 0, 0, 0), Load(b[2], GROUND, P, Q, 0, 0, 0)]
    i = (env.real("ip", -1, 1, nonzero=True), env.real("iq", -1, 1))
    n.loads.append(Load(b[2], GROUND, 0, 0, 0, *i))
    sl = k_slack(env, n, [b[0]], "s", ang=0)
    n.assign_matrix()

    def refs(t):
        out = [ref_line(l1, r, x, sh, t), ref_line(l2, r, x, sh, t), current(b[2], GROUND, i), sl()]
        if pq:
            out += [power(b[1], GROUND, P, Q), power(b[2], GROUND, P, Q)]
        return out
    return n, refs


def fresh(opt):
    def fn(env):
        env.lazy_max()
        lam = env.real("lam", 0, 1)
        n, refs = network(env, lam)
        v = unknowns(env, n.size_Y)
        from logic.stamping.matrixstamper import build_matrix_stamper
        st = build_matrix_stamper(n)
        d = st.calc_residuals(lam, vector(v), 0)
        compare_residual(env, "residual", d.residuals, Sys(refs(lam), v))
    return fn


def history(seq, pq):
    """seq: list of (operation, iteration number); every state and factor its own"""
    def fn(env):
        env.lazy_max()
        lams = [env.real(f"lam{k}", 0, 1) for k in range(len(seq))]
        n, refs = network(env, None, pq)
        from logic.stamping.matrixstamper import build_matrix_stamper
        st = build_matrix_stamper(n)
        for k, (op, it) in enumerate(seq):
            v = unknowns(env, n.size_Y, prefix=f"v{k}_")
            if op == "L":
                st.stamp_linear(Recorder(), [0] * n.size_Y, lams[k])
            elif op == "N":
                st.stamp_nonlinear(Recorder(), [0] * n.size_Y, vector(v), it)
            else:
                d = st.calc_residuals(lams[k], vector(v), it)
                compare_residual(env, "residual after a history", d.residuals, Sys(refs(lams[k]), v))
    return fn


def maximum(n, ncontrib):
    """largest absolute sum, whatever the order of contributions"""
    def fn(env):
        from logic.residualdetails import ResidualDetails
        rows = [(k * 2 + k // n) % n for k in range(ncontrib)]
        vals = [env.real(f"c{k}", -5, 5) for k in range(ncontrib)]
        d = ResidualDetails([(None, r, v) for r, v in zip(rows, vals)], n)
        tot = [0.0] * n
        for r, v in zip(rows, vals):
            tot[r] = tot[r] + v
        env.eq("residual vector", list(d.residuals), tot)
        i = d.max_residual_idx
        env.check("position in range", 0 <= int(i) < n)
        env.eq("maximum at its position", d.max_residual, env.abs(tot[int(i)]))
        for k in range(n):
            env.check("no entry exceeds the maximum", env.abs(tot[k]) <= d.max_residual + (0 if env.mode == "sym" else 1e-12))
    return fn


def nr_reports(iters):
    """a Newton run that reports success returns a state whose own residual is below the tolerance"""
    def fn(env):
        env.lazy_max()
        import logic.nrsolver as NR
        from logic.powerflowsettings import PowerFlowSettings
        from symx import shims
        n, refs = network(env, 0, pq=False)
        from models.components.load import Load
        from logic.stamping.matrixstamper import build_matrix_stamper
        st = build_matrix_stamper(n)
        sols = []

        def solve(A, b, *a, **k):
            v = unknowns(env, n.size_Y, prefix=f"s{len(sols)}_")
            sols.append(v)
            return vector(v)
        n.matrix_map = Nothing()
        v0 = unknowns(env, n.size_Y, prefix="init")
        tol = env.pos("tol", 0.01, 1)
        s = NR.NRSolver(PowerFlowSettings(tolerance=tol, max_iters=iters), n, None)
        with stub(env, NR, "spsolve", solve):
            ok, v, it = s.run_powerflow(st, vector(v0), 0)
        if ok:
            res = Sys(refs(0), list(v)).residual()
            for r in res:
                env.check("residual of the returned state", env.abs(r) <= tol * (1 if env.mode == "sym" else 1.0000001))
    return fn


class Nothing(dict):
    def __contains__(self, k):
        return False


class stub:
    """replace the linear solver of a module for one call"""

    def __init__(self, env, mod, name, fn):
        self.mod, self.name, self.fn = mod, name, fn

    def __enter__(self):
        self.old = getattr(self.mod, self.name)
        setattr(self.mod, self.name, self.fn)

    def __exit__(self, *a):
        setattr(self.mod, self.name, self.old)


add("fresh", fresh(False), bounds="3 buses, 6 elements, all states and factors")
H = {"assemble-then-evaluate": [("L", 0), ("N", 0), ("R", 0)],
     "two-iterations": [("L", 0), ("N", 0), ("R", 0), ("N", 1), ("R", 1)],
     "second-run-same-numbers": [("N", 0), ("R", 0), ("L", 0), ("N", 0), ("R", 0)],
     "twice-same-number": [("R", 3), ("R", 3)],
     "after-failed-run": [("N", 0), ("N", 1), ("R", 1), ("R", 1), ("N", 0), ("R", 0)]}
for k, s in H.items():
    add("history-" + k, history(s, k in ("assemble-then-evaluate", "twice-same-number")), bounds=f"calls {s}, every state and factor symbolic")
add("maximum", maximum(3, 5), bounds="3 equations, 5 contributions")
add("maximum-4", maximum(4, 6), tiers=("thorough",), bounds="4 equations, 6 contributions")
add("reported-success", nr_reports(2), bounds="2 iterations, all solver answers, all tolerances; linear network", max_paths=20000)


def preload():
    import models.components.load, models.components.slack, models.components.line, logic.network.networkmodel, logic.stamping.matrixstamper  # noqa
    import logic.nrsolver  # noqa
