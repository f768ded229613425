"""C06: a solve succeeds only when the unrelaxed network converged."""
from symx.run import Scenario
from checks._nets import *

SCENARIOS = []
N = 4     # size of the state: the real stamper of a two-bus line


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


class Inner:
    """stands in for the Newton solver: any outcome, any state"""

    def __init__(self, env, n, fail_at, sampled):
        self.env, self.n, self.fail_at, self.sampled = env, n, fail_at, sampled
        self.calls = []

    def run_powerflow(self, stamper, v_init, tx_factor):
        k = len(self.calls)
        if k > 400:
            raise RuntimeError("does not end")
        ok = not self.env.branch(self.fail_at == k)
        out = vector([self.env.real(f"s{k}_{i}", -2, 2) for i in range(self.n)]) if k in self.sampled or not ok else vector([float(k + i) for i in range(self.n)])
        self.calls.append((list(v_init), tx_factor, ok, list(out)))
        return (ok, out, k % 7)


def network(env):
    n = tx_net()
    b = add_buses(n, 2)
    k = k_line(env, n, b, "l")
    n.assign_matrix()
    return n, k


def run(env, tx, first_ok, fail_at, sampled=()):
    from logic.homotopycontroller import HomotopyController
    from logic.powerflowsettings import PowerFlowSettings
    env.lazy_max()
    n, k = network(env)
    class First(Inner):
        def run_powerflow(self, st, v, t):
            if not self.calls:
                out = vector([self.env.real(f"d{i}", -2, 2) for i in range(self.n)])
                self.calls.append((list(v), t, first_ok, list(out)))
                return (first_ok, out, 3)
            return super().run_powerflow(st, v, t)
    inner = First(env, n.size_Y, fail_at, sampled)
    v0 = [env.real(f"i{j}", -2, 2) for j in range(n.size_Y)]
    res = HomotopyController(PowerFlowSettings(tx_stepping=tx), n, inner).run_powerflow(vector(v0))
    return n, k, inner.calls, v0, res


def returned(env, n, k, res, state):
    env.eq("returned state", list(res[1]), state)
    compare_residual(env, "residuals are those of the unrelaxed network at the returned state", res[4].residuals, Sys([k()], list(state)))


def direct(tx, ok):
    def fn(env):
        n, k, calls, v0, res = run(env, tx, ok, -1)
        env.eq("one solve", len(calls), 1)
        env.eq("of the unrelaxed network", calls[0][1], 0)
        env.eq("from the given start", calls[0][0], v0)
        env.check("outcome", bool(res[0]) == ok)
        env.eq("reported factor", res[3], 0)
        returned(env, n, k, res, calls[0][3])
    return fn


def stepping(env):
    """the direct attempt failed; any step (or none) fails"""
    f = env.int("fails_at", 1, 102)
    n, k, calls, v0, res = run(env, True, False, f, sampled=(1, 2, 50, 100, 101, 102))
    env.eq("direct attempt first", calls[0][1], 0)
    steps = calls[1:]
    env.check("starts relaxed", abs(float(steps[0][1]) - 1) < 1e-12 if not hasattr(steps[0][1], "key") else steps[0][1] == 1)
    env.eq("starts from the given state", steps[0][0], v0)
    for a, b in zip(steps, steps[1:]):
        env.check("factors descend", b[1] < a[1])
        env.check("never below zero", b[1] >= 0)
        env.eq("continues from the previous state", b[0], a[3])
        env.check("stops at the first failure", a[2])
    env.check("success means the last solve succeeded at factor zero", bool(res[0]) == (steps[-1][2] and steps[-1][1] == 0))
    if bool(res[0]):
        env.check("equal steps", all(abs(float(a[1]) - float(b[1]) - (float(steps[0][1]) / (len(steps) - 1))) < 1e-9 for a, b in zip(steps, steps[1:])))
    env.eq("reported factor is that of the last solve", res[3], steps[-1][1])
    returned(env, n, k, res, steps[-1][3])


add("direct-only-success", direct(False, True), bounds="all starts and states")
add("direct-only-failure", direct(False, False), bounds="all starts and states")
add("direct-success-with-homotopy", direct(True, True), bounds="all starts and states")
add("stepping", stepping, nsamples=1, max_conf=20, bounds="failure at any of the homotopy steps or none; all states at the start, middle, end and at the failing step")


def preload():
    import logic.homotopycontroller, logic.stamping.matrixstamper, models.components.line  # noqa
