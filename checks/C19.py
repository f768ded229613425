"""C19: scaling loads, and the command line applying it once."""
import contextlib
import io
import os
import sys
import tempfile
from symx.run import Scenario
from checks._nets import *

SCENARIOS = []


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def three(env, n):
    from models.components.load import Load
    from models.components.bus import GROUND
    b = add_buses(n, 3)
    out = []
    for i in range(3):
        P, Q = env.real(f"P{i}", -3, 3), env.real(f"Q{i}", -3, 3)
        z = env.mkc(env.pos(f"r{i}", 0.1, 3), env.real(f"x{i}", -3, 3)) if i else 0
        ip, iq = env.real(f"ip{i}", -3, 3), env.real(f"iq{i}", -3, 3)
        l = Load(b[i], GROUND if i else b[1], P, Q, z, ip, iq, str(i), "A")
        n.loads.append(l)
        out.append((l, P, Q, l.G, l.B, ip, iq))
    return out


def same(env, ls, fp, fq):
    for l, P, Q, G, B, ip, iq in ls:
        env.eq("constant power is scaled", [l.P, l.Q], [P * fp, Q * fq])
        env.eq("the other parts stay", [l.G, l.B, l.IP, l.IQ], [G, B, ip, iq])


def direct(env):
    from logic.network.loadfactor import modify_load_factor
    n = env.choice("net", [tx_net, dx_net])()
    ls = three(env, n)
    fp, fq = env.real("fp", -2, 4), env.real("fq", -2, 4)
    modify_load_factor(n, fp, fq)
    same(env, ls, fp, fq)
    # again: factors multiply
    gp, gq = env.real("gp", 0, 2), env.real("gq", 0, 2)
    modify_load_factor(n, gp, gq)
    same(env, ls, fp * gp, fq * gq)
    modify_load_factor(n)
    same(env, ls, fp * gp, fq * gq)


class Swap:
    def __init__(self, mod, **kw):
        self.mod, self.kw = mod, kw

    def __enter__(self):
        self.old = {k: getattr(self.mod, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.mod, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.mod, k, v)


def cli(env):
    """the solver called from the command line gets the loads scaled exactly once, and settings as asked"""
    import run_solver as R
    n = env.choice("net", [tx_net, dx_net])()
    ls = three(env, n)
    f = env.real("f", 0, 3)
    given = bool(env.boolean("given"))
    step, inf = bool(env.boolean("stepping")), bool(env.boolean("infeasibility"))
    seen = []

    class Results:
        def display(self, verbose=False):
            seen.append(("display", verbose))

        def output(self, path):
            seen.append(("output", path))

    class Flow:
        def __init__(self, network, settings=None):
            self.network, self.settings = network, settings

        def execute(self):
            seen.append(("solve", self.network is n, [(l.P, l.Q) for l in n.loads], self.settings.tx_stepping,
                         type(self.network.optimization).__name__, self.settings.tolerance, self.settings.device_control))
            return Results()

    class Loader:
        def __init__(self, settings):
            pass

        def from_file(self, case):
            seen.append(("load", case))
            return n
    argv = ["run_solver.py", "some.case", "--outputfile", "out"] + (["--load_factor", env.lit(f)] if given else []) + \
        (["--tx_stepping"] if step else []) + (["--infeasibility"] if inf else []) + (["--verbose"] if step else [])
    old = sys.argv
    sys.argv = argv
    try:
        with Swap(R, PowerFlow=Flow, NetworkLoader=Loader), contextlib.redirect_stdout(io.StringIO()):
            R.main()
    finally:
        sys.argv = old
    env.check("what is done", [x[0] for x in seen] == ["load", "solve", "display", "output"])
    env.check("the case asked for", seen[0][1] == "some.case" and seen[1][1] and seen[3][1] == "out" and seen[2][1] == step)
    same(env, ls, f if given else 1, f if given else 1)
    env.eq("solved with the scaled loads", [z for x in seen[1][2] for z in x], [z for l, P, Q, *_ in ls for z in ((P * f, Q * f) if given else (P, Q))])
    env.check("settings", seen[1][3:] == (step, "L2InfeasibilityOptimization" if inf else "NoneType", 1e-5, True))


def cli_series(env):
    """options of a time-series run reach the processor, and its result is shown instead of a plain solve"""
    import run_solver as R
    n = dx_net()
    ls = three(env, n)
    f = env.real("f", 0, 3)
    seen = []
    fails = bool(env.boolean("fails"))

    class Results:
        def display(self, verbose=False):
            seen.append("display")

        def output(self, path):
            seen.append("output")

    class Flow:
        def __init__(self, network, settings=None):
            self.network = network

        def execute(self):
            seen.append("plain")
            return Results()

    class Proc:
        def __init__(self, settings, flow):
            self.s, self.flow = settings, flow

        def execute(self):
            s = self.s
            seen.append((s.loadfile_name, s.loadfile_start, s.loadfile_end, s.artificialswingbus, s.negativeloads, s.outputfile,
                         self.flow.network is n))
            return None if fails else Results()

    class Loader:
        def __init__(self, settings):
            pass

        def from_file(self, case):
            return n
    old = sys.argv
    sys.argv = ["run_solver.py", "c", "--loadfile", "l.csv", "--loadstart", "2", "--loadend", "5", "--artificialswingbus", "sw",
                "--negativeloads", "n_1", "n_2", "--outputfile", "o", "--load_factor", env.lit(f)]
    try:
        with Swap(R, PowerFlow=Flow, NetworkLoader=Loader, TimeSeriesProcessor=Proc), contextlib.redirect_stdout(io.StringIO()):
            R.main()
    finally:
        sys.argv = old
    same(env, ls, f, f)
    env.check("options", seen[0] == ("l.csv", 2, 5, "sw", ["n_1", "n_2"], "o", True))
    env.check("shown", seen[1:] == (["plain", "display", "output"] if fails else ["display"]))


add("direct", direct, bounds="3 loads with all three parts, both kinds of network; two scalings in a row, any factors")
add("cli", cli, bounds="3 loads; factor given or not, stepping, infeasibility; solver and file reader replaced")
add("cli-series", cli_series, bounds="3 loads; all time-series options; processor and file reader replaced")


def preload():
    import logic.network.networkmodel, models.components.load, logic.network.loadfactor, run_solver  # noqa
