"""C28: cached derivations never change the equations, whatever was derived, cached or damaged before."""
import os
import shutil
import sys
import tempfile
from symx.run import Scenario
from checks._nets import *

SCENARIOS = []
HOME = tempfile.gettempdir()
ASSUMPTIONS = ["the derivation by sympy itself runs as is; its results are executed symbolically",
               "a new process is a fresh import of the modules next to the files its predecessor left"]


def sc(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def preload():
    import logic.network.networkmodel
    import models.optimization.L2infeasibility


def new_process():
    for m in [m for m in sys.modules if m.split(".")[0] in ("logic", "models")]:
        del sys.modules[m]
    preload()


def start():
    """a process without cache: the first one on its machine"""
    own = os.path.join(HOME, f"machine{os.getpid()}")
    shutil.rmtree(own, ignore_errors=True)
    os.makedirs(own)
    tempfile.tempdir = own
    new_process()


def files():
    """what the cache consists of"""
    return {os.path.join(d, n): open(os.path.join(d, n), "rb").read() for d, _, ns in os.walk(tempfile.gettempdir()) for n in ns}


WRITTEN = {"nothing": 0, "a byte": 1, "half": 0.5, "all but a byte": -1}


def damage(old, how):
    """what a process that ended while writing left of the files it wrote"""
    for f, c in files().items():
        if old.get(f) != c:
            n = WRITTEN[how]
            os.truncate(f, len(c) // 2 if n == 0.5 else n if n >= 0 else len(c) + n)


# ---- segments that differ in one place ---------------------------------------------------------------------------------

def segment(kind):
    """(segment, its symbols, values of a, b by the given constants and factor)"""
    from sympy import symbols
    from logic.stamping.lagrangesegment import LagrangeSegment
    from models.wellknownvariables import tx_factor
    a, b, x, y, l, m = symbols("a b x y l m")
    base = l * (a * x + b * x * y) + m * (b * y - a * x ** 2 + 3)
    con, pri, dual = [a, b], [x, y], [l, m]
    if kind == "constants":
        con = [b, a]
    elif kind == "primals":
        pri = [y, x]
    elif kind == "duals":
        dual = [m, l]
    elif kind == "coefficient":
        base = base + 2 * m
    elif kind == "factor":
        base, con = base.subs(b, tx_factor), [a, tx_factor]
    elif kind == "renamed":
        base = base.subs({a: b, b: a}, simultaneous=True)
    return LagrangeSegment(base, tuple(con), tuple(pri), tuple(dual)), dict(a=a, b=b, x=x, y=y, l=l, m=m)


class Element:
    """one instance of a segment, between the unknowns at the given indices"""

    def __init__(self, kind, vals, at, opt):
        self.kind, self.vals, self.at, self.opt = kind, vals, at, opt
        self.segment, self.symbols = segment(kind)

    def assign_nodes(self, node_index, optimization_enabled):
        for k in self.at:
            if self.at[k] is None:
                self.at[k] = next(node_index)

    def get_stamps(self):
        from logic.stamping.lagrangestampdetails import LagrangeStampDetails
        from logic.stamping.matrixstamper import build_stamps_from_stamper
        index = {self.symbols[k]: i for k, i in self.at.items()}
        if not self.opt:
            from logic.stamping.lagrangestampdetails import SKIP
            index.update({self.symbols[k]: SKIP for k in "lm"})
        return build_stamps_from_stamper(self, LagrangeStampDetails(self.segment, index, self.opt), list(self.vals))

    def get_connections(self):
        return []

    def rows(self, v, tx):
        """{row: (value, {column: derivative})}"""
        p, q = self.vals
        a, b = {"constants": (q, p), "renamed": (q, p), "factor": (p, tx)}.get(self.kind, (p, q))
        c = 5 if self.kind == "coefficient" else 3
        x, y = v[self.at["x"]], v[self.at["y"]]
        X, Y = self.at["x"], self.at["y"]
        fl = (a * x + b * x * y, {X: a + b * y, Y: b * x})
        fm = (b * y - a * x * x + c, {X: -2 * a * x, Y: b})
        if not self.opt:
            # the equation of a dual is in the row of the primal at its place
            swap = (self.kind == "primals") != (self.kind == "duals")
            return {Y: fl, X: fm} if swap else {X: fl, Y: fm}
        L, M = self.at["l"], self.at["m"]
        l, m = v[L], v[M]
        return {L: fl, M: fm,
                X: (l * (a + b * y) - 2 * a * m * x, {X: -2 * a * m, Y: l * b, L: a + b * y, M: -2 * a * x}),
                Y: (l * b * x + m * b, {X: l * b, L: b * x, M: b})}


class Present:
    """switches the stationarity equations on"""

    def assign_nodes(self, node_index, optimization_enabled):
        pass

    def get_stamps(self):
        return []


def check(env, elements, tx, opt, tag):
    env.lazy_max()
    n = tx_net()
    if opt:
        n.optimization = Present()
    for e in elements:
        n.misc.append(e)
    n.assign_matrix()
    size = n.size_Y
    v = [env.real(f"{tag}.v{i}", -9, 9) for i in range(size)]
    st, Y, J = newton(n, vector(v), tx)
    F, D = {}, {}
    for e in elements:
        for i, (f, g) in e.rows(v, tx).items():
            F[i] = F[i] + f if i in F else f
            for j, d in g.items():
                D[i, j] = D[i, j] + d if (i, j) in D else d
    for i in range(size):
        cols = [j for j in range(size) if (i, j) in D or (i, j) in Y.cells]
        rhs = -F[i] if i in F else 0
        for j in cols:
            rhs = rhs + D.get((i, j), 0) * v[j]
        env.eq(f"equation {i}", [Y.cells.get((i, j), 0) for j in cols] + [J[i]], [D.get((i, j), 0) for j in cols] + [rhs])
    res = st.calc_residuals(tx, vector(v), 0).residuals
    env.eq("residuals", [res[i] for i in range(size)], [F.get(i, 0) for i in range(size)])


def element(env, kind, tag, opt):
    vals = [env.real(f"{tag}.p", 0.5, 9), env.real(f"{tag}.q", 0.5, 9)]
    return Element(kind, vals, {k: None for k in ("xylm" if opt else "xy")}, opt)


KINDS = ["plain", "constants", "primals", "duals", "coefficient", "factor", "renamed"]


EVENTS = ["nothing", "new process"] + ["ended with " + w + " written" for w in WRITTEN]


def history(kinds, events, opts=None):
    def fn(env):
        steps = len(events) + 1
        kind = [env.choice(f"segment {k}", kinds) for k in range(steps)]
        event = [env.choice(f"before {k + 1}", ev) for k, ev in enumerate(events)]
        opt = env.boolean("optimisation")
        tx = env.real("factor", 0.1, 1)
        start()
        old = {}
        for k in range(steps):
            if k:
                if event[k - 1].startswith("ended"):
                    damage(old, event[k - 1].split(" ", 2)[2].rsplit(" ", 1)[0])
                if event[k - 1] != "nothing":
                    new_process()
            old = files()
            check(env, [element(env, kind[k], f"e{k}", opt)], tx, opt, f"s{k}")
    return fn


def together(kinds):
    """different segments in one network, with the same or different unknowns and parameters, in two processes"""
    def fn(env):
        pair = [env.choice("first", kinds), env.choice("second", kinds)]
        opt = env.boolean("optimisation")
        unknowns = env.boolean("same unknowns")
        vals = env.boolean("same parameters")
        tx = env.real("factor", 0.1, 1)
        start()
        for run in range(2):
            if run:
                new_process()
            es = [element(env, kind, f"r{run}e{k}", opt) for k, kind in enumerate(pair)]
            if unknowns:
                es[1].at = es[0].at
            if vals:
                es[1].vals = es[0].vals
            check(env, es, tx, opt, f"r{run}")
    return fn


def real_elements(env):
    """a network of the program's own elements, before and after the cache is filled, with and without stationarity equations"""
    opt = [env.boolean("optimisation first"), env.boolean("optimisation then")]
    how = env.choice("between", EVENTS)
    start()
    for run in range(2):
        if run:
            if how.startswith("ended"):
                damage({}, how.split(" ", 2)[2].rsplit(" ", 1)[0])
            if how != "nothing":
                new_process()
        n = tx_net()
        b = add_buses(n, 2)
        ks = [k_line(env, n, b, f"l{run}"), k_shunt(env, n, [b[1]], f"h{run}"), k_slack(env, n, [b[0]], f"s{run}")]
        if opt[run]:
            n.optimization = Present()
        n.assign_matrix()
        v = unknowns(env, n.size_Y, prefix=f"u{run}.")
        _, Y, J = newton(n, vector(v), 0)
        compare_newton(env, f"system {run}", Y, J, Sys([k() for k in ks], v, opt[run]), v)


FEW = ["nothing", "new process", "ended with half written"]
THOROUGH = dict(tiers=("thorough",), time_limit=700)

sc("two-steps", history(KINDS, [FEW]), tiers=("quick",), bounds="two derivations of 7 segments that differ in one place; between them nothing, a new process, or an end while writing; any values", weight=3)
sc("two-steps-all", history(KINDS, [EVENTS]), bounds="the same, with the cache's files ending at four places", weight=3, **THOROUGH)
sc("three-steps", history(["plain", "duals"], [FEW, FEW]), tiers=("quick",), bounds="three derivations of two segments, any of these events between them", weight=2)
sc("three-steps-all", history(["plain", "duals"], [EVENTS, EVENTS]), bounds="the same, with the cache's files ending at four places", weight=3, **THOROUGH)
sc("together", together(["plain", "constants", "duals", "factor"]), tiers=("quick",), bounds="two of four segments in one network, with the same or other unknowns and parameters, in two processes", weight=2)
sc("together-all", together(KINDS), bounds="two of seven segments in one network, with the same or other unknowns and parameters, in two processes", weight=2, **THOROUGH)
sc("elements", real_elements, bounds="a line, a shunt and a source, with and without stationarity equations; any of six events between two derivations")
