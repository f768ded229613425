"""C07: Newton iteration protocol."""
from symx.run import Scenario
from checks._nets import vector

SCENARIOS = []
N = 3


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


class Stamper:
    """contributes known positive values; residual maxima are free"""

    def __init__(self, env, counts, sols):
        self.env, self.counts, self.sols = env, counts, sols
        self.linear = []
        self.away = None
        self.nonlinear = []      # (state, entries, right-hand side)
        self.res = []            # (factor, state, max)

    def _entries(self, Y, J, n, tag):
        es = []
        for q in range(n):
            r, c = (q + (tag > 'nl')) % N, (q * 2 + len(self.nonlinear)) % N
            x = self.env.pos(f"y{tag}{q}", 0.5, 3)
            j = self.env.real(f"j{tag}{q}", -3, 3)
            Y.stamp(r, c, x)
            J[r] += j
            es.append((r, c, x, j))
        return es

    def stamp_linear(self, Y, J, tx, *a, **k):
        self.tx = tx
        d = [self.env.pos(f"d{i}", 1, 3) for i in range(N)]
        for i in range(N):
            Y.stamp(i, i, d[i])
        self.linear.append([(i, i, d[i], 0) for i in range(N)] + self._entries(Y, J, 1, "l"))

    def stamp_nonlinear(self, Y, J, v, *a, **k):
        n = self.counts[len(self.nonlinear) % len(self.counts)]
        self.nonlinear.append((list(v), self._entries(Y, J, n, f"nl{len(self.nonlinear)}_")))

    def calc_residuals(self, tx, v, *a, **k):
        k = which(v, self.sols)
        m = self.env.pos("res_elsewhere", 0.001, 5) if k is None else self.env.pos(f"res{k}", 0.001, 5)
        if self.away is not None:
            self.env.assume(m != self.away)      # whether a residual equal to the tolerance is limited is left open
        self.res.append((k, tx, m))
        class D:
            residuals = None
            max_residual = m
            max_residual_idx = 0
        return D()


def answer(env, k):
    """a solver answer; its last entry tells which one it is"""
    return [env.real(f"s{k}_{i}", -2, 2) for i in range(N - 1)] + [env.real(f"s{k}_tag", 10 * k + 3, 10 * k + 4)]


def missing(x):
    return isinstance(x, float) and x != x


def which(v, sols):
    """the solver answer a state is (states between answers belong to none)"""
    for k, s in enumerate(sols):
        if all(x is y or x == y or (missing(x) and missing(y)) for x, y in zip(v, s)):
            return k
    return None


class Limit:
    def __init__(self, env):
        self.env, self.calls = env, []

    def apply_limiting(self, v_next, v_previous):
        out = [self.env.real(f"lim{len(self.calls)}_{i}", -2, 2) for i in range(N)]
        self.calls.append((list(v_next), list(v_previous), out))
        return vector(out)


class Net:
    matrix_map = {0: "first"}


def dense(es):
    a = [[0] * N for _ in range(N)]
    b = [0] * N
    for r, c, x, j in es:
        a[r][c] = a[r][c] + x
        b[r] = b[r] + j
    return a, b


def protocol(iters, counts, limiting, debug=False):
    def fn(env):
        import logic.nrsolver as NR
        from logic.powerflowsettings import PowerFlowSettings
        sols, systems = [], []
        st = Stamper(env, counts, sols)
        lim = Limit(env) if limiting else None
        tol = env.pos("tol", 0.01, 1)
        st.away = tol if limiting else None
        t = env.real("lam", 0, 1)
        v0 = [env.real(f"i{j}", -2, 2) for j in range(N)]
        start = vector(v0)

        def solve(A, b, *a, **k):
            out = answer(env, len(sols))
            sols.append(out)
            A = A.toarray()
            systems.append(([[A[i, j] for j in range(N)] for i in range(N)], [b[i] for i in range(N)]))
            return vector(out)
        old = NR.spsolve
        NR.spsolve = solve
        try:
            ok, v, it = NR.NRSolver(PowerFlowSettings(tolerance=tol, max_iters=iters, debug=debug), Net(), lim).run_powerflow(st, start, t)
        finally:
            NR.spsolve = old
        env.eq("caller's start untouched", list(start), v0)
        env.check("no more iterations than allowed", len(sols) <= iters)
        env.eq("iterations reported", it, len(sols) - 1)
        at = v0
        for k in range(len(sols)):
            env.eq("assembled at the latest state", st.nonlinear[k][0], at)
            a, b = dense(st.linear[0] + st.nonlinear[k][1])
            env.eq("matrix handed to the solver", systems[k][0], a)
            env.eq("right-hand side handed to the solver", systems[k][1], b)
            at = sols[k]
            # the residual that decides is the one of the new solution
            hit = [r for r in st.res if r[0] == k]
            env.check("residual evaluated at the new solution", len(hit) >= 1)
            env.eq("at the run's factor", [r[1] for r in hit], [t] * len(hit))
            m = hit[0][2]
            last = k == len(sols) - 1
            if not last:
                env.check("goes on only above the tolerance", m >= tol)
            elif env.branch(m < tol):
                env.check("converged run reports success", bool(ok))
                env.eq("returns the converged state", list(v), sols[k])
            else:
                env.check("unconverged run reports failure", not bool(ok))
                env.check("uses all its iterations", len(sols) == iters)
            if limiting and not last:
                env.eq("limiting sees the new and the previous state", [lim.calls[k][0], lim.calls[k][1]], [sols[k], st.nonlinear[k][0]])
                at = lim.calls[k][2]
        env.eq("linear part assembled once", len(st.linear), 1)
    return fn


def notanumber(env):
    import logic.nrsolver as NR
    from logic.powerflowsettings import PowerFlowSettings
    n = []
    st = Stamper(env, [1], n)
    where = env.choice("where", [0, 1, 2])
    when = env.choice("when", [0, 1])

    def solve(A, b, *a, **k):
        out = answer(env, len(n))
        if len(n) == when:
            out[where] = float("nan")
        n.append(out)
        return vector(out)
    old = NR.spsolve
    NR.spsolve = solve
    tol = env.pos("tol", 0.0001, 0.0005)     # below every residual: never converges
    try:
        NR.NRSolver(PowerFlowSettings(tolerance=tol, max_iters=4), Net(), None).run_powerflow(st, vector([0.5] * N), 0)
        bad = True
    except Exception:
        bad = False
    finally:
        NR.spsolve = old
    env.check("refused", not bad)
    env.eq("at once", len(n), when + 1)


B = "{} iterations, all solver answers, residual maxima, tolerances and contributions (counts per iteration {})"
add("plain", protocol(4, [2, 1, 3, 0], False), bounds=B.format(4, [2, 1, 3, 0]))
add("limiting", protocol(3, [1, 2], True), bounds=B.format(3, [1, 2]))
add("single", protocol(1, [1], True), bounds=B.format(1, [1]))
add("debug", protocol(2, [2, 1], False, True), bounds=B.format(2, [2, 1]))
add("long", protocol(5, [0, 1], True), tiers=("thorough",), bounds=B.format(5, [0, 1]))
add("wide", protocol(4, [3, 1, 4, 2], True), tiers=("thorough",), bounds=B.format(4, [3, 1, 4, 2]))
add("not-a-number", notanumber, bounds="a missing value at any position of the first two solutions")


def preload():
    import logic.nrsolver  # noqa
