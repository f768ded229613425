"""C08: the assembled matrix is the sum of exactly the live contributions."""
from symx.run import Scenario

ASSUMPTIONS = ["scipy's csc_matrix constructor sums duplicate coordinates (modelled by symx.shims.SymSparse, validated on replays)"]

CELLS = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 2)]


def mk(env, debug=False):
    from logic.stamping.matrixbuilder import MatrixBuilder
    from logic.powerflowsettings import PowerFlowSettings
    return MatrixBuilder(PowerFlowSettings(debug=debug))


def dense(live, n=3):
    out = [[0.0] * n for _ in range(n)]
    for r, c, v in live:
        out[r][c] = out[r][c] + v
    return out


def embed(a, n=3):
    a = a.toarray()
    return [[a[i, j] if i < a.shape[0] and j < a.shape[1] else 0 for j in range(n)] for i in range(n)]


def history(nlin, nnon, rounds, debug=False):
    def fn(env):
        b = mk(env, debug)
        live = []
        k = 0
        # a non-zero corner keeps the matrix square
        anchor = env.pos("anchor")
        b.stamp(2, 2, anchor)
        live.append((2, 2, anchor))
        for i in range(nlin):
            v = env.real(f"l{i}", -5, 5)
            r, c = CELLS[(i * 2) % 5]
            b.stamp(r, c, v)
            live.append((r, c, v))
        mark = b.get_usage()
        keep = list(live)
        for q in range(rounds):
            live = list(keep)
            for i in range(nnon):
                v = env.real(f"n{q}_{i}", -5, 5)
                r, c = CELLS[(i + q) % 5]
                b.stamp(r, c, v)
                live.append((r, c, v))
            env.eq(f"matrix", embed(b.to_matrix()), dense(live))
            for t in range(3):
                env.eq("row view", _acc(b.get_row(t)), _acc((c, v) for r, c, v in live if r == t))
                env.eq("column view", _acc(b.get_col(t)), _acc((r, v) for r, c, v in live if c == t))
            b.clear(retain_idx=mark)
    return fn


def _acc(pairs):
    out = [0.0] * 3
    for i, v in pairs:
        out[i] = out[i] + v
    return out


def full_clear(env):
    """clear without a mark forgets everything"""
    b = mk(env)
    for i in range(3):
        b.stamp(i, i, env.pos(f"a{i}"))
    b.clear()
    live = []
    for i in range(3):
        v = env.pos(f"b{i}")
        b.stamp(i, 2 - i, v)
        live.append((i, 2 - i, v))
    env.eq("matrix after clear", embed(b.to_matrix()), dense(live))


def two_marks(env):
    """truncating to different marks in turn"""
    b = mk(env)
    vals = [env.real(f"v{i}", -5, 5) for i in range(6)]
    live = []

    def st(r, c, v):
        b.stamp(r, c, v)
        live.append((r, c, v))
    st(2, 2, env.pos("anchor"))
    st(0, 0, vals[0])
    m1, k1 = b.get_usage(), len(live)
    st(0, 1, vals[1])
    st(1, 1, vals[2])
    b.clear(m1)
    del live[k1:]
    st(1, 0, vals[3])
    m2, k2 = b.get_usage(), len(live)
    st(0, 0, vals[4])
    b.clear(m2)
    del live[k2:]
    st(1, 1, vals[5])
    env.eq("matrix", embed(b.to_matrix()), dense(live))


def verdict(env):
    """the debug check refuses a matrix with an empty row or column, and nothing else"""
    b = mk(env, True)
    pat = [env.boolean(f"p{i}{j}") for i in range(2) for j in range(2)]
    first = env.boolean("had_more")
    v = env.pos("v")
    b.stamp(2, 2, v)
    mark = b.get_usage()
    if first:
        for i in range(2):
            for j in range(2):
                b.stamp(i, j, v)
        b.clear(mark)
    for i in range(2):
        for j in range(2):
            if pat[i * 2 + j]:
                b.stamp(i, j, v)
    rows = all(pat[i * 2] or pat[i * 2 + 1] for i in range(2))
    cols = all(pat[j] or pat[2 + j] for j in range(2))
    e, _ = env.raises(lambda: b.assert_valid(check_zeros=True))
    env.check("refused iff a row or column is empty", (e is not None) == (not (rows and cols)))
    if rows and cols:
        e, m = env.raises(lambda: b.to_matrix())
        env.check("complete matrix is accepted", e is None)
        if e is None:
            env.eq("matrix", embed(m), dense([(2, 2, v)] + [(i, j, v) for i in range(2) for j in range(2) if pat[i * 2 + j]]))


def symbolic_dump(env):
    b = mk(env)
    live = []
    b.stamp(2, 2, 3)
    live.append((2, 2, 3))
    for i in range(4):
        b.stamp(*CELLS[i], 2 + i)
    b.clear(1)
    v = env.int("v", 1, 9)
    k = int(v)
    b.stamp(0, 1, k)
    live.append((0, 1, k))
    m = b.to_symbolic_matrix()
    env.eq("symbolic matrix", [[int(m[i, j]) if i < m.shape[0] and j < m.shape[1] else 0 for j in range(3)] for i in range(3)], dense(live))


SCENARIOS = [
    Scenario("history", history(2, 2, 2), bounds="3 retained and 2 x 2 transient stamps with every value in [-5,5] incl. zero, 2 truncations, 5 cells of a 3x3 matrix"),
    Scenario("history-debug", history(1, 2, 2, debug=True), bounds="as history, debug mode"),
    Scenario("history-deep", history(2, 3, 3), tiers=("thorough",), max_paths=60000, time_limit=600, bounds="3 retained, 3 x 3 transient stamps"),
    Scenario("full-clear", full_clear, bounds="3 stamps, clear, 3 stamps"),
    Scenario("two-marks", two_marks, bounds="7 stamps, two different marks"),
    Scenario("verdict", verdict, bounds="all 16 sparsity patterns of the live 2x2 block, with and without earlier content"),
    Scenario("symbolic-dump", symbolic_dump, bounds="6 stamps, values 1..9"),
]


def preload():
    import logic.stamping.matrixbuilder  # noqa
