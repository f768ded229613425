"""C10: automatic capacitors and fuses follow their control law."""
from symx.run import Scenario
from checks._nets import *

SCENARIOS = []


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def voltage(env, tag):
    """a bus voltage whose magnitude is known exactly (any magnitude, Pythagorean directions)"""
    m = env.real("m" + tag, 0, 3)
    c, s = env.choice("dir" + tag, [(1.0, 0.0), (0.6, -0.8), (-0.28, 0.96)])
    return m, (m * c, m * s)


def straight(env, tag):
    """a voltage of any magnitude in one direction"""
    m = env.real("m" + tag, 0, 3)
    return m, (m * 0.6, m * -0.8)


def anywhere(env, tag):
    """any voltage, judged by its squared magnitude"""
    x, y = env.real("x" + tag, -3, 3), env.real("y" + tag, -3, 3)
    return x * x + y * y, (x, y)


def capacitor(env, mode, steps, pick):
    from models.components.capacitor import Capacitor, CapacitorMode, CapSwitchState
    n = dx_net()
    b = add_buses(n, 2)
    from itertools import count
    it = count(0)
    for x in b:
        x.assign_nodes(it, False)
    lo, hi = env.pos("lo", 0.2, 2.5), env.pos("hi", 0.2, 2.5)
    env.assume(lo + 0.001 < hi)
    cap = Capacitor(b[0], b[1], env.pos("q", 1, 5), 1, getattr(CapacitorMode, mode), hi, lo)
    cap.switch = CapSwitchState.OPEN if bool(env.boolean("starts_open")) else CapSwitchState.CLOSED
    return n, b, cap, lo, hi, CapSwitchState


def band(pick, steps):
    def fn(env):
        n, b, cap, lo, hi, S = capacitor(env, "VOLT", steps, pick)
        mine = pick is anywhere
        above = below = None
        for k in range(steps):
            m, v = pick(env, str(k))
            L, H = (lo * lo, hi * hi) if mine else (lo, hi)
            # strictly on one side, with a margin so that floating point agrees
            side = env.choice(f"side{k}", [-1, 0, 1])
            env.assume(m < L - 0.001 if side < 0 else m > H + 0.001 if side > 0 else env.all(m > L + 0.0001, m < H - 0.0001))
            before = cap.switch
            w = [0, 0, 0, 0]
            w[b[0].node_Vr], w[b[0].node_Vi] = v
            w[b[1].node_Vr], w[b[1].node_Vi] = env.real(f"o{k}r", -3, 3), env.real(f"o{k}i", -3, 3)
            told = cap.try_adjust_device(vector(w))
            env.check("reports exactly its changes", bool(told) == (cap.switch != before))
            if side == 0:
                env.check("keeps its state inside the band", cap.switch == before)
                continue
            closed = 1 if cap.switch == S.CLOSED else 0
            env.eq("connected below, disconnected above", closed, 1 if side < 0 else 0,
                   known=("capacitor-direction", 0 if side < 0 else 1))
    return fn


def two_sided(env):
    """the state reached above the band is the same from either start and the opposite of the one below"""
    from models.components.capacitor import Capacitor, CapacitorMode, CapSwitchState as S
    from itertools import count
    lo, hi = env.pos("lo", 0.2, 2.5), env.pos("hi", 0.2, 2.5)
    env.assume(lo + 0.001 < hi)
    xa, ya, xb, yb = (env.real(k, -3, 3) for k in ("xa", "ya", "xb", "yb"))
    env.assume(env.all(xa * xa + ya * ya > hi * hi + 0.001, xb * xb + yb * yb < lo * lo - 0.001))
    ends = {}
    for start in (S.OPEN, S.CLOSED):
        for side, v in ((1, (xa, ya)), (-1, (xb, yb))):
            b = [mkbus(0), mkbus(1)]
            it = count(0)
            for x in b:
                x.assign_nodes(it, False)
            cap = Capacitor(b[0], b[1], 1, 1, CapacitorMode.VOLT, hi, lo)
            cap.switch = start
            told = cap.try_adjust_device(vector([v[0], v[1], 0, 0]))
            env.check("reports exactly its changes", bool(told) == (cap.switch != start))
            env.check("then rests", not cap.try_adjust_device(vector([v[0], v[1], 0, 0])))
            ends[start, side] = cap.switch
    env.check("the state reached depends on the side only", ends[S.OPEN, 1] == ends[S.CLOSED, 1] and ends[S.OPEN, -1] == ends[S.CLOSED, -1])
    env.check("the sides differ", ends[S.OPEN, 1] != ends[S.OPEN, -1])


def manual(env):
    n, b, cap, lo, hi, S = capacitor(env, "MANUAL", 1, None)
    before = cap.switch
    for k in range(2):
        m, v = anywhere(env, str(k))
        told = cap.try_adjust_device(vector([v[0], v[1], 0, 0]))
        env.check("never moves", not told and cap.switch == before)


def refused(mode):
    def fn(env):
        n, b, cap, lo, hi, S = capacitor(env, mode, 1, None)
        m, v = anywhere(env, "0")
        env.check("unsupported mode refused", env.raises(lambda: cap.try_adjust_device(vector([v[0], v[1], 0, 0])), Exception))
    return fn


def fuse(env):
    from models.components.fuse import Fuse, FuseStatus
    n = dx_net()
    b = add_buses(n, 3)
    lim = env.pos("limit", 0.2, 2.5)
    f = Fuse(b[0], b[1], b[2], lim, FuseStatus.GOOD, "A")
    n.fuses.append(f)
    n.assign_matrix()
    from models.components.voltagesource import Ir, Ii
    st = f.current_sensor.stamper
    ir, ii = st.get_var_col_index(Ir), st.get_var_col_index(Ii)
    blown = False
    for k in range(4):
        x, y = env.real(f"x{k}", -3, 3), env.real(f"y{k}", -3, 3)
        m = x * x + y * y
        over = bool(env.boolean(f"over{k}"))
        env.assume(m > lim * lim + 0.001 if over else m < lim * lim - 0.001)
        w = [env.real(f"w{k}_{i}", -3, 3) for i in range(n.size_Y)]
        w[ir], w[ii] = x, y
        told = f.try_adjust_device(vector(w))
        env.check("blows on the first current above its limit and only then", bool(told) == (over and not blown))
        blown = blown or over
        env.check("status", (f.status == FuseStatus.BLOWN) == blown)
        env.check("connects until it is blown", f.get_connections() == ([] if blown else [(b[0], b[1])]))


def initially_blown(env):
    from models.components.fuse import Fuse, FuseStatus
    n = dx_net()
    b = add_buses(n, 3)
    f = Fuse(b[0], b[1], b[2], env.pos("limit", 0.2, 2.5), FuseStatus.BLOWN, "A")
    n.fuses.append(f)
    n.assign_matrix()
    w = [env.real(f"w{i}", -3, 3) for i in range(n.size_Y)]
    env.check("never repaired", not f.try_adjust_device(vector(w)) and f.status == FuseStatus.BLOWN)
    env.check("no connection", f.get_connections() == [])


add("capacitor-direction", band(voltage, 1), bounds="any set-points, magnitude, three directions, both starting states")
add("capacitor-direction-any", band(anywhere, 1), bounds="any set-points and voltage, both starting states")
add("capacitor-sides", two_sided, bounds="any set-points, any voltage above and any below the band")
add("capacitor-history", band(anywhere, 2), bounds="any two successive voltages")
add("capacitor-history-3", band(anywhere, 3), tiers=("thorough",), bounds="any three successive voltages")
add("capacitor-history-5", band(straight, 5), max_paths=600, bounds="any five successive magnitudes in one direction")
add("capacitor-history-6", band(straight, 6), tiers=("thorough",), max_paths=2000, bounds="any six successive magnitudes in one direction")
add("capacitor-manual", manual, bounds="any voltages")
add("capacitor-var", refused("VAR"), bounds="any voltage")
add("capacitor-varvolt", refused("VARVOLT"), bounds="any voltage")
add("fuse", fuse, bounds="any limit and any four successive currents")
add("fuse-blown", initially_blown, bounds="any state")


def preload():
    import logic.network.networkmodel, models.components.capacitor, models.components.fuse, models.components.voltagesource  # noqa
