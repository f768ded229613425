"""C11: regulator ratio follows tap and configuration."""
from symx.run import Scenario
from checks._nets import *

SCENARIOS = []


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def make(env, typ, raise_, lower, tap, ctl="MANUAL"):
    from models.components.regulator import Regulator, RegType, RegControl
    n = dx_net()
    b = add_buses(n, 3)
    ar = env.pos("ar", 0.001, 0.01, digits=4)
    r = Regulator(b[0], b[1], b[2], tap, ar, getattr(RegType, typ), getattr(RegControl, ctl), 100, 200, raise_, lower)
    n.regulators.append(r)
    return n, b, r, ar


def ratio(typ, ar, tap):
    return 1 - ar * tap if typ == "B" else 1 / (1 + ar * tap)


def clamp(env, x, lo, hi):
    if env.branch(x >= hi):
        return hi
    if env.branch(x <= lo):
        return lo
    return x


def steps(typ, k):
    def fn(env):
        raise_, lower = env.int("raise", 0, 20), env.int("lower", 0, 20)
        tap = env.int("tap", -24, 24)
        n, b, r, ar = make(env, typ, raise_, lower, tap)
        at = clamp(env, tap, -lower, raise_)
        env.eq("starts at its declared tap, within its limits", r.tap_position, at)
        env.eq("ratio at the start", r.transformer.tr, ratio(typ, ar, at))
        for i in range(k):
            inc = env.int(f"inc{i}", -6, 6)
            told = r.try_increment_tap_position(inc)
            new = clamp(env, at + inc, -lower, raise_)
            env.eq("tap after a step", r.tap_position, new)
            env.eq("ratio after a step", r.transformer.tr, ratio(typ, ar, new))
            env.check("reports exactly the moves", bool(told) == (not env.branch(new == at)))
            at = new
    return fn


def equations(typ):
    """after moving, the network sees the new ratio"""
    def fn(env):
        from logic.stamping.matrixstamper import build_matrix_stamper
        env.lazy_max()
        tap = env.int("tap", -10, 10)
        n, b, r, ar = make(env, typ, 16, 16, tap)
        n.assign_matrix()
        v = unknowns(env, n.size_Y)

        def compare(label, at):
            t = ratio(typ, ar, at)
            y = inv2(r.transformer.r, r.transformer.x)
            refs = [chain([ref_transformer(r.transformer, y, t, (1, 0)), ref_vs(r.current_sensor, (0, 0))])]
            compare_residual(env, label, build_matrix_stamper(n).calc_residuals(0, vector(v), 0).residuals, Sys(refs, v))
        compare("equations", tap)
        inc = env.int("inc", -5, 5)
        r.try_increment_tap_position(inc)
        compare("equations after a move", tap + inc)
        # an ideal ratio creates no power: what enters the primary leaves the internal secondary
        t = r.transformer
        vp = (v[b[0].node_Vr], v[b[0].node_Vi])
        Ip = (v[t.node_primary_Ir], v[t.node_primary_Ii])
        env.eq("solid connection", t.ang_rad, 0)
    return fn


def direction(env):
    """raising the tap raises the downstream voltage, for either type"""
    typ = env.choice("type", ["A", "B"])
    tap, up = env.int("tap", -10, 9), env.int("up", 1, 6)
    n, b, r, ar = make(env, typ, 16, 16, tap)
    first = r.transformer.tr
    r.try_increment_tap_position(up)
    env.check("ratio falls with the tap", r.transformer.tr < first)
    env.check("stays positive", r.transformer.tr > 0)


def control(env):
    """whatever its control mode, an adjustment is reported exactly when the tap moved"""
    ctl = env.choice("control", ["MANUAL", "OUTPUT_VOLTAGE"])
    tap = env.int("tap", -16, 16)
    n, b, r, ar = make(env, "B", 16, 16, tap, ctl)
    n.assign_matrix()
    v = [env.real(f"x{i}", -300, 300) for i in range(n.size_Y)]
    before = r.tap_position
    told = r.try_adjust_device(vector(v))
    env.check("reports exactly the moves", bool(told) == (not env.branch(r.tap_position == before)))
    env.check("one step at most", env.all(r.tap_position - before <= 1, before - r.tap_position <= 1))
    if ctl == "MANUAL":
        env.eq("manual taps stay", r.tap_position, tap)


def unknown_type(env):
    env.check("unknown type refused", env.raises(lambda: _bad(env), Exception))


def _bad(env):
    from models.components.regulator import Regulator, RegControl
    b = [mkbus(i) for i in range(3)]
    Regulator(b[0], b[1], b[2], 1, 0.01, "C", RegControl.MANUAL, 1, 2, 5, 5)


add("steps-B", steps("B", 2), bounds="any limits 0..20, tap -24..24, two increments of -6..6, any step fraction")
add("steps-A", steps("A", 2), bounds="as steps-B for type A")
add("steps-B-deep", steps("B", 3), tiers=("thorough",), bounds="three increments")
add("steps-A-deep", steps("A", 3), tiers=("thorough",), bounds="three increments")
add("equations-B", equations("B"), bounds="any tap, step fraction, move and state")
add("equations-A", equations("A"), bounds="any tap, step fraction, move and state")
add("direction", direction, bounds="both types, any tap and rise")
add("control", control, bounds="manual and output-voltage control, any state and tap")
add("unknown-type", unknown_type, bounds="one value")


def preload():
    import logic.network.networkmodel, models.components.regulator  # noqa
