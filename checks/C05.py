"""C05: the homotopy starts relaxed and ends at the original network."""
from symx.run import Scenario
from checks._nets import *
from checks.C04 import line_buses

DERIVE = ["models.components.load:lh_pq", "models.components.generator:lh"]
SCENARIOS = []


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    kw.setdefault("bounds", "all parameters in range, all states, all factors 0..1")
    SCENARIOS.append(Scenario(name, fn, **kw))


def evaluate(env, n, v, *factors):
    from logic.stamping.matrixstamper import build_matrix_stamper
    env.lazy_max()
    st = build_matrix_stamper(n)
    return [list(st.calc_residuals(t, vector(v), k).residuals) for k, t in enumerate(factors)]


def setup(env, kit, nb, **kw):
    n = kw.pop("net", tx_net)()
    b = add_buses(n, nb)
    k = kit(env, n, b, "e", **kw)
    n.assign_matrix()
    v = unknowns(env, n.size_Y)
    return n, k, v


def eps(env):
    return 0 if env.mode == "sym" else 1e-9


def same(kit, nb, **kw):
    def fn(env):
        n, k, v = setup(env, kit, nb, **kw)
        t = env.real("lam", 0, 1)
        r0, rt = evaluate(env, n, v, 0, t)
        compare_residual(env, "factor 0", r0, Sys([k()], v))
        env.eq("factor has no influence", rt, r0)
    return fn


def vanish(kit, nb, **kw):
    """its currents shrink steadily to nothing"""
    def fn(env):
        n, k, v = setup(env, kit, nb, **kw)
        t, u = env.real("lam", 0, 1), env.real("mu", 0, 1)
        env.assume(t <= u)
        r0, rt, ru, r1 = evaluate(env, n, v, 0, t, u, 1)
        compare_residual(env, "factor 0", r0, Sys([k()], v))
        env.eq("nothing left at factor 1", r1, [0] * n.size_Y)
        for a, b, c in zip(r0, rt, ru):
            env.check("shrinks without turning", env.all(b * a >= -eps(env), env.abs(b) <= env.abs(a) + eps(env),
                                                         env.abs(c) <= env.abs(b) + eps(env)))
    return fn


def stiffen(make, nb):
    """the series part of the currents grows steadily (bus voltages are pulled together)"""
    def fn(env):
        n = tx_net()
        b = add_buses(n, nb)
        rows, ref = make(env, n, b)
        n.assign_matrix()
        v = unknowns(env, n.size_Y)
        t, u = env.real("lam", 0, 1), env.real("mu", 0, 1)
        env.assume(t < u)
        r0, rt, ru, r1 = evaluate(env, n, v, 0, t, u, 1)
        compare_residual(env, "factor 0", r0, Sys([ref()], v))
        for i in rows():
            a, b_, c, d = r0[i], rt[i], ru[i], r1[i]
            env.check("grows without turning", env.all(b_ * a >= -eps(env), env.abs(b_) + eps(env) >= env.abs(a),
                                                       env.abs(c) + eps(env) >= env.abs(b_)))
            env.check("much larger at factor 1", env.abs(d) + eps(env) >= env.abs(a) * 2)
        i, j = rows()[:2]
        env.eq("keeps its ratio", rt[i] * r0[j], rt[j] * r0[i])
    return fn


def mk_line(env, n, b):
    from models.components.line import Line
    r, x = env.pos("r", 0.01, 2), env.pos("x", 0.01, 2)
    el = Line(b[0], b[1], r, x, 0, True, 0, 0, 0)
    n.lines.append(el)
    return (lambda: [b[0].node_Vr, b[0].node_Vi, b[1].node_Vr, b[1].node_Vi]), lambda: ref_line(el, r, x, 0)


def charging(env):
    """line charging alone: equal end voltages leave only the shunt part"""
    n = tx_net()
    b = add_buses(n, 2)
    k = k_line(env, n, b, "e")
    n.assign_matrix()
    a, c = env.real("vr", -2, 2), env.real("vi", -2, 2)
    v = [0] * n.size_Y
    for x in b:
        v[x.node_Vr], v[x.node_Vi] = a, c
    t = env.real("lam", 0, 1)
    r0, rt, r1 = evaluate(env, n, v, 0, t, 1)
    compare_residual(env, "factor 0", r0, Sys([k()], v))
    env.eq("nothing left at factor 1", r1, [0] * n.size_Y)
    for p, q in zip(r0, rt):
        env.check("shrinks without turning", env.all(q * p >= -eps(env), env.abs(q) <= env.abs(p) + eps(env)))


def xfmr(env):
    """at factor 0 the rated ratio and shift; at factor 1 one to one without shift"""
    n = tx_net()
    b = add_buses(n, 2)
    k = k_xfmr(env, n, b, "e")
    n.assign_matrix()
    v = unknowns(env, n.size_Y)
    el = n.transformers[0]
    r0, r1 = evaluate(env, n, v, 0, 1)
    compare_residual(env, "factor 0", r0, Sys([k()], v))
    env.eq("primary voltage is secondary voltage",
           [env.abs(r1[el.node_primary_Ir]), env.abs(r1[el.node_primary_Ii])],
           [env.abs(v[b[0].node_Vr] - v[el.node_secondary_Vr]), env.abs(v[b[0].node_Vi] - v[el.node_secondary_Vi])])
    env.eq("primary current is secondary current",
           [r1[el.node_secondary_Vr] + r1[b[1].node_Vr], r1[el.node_secondary_Vi] + r1[b[1].node_Vi]],
           [-v[el.node_primary_Ir], -v[el.node_primary_Ii]])


def xfmr_between(env):
    """the ratio at any factor lies between the rated one and one; no shift given"""
    n = tx_net()
    b = add_buses(n, 2)
    k_xfmr(env, n, b, "e", ang=0)
    n.assign_matrix()
    el = n.transformers[0]
    v = [0] * n.size_Y
    v[el.node_secondary_Vr] = 1
    t, u = env.real("lam", 0, 1), env.real("mu", 0, 1)
    env.assume(t <= u)
    r0, rt, ru, r1 = [env.abs(r[el.node_primary_Ir]) for r in evaluate(env, n, v, 0, t, u, 1)]
    env.eq("rated", r0, el.tr)
    env.eq("unity", r1, 1)
    env.check("between", env.all((rt - r0) * (r1 - rt) >= -eps(env), (ru - rt) * (r1 - ru) >= -eps(env)))


def center_tap(env):
    n = dx_net()
    b = add_buses(n, 6)
    k = k_ct(env, n, b, "e")
    n.assign_matrix()
    v = unknowns(env, n.size_Y)
    r0, r1 = evaluate(env, n, v, 0, 1)
    compare_residual(env, "factor 0", r0, Sys([k()], v))
    el = n.transformers[0]
    e, s1, s2 = el.coils[0].primary_node, el.coils[1].sending_node, el.coils[2].sending_node
    for q in ("node_Vr", "node_Vi"):
        i1, i2 = (el.node_L1_Ir, el.node_L2_Ir) if q == "node_Vr" else (el.node_L1_Ii, el.node_L2_Ii)
        env.eq("unit ratio of the upper half", env.abs(r1[i1]), env.abs(v[getattr(s1, q)] - v[getattr(e, q)]))
        env.eq("unit ratio of the lower half", env.abs(r1[i2]), env.abs(v[getattr(s2, q)] + v[getattr(e, q)]))


def multi(phases):
    def fn(env):
        import numpy as np
        from models.components.unbalanced_line import UnbalancedLine
        n = dx_net()
        line_buses(n, phases)
        m = len(phases)
        Z = [[complex(1 + 0.3 * i, 2 - 0.25 * i) if i == j else complex(0.1 + 0.07 * i - 0.03 * j, 0.3 - 0.05 * i + 0.02 * j)
              for j in range(m)] for i in range(m)]
        ln = env.pos("len", 0.1, 10)
        B = [[env.real(f"b{i}{j}", -2, 2) for j in range(m)] for i in range(m)]
        el = UnbalancedLine(n, [list(r) for r in Z], [[env.mkc(0.0, x) for x in r] for r in B], "a", "b", ln, phases)
        n.lines.append(el)
        Y = [[y / ln for y in r] for r in np.linalg.inv(np.array(Z)).tolist()]
        Bt = [[x * ln for x in r] for r in B]
        n.assign_matrix()
        v = unknowns(env, n.size_Y)
        r0, r1 = evaluate(env, n, v, 0, 1)
        compare_residual(env, "factor 0", r0, Sys([ref_multiline(n, el, phases, "a", "b", Y, Bt)], v))
        for p in phases:
            f, t = n.bus_name_map["a_" + p], n.bus_name_map["b_" + p]
            dv = v[f.node_Vr] - v[t.node_Vr], v[f.node_Vi] - v[t.node_Vi]
            i = phases.index(p)
            # no charging, no coupling: only a multiple of the conductor's own admittance
            own = cmul((Y[i][i].real, Y[i][i].imag), dv)
            env.eq("no charging at factor 1", [r1[f.node_Vr] + r1[t.node_Vr], r1[f.node_Vi] + r1[t.node_Vi]], [0, 0])
            env.eq("only its own current at factor 1", r1[f.node_Vr] * own[1], r1[f.node_Vi] * own[0])
    return fn


for nm, kit, nb in (("constant-power", k_pq, 1), ("constant-current", k_const_i, 1), ("generator", k_gen, 1), ("slack", k_slack, 1),
                    ("source", k_vs, 2), ("switch", k_switch, 2)):
    add("unchanged-" + nm, same(kit, nb))
for nm, kit, nb in (("shunt", k_shunt, 1), ("constant-impedance", k_const_z, 1), ("capacitor", k_cap, 1)):
    add("vanish-" + nm, vanish(kit, nb, net=dx_net if nm == "capacitor" else tx_net))
add("branch", stiffen(mk_line, 2))
add("charging", charging)
add("transformer", xfmr)
add("transformer-between", xfmr_between)
add("center-tap", center_tap)
add("multi-conductor-2", multi("AC"), bounds="two conductors, fixed impedance, any length, charging and state")
add("multi-conductor-3", multi("ABC"), bounds="three conductors, fixed impedance, any length, charging and state")


def preload():
    import models.components.load, models.components.slack, models.components.transformer, models.components.regulator  # noqa
    import models.components.center_tap_transformer, models.components.unbalanced_line, models.components.capacitor  # noqa
    import logic.network.networkmodel, logic.stamping.matrixstamper  # noqa
