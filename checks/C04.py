"""C04: three-phase elements draw the currents their physics prescribes."""
from symx.run import Scenario
from checks._nets import *
from checks.C03 import residual

DERIVE = ["models.components.load:lh_pq"]
SCENARIOS = []


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def one(kit, nb, **kw):
    def fn(env):
        n = dx_net()
        b = add_buses(n, nb)
        residual(env, n, [kit(env, n, b, "e", **kw)], "equations")
    return fn


def line_buses(n, phases, a="a", b="b"):
    k = len(n.buses)
    for e in (a, b):
        for p in phases:
            bus = mkbus(k, p, e)
            k += 1
            n.buses.append(bus)
            n.bus_name_map[e + "_" + p] = bus


def inv_sym(z):
    """inverse of a 1x1 / 2x2 complex matrix by the adjugate"""
    if len(z) == 1:
        return [[1 / z[0][0]]]
    (a, b), (c, d) = z
    D = a * d - b * c
    return [[d / D, -b / D], [-c / D, a / D]]


def multiline(phases, sym, shunt=True, scale=1):
    def fn(env):
        import numpy as np
        from models.components.unbalanced_line import UnbalancedLine
        n = dx_net()
        line_buses(n, phases)
        k = len(phases)
        ln = env.pos("len", 0.1, 10)
        if sym:
            Z = [[env.mkc(env.real(f"r{i}{j}", 1, 2) if i == j else env.real(f"r{i}{j}", -0.4, 0.4),
                          env.real(f"x{i}{j}", 1, 2) if i == j else env.real(f"x{i}{j}", -0.4, 0.4)) for j in range(k)] for i in range(k)]
        else:
            Z = [[complex(1 + 0.3 * i, 2 - 0.25 * i) if i == j else complex(0.1 + 0.07 * i - 0.03 * j, 0.3 - 0.05 * i + 0.02 * j)
                  for j in range(k)] for i in range(k)]
        Bm = [[env.real(f"b{i}{j}", -2, 2) for j in range(k)] for i in range(k)] if shunt else None
        sh = None if not shunt else [[env.mkc(0.0, Bm[i][j]) for j in range(k)] for i in range(k)]
        el = UnbalancedLine(n, [list(r) for r in Z], sh, "a", "b", ln, phases)
        n.lines.append(el)
        Y = inv_sym(Z) if sym else np.linalg.inv(np.array(Z)).tolist()
        Y = [[y / ln for y in r] for r in Y]
        Bt = None if not shunt else [[Bm[i][j] * ln for j in range(k)] for i in range(k)]
        residual(env, n, [lambda: ref_multiline(n, el, phases, "a", "b", Y, Bt)], "equations")
    return fn


def two_lines(env):
    """two lines leaving one node in different directions keep to their own conductors"""
    import numpy as np
    from models.components.unbalanced_line import UnbalancedLine
    n = dx_net()
    line_buses(n, "ABC")
    k = len(n.buses)
    for p in "CB":
        bus = mkbus(k, p, "c")
        k += 1
        n.buses.append(bus)
        n.bus_name_map["c_" + p] = bus
    ks = []
    for name, fr, to, ph, base in (("l1", "a", "b", "ABC", 1.0), ("l2", "c", "b", "CB", 1.7)):
        m = len(ph)
        Z = [[complex(base + 0.3 * i, 2 - 0.25 * i) if i == j else complex(0.1 + 0.07 * i - 0.03 * j, 0.3 - 0.05 * i + 0.02 * j)
              for j in range(m)] for i in range(m)]
        ln = env.pos(name + "len", 0.1, 10)
        el = UnbalancedLine(n, [list(r) for r in Z], None, fr, to, ln, ph)
        n.lines.append(el)
        Y = [[y / ln for y in r] for r in np.linalg.inv(np.array(Z)).tolist()]
        ks.append(lambda el=el, ph=ph, fr=fr, to=to, Y=Y: ref_multiline(n, el, ph, fr, to, Y, None))
    residual(env, n, ks, "equations")


def open_switch(env):
    from models.components.switch import SwitchStatus
    n = dx_net()
    b = add_buses(n, 2)
    residual(env, n, [k_switch(env, n, b, "e", status=SwitchStatus.OPEN)], "equations")
    env.eq("unknowns", n.size_Y, 4)


def cap_open(env):
    from models.components.capacitor import CapSwitchState
    n = dx_net()
    b = add_buses(n, 1)
    k_cap(env, n, b, "e")
    n.misc[0].switch = CapSwitchState.OPEN
    k = k_const_i(env, n, b, "i")
    residual(env, n, [k], "equations")


def mix(env):
    n = dx_net()
    b = add_buses(n, 9)
    ks = [k_switch(env, n, [b[0], b[1]], "sw"), k_vs(env, n, [b[1], b[2]], "vs"), k_cap(env, n, [b[2]], "c", to=b[3]),
          k_fuse(env, n, [b[1], b[3], b[4]], "f"), k_reg(env, n, [b[3], b[5], b[6]], "r"),
          k_xfmr(env, n, [b[5], b[7]], "t", neg=(b[2], b[6])), k_const_z(env, n, [b[7]], "z", to=b[2]),
          k_pq(env, n, [b[7]], "p", to=b[8]), k_slack(env, n, [b[0]], "s")]
    residual(env, n, ks, "equations")


def regA(env):
    from models.components.regulator import RegType
    n = dx_net()
    b = add_buses(n, 3)
    residual(env, n, [k_reg(env, n, b, "e", typ=RegType.A)], "equations")


def blown(env):
    n = dx_net()
    b = add_buses(n, 3)
    residual(env, n, [k_fuse(env, n, b, "e", blown=True)], "equations")


B1 = "all parameters in range and all states"
add("line-1", multiline("A", True), bounds="one conductor, any impedance, susceptance, length and state")
add("line-2", multiline("CA", True), bounds="two conductors, any (also unsymmetric) diagonally dominant impedance, any susceptance, length and state")
add("line-2-noshunt", multiline("AB", True, False), bounds="as line-2 without charging")
add("line-3", multiline("ABC", False), bounds="three conductors, fixed unsymmetric impedance; any susceptance, length and state", weight=2)
add("line-3-order", multiline("BCA", False), bounds="as line-3, other conductor order", weight=2)
add("two-lines", two_lines, bounds="a three- and a two-conductor line meeting at one node")
add("center-tap", one(k_ct, 6), bounds=B1)
add("capacitor", one(k_cap, 1), bounds=B1)
add("capacitor-open", cap_open, bounds=B1)
add("fuse", one(k_fuse, 3), bounds=B1)
add("fuse-blown", blown, bounds=B1)
add("switch", one(k_switch, 2), bounds=B1)
add("switch-open", open_switch, bounds=B1)
add("source", one(k_vs, 2), bounds=B1)
add("regulator-B", one(k_reg, 3), bounds=B1 + ", taps -16..16")
add("regulator-A", regA, bounds=B1 + ", taps -16..16")
add("transformer-4-terminal", lambda env: four(env), bounds=B1)
add("mix", mix, bounds="9 nodes, 9 elements, all parameters and states", weight=2)


def four(env):
    n = dx_net()
    b = add_buses(n, 4)
    residual(env, n, [k_xfmr(env, n, b[:2], "e", neg=b[2:])], "equations")


def preload():
    import models.components.load, models.components.slack, models.components.transformer, models.components.regulator  # noqa
    import models.components.center_tap_transformer, models.components.unbalanced_line, models.components.capacitor  # noqa
    import logic.network.networkmodel, logic.stamping.matrixstamper  # noqa
