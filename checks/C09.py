"""C09: device control returns only states in which no device wants to move."""
from symx.run import Scenario
from checks._nets import *

SCENARIOS = []


def rounds_allowed():
    import logic.devicecontroller as D
    return getattr(D, "MAX_DEVICE_ITERATIONS", 10)


def add(name, fn, **kw):
    kw.setdefault("div", "assume")
    SCENARIOS.append(Scenario(name, fn, **kw))


def devices(env, log, kinds, quiet_after=None):
    """real device classes whose wish to move is free"""
    from models.components.capacitor import Capacitor, CapacitorMode
    from models.components.fuse import Fuse, FuseStatus
    from models.components.regulator import Regulator, RegType, RegControl

    def wish(self, v):
        k = len([1 for d, _, _ in log if d is self])
        w = False if quiet_after is not None and k >= quiet_after else env.boolean(f"{self.tag}{k}")
        w = bool(w)
        log.append((self, v, w))
        return w
    b = [mkbus(i) for i in range(3)]
    out = []
    for i, kind in enumerate(kinds):
        base = dict(c=Capacitor, f=Fuse, r=Regulator)[kind]
        cls = type(base.__name__, (base,), {"try_adjust_device": wish})
        d = {"c": lambda: cls(b[0], b[1], 1, 1, CapacitorMode.VOLT, 2, 1),
             "f": lambda: cls(b[0], b[1], b[2], 1, FuseStatus.GOOD, "A"),
             "r": lambda: cls(b[0], b[1], b[2], 0, 0.01, RegType.B, RegControl.MANUAL, 1, 2, 3, 3)}[kind]()
        d.tag = kind + str(i) + "_"
        out.append(d)
    return out


class Homotopy:
    def __init__(self, env, net, n, fails):
        self.env, self.n, self.fails, self.calls = env, n, fails, []
        self.nrsolver = type("S", (), {"network": net})()

    def run_powerflow(self, v_init):
        k = len(self.calls)
        ok = True if self.fails is None else not bool(self.env.boolean(f"fail{k}"))
        out = vector([self.env.real(f"s{k}_{i}", -2, 2) for i in range(self.n)])
        r = (ok, out, k, 0, f"residuals {k}")
        self.calls.append((v_init, r, self.stamp() if hasattr(self, "stamp") else None))
        return r


def control(kinds, fails=None, quiet_after=None, on=True, dx=True):
    def fn(env):
        from logic.devicecontroller import DeviceController
        from logic.powerflowsettings import PowerFlowSettings
        n = dx_net() if dx else tx_net()
        add_buses(n, 1)
        log = []
        ds = devices(env, log, kinds, quiet_after)
        where = {"c": "capacitors", "f": "fuses", "r": "regulators"}
        for d, k in zip(ds, kinds):
            (getattr(n, where[k]) if dx else n.misc).append(d)
        h = Homotopy(env, n, 2, fails)
        events = []
        h.stamp = lambda: len(log)
        # solving only needs indexes of the bus
        for d in ds:
            d.assign_nodes = lambda node_index, opt: None
        raised = None
        try:
            res = DeviceController(PowerFlowSettings(device_control=on), h).run_powerflow()
        except Exception as e:     # noqa
            raised, res = e, None
        calls = h.calls
        marks = [c[2] for c in calls]
        if not on or not dx:
            env.eq("nothing asked", len(log), 0)
            env.check("no exception", raised is None)
            env.eq("one solve", len(calls), 1)
            env.check("its result", res is not None and res[4] == "residuals 0")
            env.eq("state", list(res[1]), list(calls[0][1][1]))
            return
        # rounds of questions: before the first solve and after every successful one
        rounds = [log[a:b] for a, b in zip([0] + marks, marks + [len(log)])]
        ok = [c[1][0] for c in calls]
        env.check("solves at least once", len(calls) >= 1)
        env.check("a failed solve is the last", all(ok[:-1]))
        for k, rd in enumerate(rounds):
            if k == 0:
                env.check("initial estimate", all(v is calls[0][0] for _, v, _ in rd))
                env.check("every device once before the first solve", sorted(d.tag for d, _, _ in rd) == sorted(d.tag for d in ds))
            elif ok[k - 1]:
                env.check("every device once per round", sorted(d.tag for d, _, _ in rd) == sorted(d.tag for d in ds))
                for _, v, _ in rd:
                    env.eq("asked at the solved state", list(v), list(calls[k - 1][1][1]))
            else:
                env.eq("nothing asked after a failure", len(rd), 0)
        moved = [any(w for _, _, w in rd) for rd in rounds]
        env.check("goes on only after an adjustment", all(moved[1:len(calls)]))
        if raised is not None:
            env.check("gives up only while devices still move", all(ok) and moved[-1])
            env.check("after the allowed rounds", len(calls) == rounds_allowed())
        else:
            env.check("result of the last solve", res[0] == ok[-1] and res[4] == calls[-1][1][4] and res[2] == calls[-1][1][2])
            env.eq("state of the last solve", list(res[1]), list(calls[-1][1][1]))
            env.check("success only when nothing moved after it", not ok[-1] or not moved[-1])
            env.check("never beyond the allowed rounds", len(calls) <= rounds_allowed())
    return fn


def effect(env):
    """a device's adjustment is part of the next solve"""
    import logic.homotopycontroller as HC
    from logic.devicecontroller import DeviceController
    from logic.homotopycontroller import HomotopyController
    from logic.powerflowsettings import PowerFlowSettings
    from models.components.capacitor import Capacitor, CapacitorMode, CapSwitchState
    from models.components.bus import GROUND
    env.lazy_max()
    n = dx_net()
    b = add_buses(n, 1)
    q = env.pos("q", 1, 5)

    class Cap(Capacitor):
        asked = 0

        def try_adjust_device(self, v):
            self.asked += 1
            want = CapSwitchState.OPEN if bool(env.boolean(f"open{self.asked}")) else CapSwitchState.CLOSED
            if self.asked >= 4 or want == self.switch:
                return False
            self.switch = want
            return True
    cap = Cap(b[0], GROUND, q, 1, CapacitorMode.MANUAL, 2, 1)
    n.capacitors.append(cap)
    k = k_const_z(env, n, b, "z")
    seen = []

    class NR:
        network = n

        def run_powerflow(self, st, v, t):
            k_ = len(seen)
            out = [env.real(f"s{k_}_{i}", -2, 2) for i in range(n.size_Y)]
            seen.append((cap.switch, out, list(st.calc_residuals(0, vector(out), 0).residuals)))
            return True, vector(out), 1
    DeviceController(PowerFlowSettings(), HomotopyController(PowerFlowSettings(), n, NR())).run_powerflow()
    for state, out, res in seen:
        refs = [k()] + ([admittance(b[0], GROUND, (0, q))] if state == CapSwitchState.CLOSED else [])
        compare_residual(env, "equations of the devices as they stand", res, Sys(refs, out))


add("one-capacitor", control("c", True), bounds="one device, all 10 rounds, every response and solver outcome")
add("one-fuse", control("f", True), bounds="one device, all 10 rounds, every response and solver outcome")
add("one-regulator", control("r", True), bounds="one device, all 10 rounds, every response and solver outcome")
add("two-devices", control("cr", True, quiet_after=3), bounds="two devices moving in the first 3 rounds at most, every solver outcome")
add("three-devices", control("cfr", None, quiet_after=2), bounds="three devices of different kinds, 2 rounds")
add("three-devices-deep", control("cfr", None, quiet_after=3), tiers=("thorough",), bounds="three devices of different kinds, 3 rounds")
add("two-devices-deep", control("fr", True, quiet_after=5), tiers=("thorough",), bounds="two devices moving in the first 5 rounds at most, every solver outcome")
add("off", control("cfr", None, on=False), bounds="control off")
add("transmission", control("cfr", None, dx=False), bounds="positive-sequence network")
add("effect", effect, bounds="a capacitor switching in any of three rounds, all states")


def preload():
    import logic.devicecontroller, models.components.regulator  # noqa
