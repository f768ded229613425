"""A writer of PSS/E RAW cases with symbolic numbers, and what the records mean."""
import os
import shutil
import tempfile
from checks._nets import *


class Case:
    """records of a case; numbers may be symbolic.  Missing ones take the format's defaults."""

    def __init__(self, env, rev=33, sbase=100):
        self.env, self.rev, self.sbase = env, rev, sbase
        self.buses, self.loads, self.fixed, self.machines, self.branches = [], [], [], [], []
        self.two, self.three, self.switched = [], [], []
        self.style = "commented"

    # each record is a dict
    def bus(self, i, ide=1, vm=1.0, va=0.0, baskv=138.0, gl=0, bl=0):
        self.buses.append(dict(i=i, ide=ide, vm=vm, va=va, baskv=baskv, gl=gl, bl=bl))

    def load(self, i, id="1", status=1, pl=0, ql=0, ip=0, iq=0, yp=0, yq=0):
        self.loads.append(dict(i=i, id=id, status=status, pl=pl, ql=ql, ip=ip, iq=iq, yp=yp, yq=yq))

    def shunt(self, i, id="1", status=1, gl=0, bl=0):
        self.fixed.append(dict(i=i, id=id, status=status, gl=gl, bl=bl))

    def machine(self, i, id="1", stat=1, pg=0, qg=0, qt=0, qb=0, vs=1.0, wmod=0, wpf=1.0, pt=9999.0, pb=-9999.0):
        self.machines.append(dict(i=i, id=id, stat=stat, pg=pg, qg=qg, qt=qt, qb=qb, vs=vs, wmod=wmod, wpf=wpf, pt=pt, pb=pb))

    def branch(self, i, j, ckt="1", st=1, r=0.01, x=0.1, b=0, gi=0, bi=0, gj=0, bj=0):
        self.branches.append(dict(i=i, j=j, ckt=ckt, st=st, r=r, x=x, b=b, gi=gi, bi=bi, gj=gj, bj=bj))

    def switched_shunt(self, i, modsw=1, stat=1, vswhi=1.0, vswlo=1.0, binit=0, blocks=()):
        self.switched.append(dict(i=i, modsw=modsw, stat=stat, vswhi=vswhi, vswlo=vswlo, binit=binit, blocks=list(blocks)))

    def xf2(self, i, j, ckt="1", **k):
        d = dict(i=i, j=j, ckt=ckt, cw=1, cz=1, cm=1, mag1=0, mag2=0, stat=1, r=0.01, x=0.1, sbase=100.0, w1=1.0, n1=0, ang=0, rata=0, ratb=0,
                 ratc=0, cod=0, rma=1.1, rmi=0.9, w2=1.0, n2=0)
        assert set(k) <= set(d), set(k) - set(d)
        d.update(k)
        self.two.append(d)

    def xf3(self, i, j, k3, ckt="1", **k):
        d = dict(i=i, j=j, k=k3, ckt=ckt, cw=1, cz=1, cm=1, mag1=0, mag2=0, stat=1, vmstar=1.0, anstar=0)
        for s in ("12", "23", "31"):
            d.update({"r" + s: 0.01, "x" + s: 0.1, "sbase" + s: 100.0})
        for s in "123":
            d.update({"w" + s: 1.0, "n" + s: 0, "ang" + s: 0, "cod" + s: 0, "rma" + s: 1.1, "rmi" + s: 0.9})
        assert set(k) <= set(d), set(k) - set(d)
        d.update(k)
        self.three.append(d)

    # ---- text ----------------------------------------------------------------
    def text(self):
        n = self.env.lit
        R = []

        def row(*xs):
            R.append(",".join("" if x is None or x in ("None", "'None'") else x if isinstance(x, str) else n(x) for x in xs))

        def end(name):
            R.append({"plain": "0", "indented": f" 0 / END OF {name}, BEGIN MORE"}.get(self.style, "0 / END OF " + name))
            if self.style == "keys" and name != "SUBSTATION DATA":
                R.append("@!   I,'ID',STAT, MORE")
                if name == "BRANCH DATA":
                    R.append("@!   I,     J,     K,'CKT',CW,CZ,CM")
        rev = self.rev
        if self.style == "keys":
            R.append("@!IC, SBASE,REV,XFRRAT,NXFRAT,BASFRQ")
        if rev == 30:
            row("0", self.sbase)
        else:
            row("0", self.sbase, str(rev), "0", "0", "60.0")
        R.extend(["a case", "of records"])
        if rev == 34:
            row("GENERAL", " THRSHZ=0.0002")
            end("SYSTEM-WIDE DATA")
        for b in self.buses:
            if rev == 30:
                row(str(b["i"]), f"'B{b['i']}'", b["baskv"], str(b["ide"]), b["gl"], b["bl"], "1", "1", b["vm"], b["va"], "1")
            else:
                row(str(b["i"]), f"'B{b['i']}'", b["baskv"], str(b["ide"]), "1", "1", "1", b["vm"], b["va"],
                    *(["1.1", "0.9", "1.1", "0.9"] if rev > 32 else []))
        end("BUS DATA")
        for l in self.loads:
            row(str(l["i"]), f"'{l['id']}'", str(l["status"]), "1", "1", l["pl"], l["ql"], l["ip"], l["iq"], l["yp"], l["yq"], "1",
                *(["1"] if rev != 30 else []), *(["0"] if rev > 32 else []), *(["0.0", "0.0", "1"] if rev == 34 else []))
        end("LOAD DATA")
        if rev != 30:
            for s in self.fixed:
                row(str(s["i"]), f"'{s['id']}'", str(s["status"]), s["gl"], s["bl"])
            end("FIXED SHUNT DATA")
        else:
            assert not self.fixed
        for g in self.machines:
            row(str(g["i"]), f"'{g['id']}'", g["pg"], g["qg"], g["qt"], g["qb"], g["vs"], "0", "100.0", "0.0", "1.0", "0.0", "0.0", "1.0",
                str(g["stat"]), "100.0", g["pt"], g["pb"], "1", "1.0", "0", "1.0", "0", "1.0", "0", "1.0",
                *([str(g["wmod"]), g["wpf"]] if rev != 30 else []))
        end("GENERATOR DATA")
        for b in self.branches:
            head = [str(b["i"]), str(b["j"]), f"'{b['ckt']}'", b["r"], b["x"], b["b"]]
            tail = [b["gi"], b["bi"], b["gj"], b["bj"], str(b["st"])]
            if rev == 34:
                row(*head, "'a line'", *["250.0"] * 3, *["0.0"] * 9, *tail, "1", "0.0", "1", "1.0")
            else:
                row(*head, *["250.0", "240.0", "230.0"], *tail, *(["1", "0.0"] if rev > 30 else ["0"]), "1", "1.0")
        end("BRANCH DATA")
        if rev == 34:
            end("SYSTEM SWITCHING DEVICE DATA")
        rates = ["0.0"] * 9 if rev == 34 else []
        if rev == 34:
            rates = ["1.0", "2.0"] + ["3.0"] * 7

        def winding(w, nom, ang, ra, rb, rc, cod, rma, rmi):
            row(w, nom, ang, ra, rb, rc, *rates, str(cod), "0", rma, rmi, "1.1", "0.9", "33", "0", "0.0", "0.0", *(["0.0"] if rev > 32 else []))

        def first(t, k):
            row(str(t["i"]), str(t["j"]), str(k), f"'{t['ckt']}'", str(t["cw"]), str(t["cz"]), str(t["cm"]), t["mag1"], t["mag2"], "2",
                "'a transformer'", str(t["stat"]), "1", "1.0", "0", "1.0", "0", "1.0", "0", "1.0", *(["'YNyn0'"] if rev > 32 else []))
        for t in self.two:
            first(t, 0)
            row(t["r"], t["x"], t["sbase"])
            winding(t["w1"], t["n1"], t["ang"], t["rata"], t["ratb"], t["ratc"], t["cod"], t["rma"], t["rmi"])
            row(t["w2"], t["n2"])
        for t in self.three:
            first(t, t["k"])
            row(*[t[a + s] for s in ("12", "23", "31") for a in ("r", "x", "sbase")], t["vmstar"], t["anstar"])
            for s in "123":
                winding(t["w" + s], t["n" + s], t["ang" + s], "0.0", "0.0", "0.0", t["cod" + s], t["rma" + s], t["rmi" + s])
        end("TRANSFORMER DATA")
        row("1", "0", "0.0", "1.0", "'AREA'")
        end("AREA DATA")
        end("TWO-TERMINAL DC DATA")
        end("VSC DC LINE DATA")

        def sw():
            for s in self.switched:
                bl = [x for nb in s["blocks"] for x in (str(nb[0]), nb[1])]
                if rev == 30:
                    row(str(s["i"]), str(s["modsw"]), s["vswhi"], s["vswlo"], "0", "100.0", "''", s["binit"], *bl)
                else:
                    row(str(s["i"]), str(s["modsw"]), "0", str(s["stat"]), s["vswhi"], s["vswlo"], "0", "100.0", "''", s["binit"], *bl)
            end("SWITCHED SHUNT DATA")
        if rev == 30:
            sw()
        end("IMPEDANCE CORRECTION DATA")
        end("MULTI-TERMINAL DC DATA")
        end("MULTI-SECTION LINE DATA")
        row("1", "'ZONE'")
        end("ZONE DATA")
        end("INTER-AREA TRANSFER DATA")
        row("1", "'OWNER'")
        end("OWNER DATA")
        end("FACTS DEVICE DATA")
        if rev != 30:
            sw()
        if rev > 32:
            end("GNE DATA")
        if rev == 34:
            end("INDUCTION MACHINE DATA")
            end("SUBSTATION DATA")
        R.append("Q")
        return "\n".join(R) + "\n"

    def read(self):
        from logic.network.networkloader import NetworkLoader
        from logic.powerflowsettings import PowerFlowSettings
        d = tempfile.mkdtemp()
        try:
            p = os.path.join(d, "case.RAW")
            with open(p, "w") as f:
                f.write(self.text())
            return NetworkLoader(PowerFlowSettings()).from_file(p)
        finally:
            shutil.rmtree(d, ignore_errors=True)
            self.fill()

    def fill(self):
        """blank fields have the format's defaults"""
        for recs, default in ((self.buses, dict(ide=1, vm=1.0, va=0.0, baskv=0.0)), (self.loads, dict(id="1", status=1)),
                              (self.fixed, dict(id="1", status=1)), (self.branches, dict(ckt="1")), (self.switched, dict(modsw=1, stat=1, vswhi=1.0, vswlo=1.0)),
                              (self.machines, dict(id="1", stat=1, qt=9999.0, qb=-9999.0, vs=1.0, wmod=0, wpf=1.0))):
            for r in recs:
                for k, v in r.items():
                    if v is None:
                        r[k] = default.get(k, 0.0)

    # ---- meaning -------------------------------------------------------------
    def online(self):
        return {b["i"]: b for b in self.buses if b["ide"] != 4}

    def machine_kind(self, g):
        """(pg, qg, qt, qb, fixed?) after the control mode of the machine"""
        env = self.env
        pg, qg, qt, qb = g["pg"], g["qg"], g["qt"], g["qb"]
        if g["wmod"] == 2:
            q = sqrt_of(env, pg, g["wpf"])
            return pg, qg, q, -q, False
        if g["wmod"] == 3:
            q = sqrt_of(env, pg, g["wpf"])
            s = q if env.branch(g["wpf"] > 0) else -q
            s = s if env.branch(pg > 0) else (-s if env.branch(pg < 0) else 0)
            return pg, s, s, s, True
        if env.branch(env.all(qt - qb < 1e-6, qb - qt < 1e-6)):
            return pg, qt, qt, qb, True
        return pg, qg, qt, qb, False


def sqrt_of(env, p, f):
    """reactive power of power p at power factor f"""
    import math
    d = (p / f) * (p / f) - p * p
    import symx.sym as S
    return S.s_sqrt(d) if S.is_sym(d) else math.sqrt(d)


def add(d, k, *xs):
    d[k] = [a + b for a, b in zip(d[k], xs)] if k in d else list(xs)


def meaning(c):
    """what the records say, per bus, in the solver's units (per unit of 100 MVA, loads positive)"""
    env, on = c.env, c.online()
    m = dict(loads={}, shunts={}, gens={}, slack={}, lines={})
    M = 100
    for l in c.loads:
        if l["status"] == 1 and l["i"] in on:
            add(m["loads"], l["i"], l["pl"] / M, l["ql"] / M, l["ip"] / M, -l["iq"] / M, l["yp"] / M, l["yq"] / M)
    for s in c.fixed:
        if s["status"] == 1 and s["i"] in on:
            add(m["shunts"], s["i"], s["gl"] / M, s["bl"] / M)
    if c.rev == 30:
        for b in on.values():
            add(m["shunts"], b["i"], b["gl"] / M, b["bl"] / M)
    for b in c.branches:
        if b["st"] == 1 and b["i"] in on and b["j"] in on:
            z = M / c.sbase
            r, x = b["r"] * z, b["x"] * z
            d = r * r + x * x
            add(m["lines"], (b["i"], b["j"]), r / d, -x / d, b["b"] / z / 2, 1)
            add(m["shunts"], b["i"], b["gi"] / z, b["bi"] / z)
            add(m["shunts"], b["j"], b["gj"] / z, b["bj"] / z)
    for g in sorted(c.machines, key=lambda g: (g["i"], g["id"])):
        i = g["i"]
        if g["stat"] != 1 or i not in on:
            continue
        if on[i]["ide"] == 3:
            if i in m["slack"]:
                m["slack"][i][2] += g["pg"] / M
            else:
                m["slack"][i] = [g["vs"], on[i]["va"], g["pg"] / M]
            continue
        if on[i]["ide"] != 2:
            continue
        pg, qg, qt, qb, fixed = c.machine_kind(g)
        if fixed:
            add(m["loads"], i, -pg / M, -qt / M, 0, 0, 0, 0)
        elif env.branch(env.all(pg == 0, qt == 0, qb == 0)):
            continue
        elif i in m["gens"]:
            old = m["gens"][i]
            m["gens"][i] = [old[0]] + [a - b / M for a, b in zip(old[1:], (pg, qg, qt, qb))]
        else:
            m["gens"][i] = [g["vs"], -pg / M, -qg / M, -qt / M, -qb / M]
    for s in c.switched:
        i = s["i"]
        if (s["stat"] != 1 and c.rev != 30) or i not in on:
            continue
        if s["modsw"] == 2:
            lo = hi = 0
            for k, b in s["blocks"]:
                if k == 0 or env.branch(b == 0):
                    break
                if env.branch(b > 0):
                    hi = hi + k * b
                else:
                    lo = lo + k * b
            v2 = s["vswhi"] * s["vswhi"] / M
            binit = s["binit"]
            if i not in m["gens"] and env.branch((hi - lo) * v2 < 1e-8):
                binit = hi
            if i in m["gens"]:
                o = m["gens"][i]
                m["gens"][i] = [o[0], o[1], o[2] - binit * v2, o[3] - hi * v2, o[4] - lo * v2]
            else:
                m["gens"][i] = [(s["vswhi"] + s["vswlo"]) / 2, 0, -binit * v2, -hi * v2, -lo * v2]
        else:
            add(m["shunts"], i, 0, s["binit"] / M)
    return m


def compare(env, net, c, stars=0, what=("buses", "loads", "shunts", "gens", "slack", "lines")):
    m = meaning(c)
    on = c.online()
    known = {b.Bus: b for b in net.buses}
    if "buses" in what:
        env.check("in-service buses, each once", len(net.buses) == len(known) == len(on) + stars and set(on) <= set(known))
        for i, b in on.items():
            a = b["va"] * env.pi / 180
            env.eq("declared voltage", [known[i].Vr_init, known[i].Vi_init], [b["vm"] * env.cos(a), b["vm"] * env.sin(a)])
    got = dict(loads={}, shunts={}, gens={}, slack={}, lines={})
    for l in net.loads:
        env.check("load at a bus of the network", known.get(l.from_bus.Bus) is l.from_bus)
        add(got["loads"], l.from_bus.Bus, l.P, l.Q, l.IP, l.IQ, l.G, l.B)
    for s in net.shunts:
        env.check("shunt at a bus of the network", known.get(s.bus.Bus) is s.bus)
        add(got["shunts"], s.bus.Bus, s.G, s.B)
    for l in net.lines:
        env.check("branch between buses of the network", known.get(l.from_bus.Bus) is l.from_bus and known.get(l.to_bus.Bus) is l.to_bus)
        add(got["lines"], (l.from_bus.Bus, l.to_bus.Bus), l.G, l.B, l.B_line, 1)
    for g in net.generators:
        env.check("one machine per bus", g.bus.Bus not in got["gens"] and known.get(g.bus.Bus) is g.bus)
        got["gens"][g.bus.Bus] = [g.Vset, g.P, g.Qinit, g.Qmax, g.Qmin]
    for s in net.slack:
        env.check("one source per bus", s.bus.Bus not in got["slack"] and known.get(s.bus.Bus) is s.bus)
        got["slack"][s.bus.Bus] = [s.Vr_set, s.Vi_set, s.Pinit]
    for i, (v, a, p) in m["slack"].items():
        a = a * env.pi / 180
        m["slack"][i] = [v * env.cos(a), v * env.sin(a), p]
    sizes = dict(loads=6, shunts=2, gens=5, slack=3, lines=4)
    for k in what:
        if k == "buses":
            continue
        if k in ("gens", "slack"):
            env.check(k + " at the declared buses", set(got[k]) == set(m[k]))
        for i in sorted(set(got[k]) | set(m[k])):
            env.eq(f"{k} at {i}", got[k].get(i, [0] * sizes[k]), m[k].get(i, [0] * sizes[k]))
