"""A writer of GridLAB-D feeders with symbolic numbers."""
import os
import shutil
import tempfile
from checks._nets import *


class Feeder:
    """objects of a feeder: (kind, name, {property: value}).

    A value is text, a number, a complex number (("c", z)) or a number with a unit ((x, "kV"))."""

    def __init__(self, env, style="plain"):
        self.env, self.style, self.objs = env, style, []

    def obj(self, kind, name, **props):
        self.objs.append((kind, name, {k.replace("__", "."): v for k, v in props.items() if v is not None}))
        return name

    def source(self, name="src", v=7200.0, phases="ABCN"):
        return self.obj("node", name, phases=phases, bustype="SWING", nominal_voltage=v)

    def node(self, name, v=7200.0, phases="ABCN", **k):
        return self.obj("node", name, phases=phases, nominal_voltage=v, **k)

    # ---- text ----------------------------------------------------------------
    def value(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, tuple) and v[0] == "c":
            re, im = self.env.lit(v[1].real), self.env.lit(v[1].imag)
            return re + ("" if im[:1] == "-" else "+") + im + "j"
        if isinstance(v, tuple) and v[0] == "i":
            return self.env.ilit(v[1])
        if isinstance(v, tuple):
            return self.env.lit(v[0]) + (v[2] if len(v) > 2 else " ") + v[1]
        return self.env.lit(v)

    def text(self):
        R = []
        for n, (kind, name, props) in enumerate(self.objs):
            items = [(k, self.value(v)) for k, v in props.items()]
            if self.style == "plain":
                R += [f"object {kind} {{", f"     name {name};"] + [f"     {k} {v};" for k, v in items] + ["}", ""]
            elif self.style == "busy":
                # quotes, comments, name last, a closing semicolon, things that do not belong to the network
                R += [f"// object {kind} {{", f"object {kind} {{"]
                for k, v in items:
                    q = f'"{v}"' if k in ("phases", "parent", "from", "to", "configuration", "name") else v
                    R += [f"\t{k} {q}; // {k} 12.5;", "", f"//\t{k} 99.5;"]
                R += [f'\tname "{name}";', "};" if n % 2 else "}"]
                if n == 0:
                    R = ["clock {", " timezone EST+5EDT;", "}", "module powerflow {", " solver_method NR;", "}", "#set profiler=1", ""] + R
                    R += ["object recorder {", " parent x;", " property voltage_A;", "}"]
        return "\n".join(R) + "\n"

    def read(self, **settings):
        from logic.network.networkloader import NetworkLoader
        from logic.powerflowsettings import PowerFlowSettings
        d = tempfile.mkdtemp()
        try:
            p = os.path.join(d, "node.glm")
            with open(p, "w") as f:
                f.write(self.text())
            with self.env.texts():
                return NetworkLoader(PowerFlowSettings(**settings)).from_file(p)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def bus(env, net, node, phase):
    b = net.bus_name_map[f"{node}_{phase}"]
    env.check("terminal is a bus of the network", sum(x is b for x in net.buses) == 1)
    return b


def add(d, k, *xs):
    d[k] = [a + b for a, b in zip(d[k], xs)] if k in d else list(xs)
