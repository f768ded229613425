"""Imports the packages of /repo/src with the encoding applied: float literals and
divisions are exact, builtins and numeric modules are the stand-ins of symx.shims.
The source is read from /repo on every run; nothing is cached."""
import ast
import importlib.machinery
import importlib.util
import os
import sys

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
TOP = ("logic", "models", "ditto", "run_solver")


class Exact(ast.NodeTransformer):
    def visit_Constant(self, n):
        if type(n.value) is float and n.value == n.value and n.value not in (float("inf"), float("-inf")):
            txt = self.seg(n)
            return ast.copy_location(ast.Call(ast.Name("__flit__", ast.Load()), [ast.Constant(txt)], []), n)
        return n

    def seg(self, n):
        t = None
        try:
            t = ast.get_source_segment(self.src, n)
        except Exception:
            pass
        if t is not None:
            t = t.replace("_", "").strip()
            try:
                if float(t) == n.value:
                    return t
            except ValueError:
                pass
        return repr(n.value)

    def visit_JoinedStr(self, n):
        # expressions inside f-strings may compute; format specs stay
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        name = {ast.Div: "__div__", ast.Pow: "__ipow__"}.get(type(n.op))
        if name:
            return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        name = {ast.Div: "__idiv__", ast.Pow: "__ipow__"}.get(type(n.op))
        if name:
            import copy
            load = copy.deepcopy(n.target)
            load.ctx = ast.Load()
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name(name, ast.Load()), [load, n.value], [])), n)
        return n

    def visit_MatchValue(self, n):
        return n


def transform(src, path):
    tree = ast.parse(src, path)
    t = Exact()
    t.src = src if isinstance(src, str) else src.decode("utf8", "replace")
    # get_source_segment is slow on long files: split once
    lines = t.src.splitlines(keepends=True)

    def seg(n, lines=lines):
        if n.lineno == n.end_lineno and n.lineno <= len(lines):
            b = lines[n.lineno - 1].encode("utf8")[n.col_offset:n.end_col_offset].decode("utf8", "replace")
            b = b.replace("_", "").strip()
            try:
                if float(b) == n.value:
                    return b
            except ValueError:
                pass
        return repr(n.value)
    t.seg = seg
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class SymLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding="utf-8-sig") as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return compile(transform(src, path), path, "exec", dont_inherit=True)

    def exec_module(self, module):
        from . import shims
        module.__dict__["__builtins__"] = shims.BUILTINS
        exec(self.get_code(module.__name__), module.__dict__)


class Finder:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] not in TOP:
            return None
        sp = importlib.machinery.PathFinder.find_spec(name, path if path is not None else [REPO_SRC])
        if sp is None or not sp.origin or not sp.origin.endswith(".py"):
            return sp
        sp.loader = SymLoader(sp.name, sp.origin)
        return sp


def patch_traitlets():
    import traitlets
    from . import sym, shims
    T = traitlets

    def num(cls, *kinds):
        old = cls.validate

        def validate(self, obj, value, old=old):
            if isinstance(value, kinds):
                return value
            return old(self, obj, value)
        cls.validate = validate
    num(T.Float, sym.SymReal)
    num(T.Complex, sym.SymReal, sym.SymComplex)
    oldint = T.Int.validate

    def vint(self, obj, value):
        if isinstance(value, sym.SymReal) and (value.is_int or (value.is_const() and value.const().denominator == 1 and False)):
            return value
        return oldint(self, obj, value)
    T.Int.validate = vint
    # setting a trait compares old and new value; never fork on that
    T.TraitType.set.__code__  # exists
    oset = T.TraitType.set

    def set_(self, obj, value):
        new_value = self._validate(obj, value)
        try:
            old_value = obj._trait_values[self.name]
        except KeyError:
            old_value = self.default_value
        obj._trait_values[self.name] = new_value
        if sym.is_sym(new_value) or sym.is_sym(old_value) or isinstance(new_value, (list, tuple)):
            changed = new_value is not old_value
        else:
            try:
                changed = bool(old_value != new_value)
            except Exception:
                changed = True
        if changed:
            obj._notify_trait(self.name, old_value, new_value)
    T.TraitType.set = set_


def install():
    sys.path.insert(0, REPO_SRC)
    sys.meta_path.insert(0, Finder())
    try:
        patch_traitlets()
    except ImportError:
        pass


# ---- which functions of the repository were executed ----------------------
SEEN = set()


def trace_functions():
    mon = sys.monitoring
    tid = 4
    mon.use_tool_id(tid, "symx")

    def start(code, off):
        f = code.co_filename
        if f.startswith(REPO_SRC):
            if code.co_flags & 1 and code.co_name not in ("<module>", "<lambda>", "<listcomp>", "<genexpr>", "<dictcomp>"):
                SEEN.add(f[len(REPO_SRC) + 1:] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)
