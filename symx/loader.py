"""Imports /repo's raytracing package from source, with instrumented builtins."""
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get("SYMX_REPO", "/repo")


class _Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg):
        self.path = path
        self.ispkg = ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code = compile(src, self.path, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = _builtins
        module.__file__ = self.path
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "raytracing" and not name.startswith("raytracing."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.isfile(base + ".py"):
            p, pkg = base + ".py", False
        else:
            return None
        spec = importlib.machinery.ModuleSpec(name, _Loader(p, pkg), is_package=pkg, origin=p)
        if pkg:
            spec.submodule_search_locations = [base]
        return spec


_builtins = None
_functions = set()


def _monitor():
    """records which functions of /repo run (evidence: functions encoded)"""
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    mon.use_tool_id(tool, "symx")
    root = os.path.join(REPO, "raytracing") + os.sep

    def start(code, off):
        if code.co_filename.startswith(root):
            if not code.co_name.startswith("<module"):
                _functions.add(f"{os.path.basename(code.co_filename)[:-3]}.{code.co_qualname}")
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def functions():
    return sorted(_functions)


def load(symbolic=True):
    """the instrumented (symbolic=True) or plain raytracing package"""
    global _builtins
    import warnings
    if symbolic:
        from . import shims
        vp = "/opt/venv/lib/python3.12/site-packages"
        if vp not in sys.path:
            sys.path.append(vp)
        shims.install_numpy()
        _builtins = shims.make_builtins({"math": shims.math_shim, "cmath": shims.cmath_shim,
                                         "time": shims.time_shim, "multiprocessing": shims._mp_shim(), "json": shims._json_shim()})
        sys.meta_path.insert(0, _Finder())
    else:
        sys.path.insert(0, REPO)
    import raytracing
    warnings.simplefilter("ignore")
    if symbolic:
        _monitor()
    assert os.path.realpath(raytracing.__file__).startswith(os.path.realpath(REPO))
    return raytracing
