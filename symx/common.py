import importlib.util
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
sys.dont_write_bytecode = True


def setup_path(instrument):
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.path.insert(0, VERIF)
    for p in ("dask-gateway-server", "dask-gateway"):
        sys.path.insert(0, os.path.join(REPO, p))
    if instrument:
        # z3 only, not the rest of that environment
        import types
        base = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        spec = importlib.util.spec_from_file_location("z3", base + "/z3/__init__.py", submodule_search_locations=[base + "/z3"])
        mod = importlib.util.module_from_spec(spec)
        sys.modules["z3"] = mod
        spec.loader.exec_module(mod)
        from symx import instrument as ins
        ins.install(True)
        try:
            from symx import libmodels
            libmodels.install()
            libmodels.install_copies()
        except ImportError:
            pass


def load_check(pid):
    path = os.path.join(VERIF, "checks", pid.lower() + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid.lower(), path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = mod
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    spec.loader.exec_module(mod)
    return mod
