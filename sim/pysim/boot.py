"""Entry point of a simulated generator process:  boot.py script|module ARG..."""
import ctypes
import os
import runpy
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simpool  # noqa: E402

if os.environ.get("SIM_WORLD"):
    import envhook
else:
    envhook = None
sys.path.pop(0)
simpool.install()
if envhook:
    envhook.install()

if os.environ.get("SIM_SEQUENTIAL"):
    import nrpy.params as par

    _orig = par.set_parval_from_str

    def _set(name, value):
        if name == "parallel_codegen_enable":
            value = False
        return _orig(name, value)

    par.set_parval_from_str = _set

kind, target = sys.argv[1], sys.argv[2]
sys.argv = [target] + sys.argv[3:]
if kind == "module":
    runpy.run_module(target, run_name="__main__", alter_sys=True)
else:
    runpy.run_path(target, run_name="__main__")
