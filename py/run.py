#!/opt/veriftools/pyvenv/bin/python
"""run.py <id> <tier> <seed> | run.py replay FILE"""
import importlib, json, os, sys
sys.dont_write_bytecode = True
VT = "/opt/veriftools/pyvenv/bin/python"
try:
    import numpy, yaml, dateutil  # noqa
except ImportError:
    if os.path.exists(VT) and sys.executable != VT and os.environ.get("VERIF_PY") != "1":
        os.environ["VERIF_PY"] = "1"
        os.execv(VT, [VT, "-B", os.path.abspath(__file__), *sys.argv[1:]])
    raise
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, stubs


def main():
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        pid, tier, seed, only = d["property"], d["tier"], d["seed"], (d["part"], d["index"])
    else:
        pid, tier, seed, only = sys.argv[1], sys.argv[2], sys.argv[3], None
    m = importlib.import_module("p" + pid[1:])
    stubs.install()
    c = lib.Check(pid, tier, seed, only)
    m.run(c)
    return c.finish()


sys.exit(main())
