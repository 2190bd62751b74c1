"""`python FILE args` for the repository's shell scripts, with the stand-ins installed."""
import os, runpy, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import lib, stubs
stubs.install()
sys.path.remove(here)
del sys.argv[0]
while sys.argv and sys.argv[0] in ("-u", "-B"):
    del sys.argv[0]
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[0])))
lib.REPO in sys.path or sys.path.append(lib.REPO)
try:
    runpy.run_path(sys.argv[0], run_name="__main__")
except lib.Unmodelled as e:
    print("UNMODELLED", e, file=sys.stderr)
    sys.exit(97)
except Exception as e:
    why = lib.lacking(e)
    if why is None:
        raise
    print("UNMODELLED", why, file=sys.stderr)
    sys.exit(97)
