"""python -m harness.run <property> : runs one property's check."""
import importlib, os, sys, traceback, warnings
warnings.filterwarnings("ignore")
import logging
logging.disable(logging.WARNING)
os.environ.setdefault("TQDM_DISABLE", "1")
MODULES = {}
def main():
    prop = sys.argv[1]
    from harness import fakeray
    fakeray.install()
    from harness.registry import REGISTRY
    from harness import common
    try:
        mod = importlib.import_module("harness." + REGISTRY[prop][0])
        rc = getattr(mod, REGISTRY[prop][1])()
    except common.MachineryError as e:
        print("MACHINERY ERROR:", e); rc = 3
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 3
    sys.stdout.flush(); sys.exit(rc)
main()
