import os, sys, traceback, importlib
from . import core

MODULES = {"W": "w_checks", "C": "c_checks", "F": "f_checks", "L": "l_checks", "K": "k_checks", "M": "m_checks",
           "G": "g_checks", "D": "d_checks"}


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.chdir(core.VERIF)
    ck = core.Check(prop, tier, seed)
    try:
        mod = importlib.import_module("vf." + MODULES[prop[0]])
        getattr(mod, prop)(ck)
    except core.Broken as x:
        print("BROKEN:", x, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return ck.finish()


sys.exit(main())
