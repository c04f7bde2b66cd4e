"""check <ID> | replay <file> | runs of several seeds for the determinism proof."""
import ctypes
import json
import os
import sys
import traceback


def _fix_environment():
    """Same process image for every run: no address randomisation, fixed hash seed, one BLAS thread."""
    env = os.environ
    want = {"PYTHONHASHSEED": env.get("VERIF_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
            "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONNOUSERSITE": "1",
            "LC_ALL": "C.UTF-8", "TZ": "UTC", "MALLOC_ARENA_MAX": "1"}
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    want["MPLCONFIGDIR"] = os.path.join(here, ".cache", "mpl")
    if env.get("VERIF_STAGE") != "1":
        env.update(want)
        env.pop("PYTHONPATH", None)
        env["VERIF_STAGE"] = "1"
        try:
            ctypes.CDLL(None).personality(0x0040000)
        except Exception:
            pass
        os.execv(sys.executable, [sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:])
    os.makedirs(want["MPLCONFIGDIR"], exist_ok=True)


def scenario(prop):
    letter = prop[0]
    if letter == "S":
        from sim import skills as m
    elif letter in "EM":
        from sim import clis as m
    elif letter in "CR":
        from sim import calls as m
    elif letter == "I":
        from sim import imports as m
    elif letter == "F":
        from sim import figs as m
    elif letter == "D":
        from sim import dash as m
    else:
        raise ValueError("unknown property " + prop)
    return m.ALL[prop]()


def main():
    _fix_environment()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    from sim import core
    sys.path.insert(0, core.SRC)
    cmd, arg = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if cmd == "check":
        return core.main_check(scenario(arg), tier, seed)
    if cmd == "replay":
        doc = json.load(open(arg))
        return core.main_replay(scenario(doc["property"]), doc)
    raise ValueError("usage: main.py check <ID> | replay <file>")


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2  # an error of the check itself is never an outcome
    sys.exit(code)
