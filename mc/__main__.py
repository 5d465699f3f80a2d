"""python -m mc <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
from . import common as C
import argparse, importlib, json, os, sys, time


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    from .registry import CHECKS
    modname, func = CHECKS[a.property]
    mod = importlib.import_module("mc.checks." + modname)
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        for v in d["violations"]:
            print(json.dumps(v, indent=1)[:6000])
            rp = getattr(mod, "replay", None)
            if rp:
                print("REPLAY:", rp(a.property, v["case"]))
        return 0
    out = getattr(mod, func)(a.tier)
    return C.finish(a.property, a.tier, out["level"], out["total"], t0, out["rule"],
                    out.get("exhaustive", True), out.get("assumptions", ()))


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 3
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    C._cleanup()
    os._exit(rc)
