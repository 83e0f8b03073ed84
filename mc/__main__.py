import importlib
import os
import sys
import time
import traceback


def main():
    pid = sys.argv[1]
    if pid == "replay":
        return replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    t0 = time.time()
    try:
        from . import core
    except Exception:
        traceback.print_exc()
        return 2
    core.KNOWN[:] = core.load_known(pid)
    mod = importlib.import_module(f"mc.{pid.lower()}")
    try:
        res = mod.check(tier)
    except core.Harness as e:
        print(e)
        return 2
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        msg = "".join(traceback.format_exception(e))[-3000:]
        if not any("/omegaconf/" in f.filename for f in tb):
            print(msg)
            return 2
        res = core.Result()
        res.violation("driver-exception", msg, {})
    cov = getattr(mod, "COVERAGE", {})
    cov = cov(tier, res) if callable(cov) else cov
    return core.finish(pid, tier, mod.LEVEL, res, t0, cov, getattr(mod, "ASSUMPTIONS", []))


def replay(path):
    """Re-run the recorded case on its own, without the explorer."""
    import json

    with open(path) as f:
        d = json.load(f)
    from . import core

    mod = importlib.import_module(f"mc.{d['property'].lower()}")
    print(d["msg"])
    case = d["case"]
    prog = case.get("program") if isinstance(case, dict) else None
    if prog:
        print("---- plain program:\n" + prog)
    if hasattr(mod, "replay"):
        res = core.Result()
        mod.replay(case, res)
        print("---- replayed:", "violation reproduced" if res.viol else "not reproduced")
        for v in res.viol[:3]:
            print(v["msg"])
        return 1 if res.viol else 0
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace")
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
