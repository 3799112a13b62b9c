"""
Replays models on the un-instrumented library.

    replay.py FILE.json           one counterexample: exit 1 when it fails
    replay.py --batch IN OUT      many
"""
import importlib
import json
import os
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [VERIF, REPO]


class Hang(BaseException):
    pass


def on_alarm(signum, frame):
    raise Hang()


def run(item, seconds=10):
    from props import api

    mod = importlib.import_module("props." + item["module"])
    fn = getattr(mod, item["harness"])
    api.reset()
    ctx = api.ConcreteCtx(item["env"])
    out = {"status": "ok"}
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds, 0.5)
    try:
        try:
            fn(ctx, **item["params"])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except api.Failed:
        out["status"] = "violation"
    except api.Excluded:
        out["status"] = "excluded"
    except Hang:
        out["status"] = "hang"
        out["label"] = "does not terminate"
    except Exception as cause:
        out["status"] = "exception"
        out["label"] = "unexpected %s" % type(cause).__name__
        try:
            out["info"] = {
                "error": str(cause)[:300],
                "trace": traceback.format_exception(type(cause), cause, cause.__traceback__)[-4:],
            }
        except BaseException:
            pass
    if ctx.failed:
        out["status"] = "violation"
        out["label"], out["info"] = ctx.failed
    out["observed"] = ctx.observed
    return out


def main():
    if sys.argv[1] == "--batch":
        with open(sys.argv[2]) as f:
            items = json.load(f)
        with open(sys.argv[3], "w") as f:
            for item in items:
                f.write(json.dumps(run(item)) + "\n")
                f.flush()
        return 0
    with open(sys.argv[1]) as f:
        item = json.load(f)
    out = run(item)
    if out["status"] in ("ok", "excluded"):
        print("not reproduced")
        return 0
    print("property %s fails: %s" % (item.get("property"), out.get("label")))
    print("harness props/%s.py %s(%s)" % (item["module"], item["harness"], item["params"]))
    print("input", json.dumps(item["env"]))
    print(json.dumps(out.get("info"), indent=1))
    return 1


if __name__ == "__main__":
    sys.exit(main())
