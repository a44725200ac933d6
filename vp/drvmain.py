"""Entry point of a driver process: run every case of in.jsonl through the driver module, against /repo."""
import importlib
import json
import os
import signal
import sys
import threading
import traceback

REPO = os.environ["VP_REPO"]
ROOT = os.environ["VP_ROOT"]
sys.path[0] = REPO
sys.path.insert(1, ROOT)

# optional hook: drivers that need to patch the environment before unpythonic is imported
PRE = {"d_sched"}


class CaseTimeout(BaseException):
    pass


def main():
    name, d = sys.argv[1], sys.argv[2]
    with open(os.path.join(d, "conf.json")) as f:
        conf = json.load(f)
    out = open(os.path.join(d, "out.jsonl"), "w")
    mod = importlib.import_module(f"drivers.{name}")
    per_case = getattr(mod, "CASE_TIMEOUT", 30)
    setup = getattr(mod, "setup", None)
    if setup:
        setup(conf)
    fn = mod.record if conf["mode"] == "record" else mod.replay

    def on_alarm(sig, frm):
        raise CaseTimeout(f"no answer within {per_case} s")
    signal.signal(signal.SIGALRM, on_alarm)
    for line in open(os.path.join(d, "in.jsonl")):
        case = json.loads(line)
        quotes = sys.modules.get("mcpyrate.quotes")
        if quotes is not None and hasattr(quotes, "_lookup_cache"):
            quotes._lookup_cache.clear()      # keyed by id(): stale once the programs of earlier cases are garbage
        signal.alarm(per_case)
        try:
            r = fn(case)
            if r is None:
                r = {}
            elif isinstance(r, str):
                r = {"fail": r}
        except CaseTimeout as e:
            r = {"fail": f"timeout: {e}\n{traceback.format_exc()[-1500:]}", "sig": "timeout"}
        except BaseException as e:  # an exception nobody predicted is a mismatch
            r = {"fail": f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}", "sig": f"exc:{type(e).__name__}"}
        finally:
            signal.alarm(0)
        out.write(json.dumps(r) + "\n")
        out.flush()
    td = getattr(mod, "teardown", None)
    if td:
        td()
    out.close()
    os._exit(0)


if __name__ == "__main__":
    main()
