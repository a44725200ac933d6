"""Dynamic variables used by several threads under the scheduler; one of them is the main thread."""
import os
import threading

from vp import sched
PKG = sched.install(os.environ["VP_REPO"])
FILES = (os.path.join(PKG, "dynassign"), os.path.join(PKG, "env"))
_real_main = threading.main_thread
_main = [None]
threading.main_thread = lambda: _main[0] or _real_main()

from unpythonic.dynassign import dyn       # noqa: E402


def record(case):
    plan = case["plan"]
    events, bad = [], []

    def worker(name):
        def run():
            blocks = []

            def do(op):
                events.append({"e": "call", "t": name, "o": op})
                kind, b = op["op"], op.get("b")
                out = {"e": "ret", "t": name}
                if kind == "let":
                    blocks.append(dyn.let(**b))
                    blocks[-1].__enter__()
                elif kind == "exit":
                    blocks.pop().__exit__(None, None, None)
                elif kind == "update":
                    dyn.update(**b)
                elif kind == "set":
                    for k, v in b.items():
                        setattr(dyn, k, v)
                elif kind == "look":
                    out["v"] = {"a": dyn.a, "b": dyn.b}
                events.append(out)
            if name == "m":
                _main[0] = threading.current_thread()
                base = dyn.let(a=0, b=0)
                base.__enter__()
                up.append(1)
                try:
                    for op in plan[name]:
                        do(op)
                finally:
                    while blocks:
                        blocks.pop().__exit__(None, None, None)
                    base.__exit__(None, None, None)
            else:
                if not up:
                    return        # scheduled before the bindings exist
                for op in plan[name]:
                    do(op)
        return run
    up = []
    s = sched.Sched(FILES, {int(a): b for a, b in case["preempt"]}, order=sorted(plan))
    try:
        s.run({n: worker(n) for n in plan})
    finally:
        _main[0] = None
    if bad:
        return {"fail": f"{bad[0]} (schedule {case['preempt']})"}
    for n, e in s.exc.items():
        if n != "m" and isinstance(e, AttributeError):
            continue      # looked after the bindings were gone
        return {"fail": f"thread {n} ended with {type(e).__name__}: {e} (schedule {case['preempt']})"}
    return {"trace": events, "steps": s.step}
