"""Behaviours of GCurry.tla: currying generic functions."""
import itertools

from unpythonic import curry, dyn, Values, iscurried
from unpythonic.dispatch import generic, typed

_n = itertools.count()
T = {"i": "int", "s": "str"}


def make(ms, calls, form):
    name = f"gc{next(_n)}"
    ns = {"generic": generic, "typed": typed, "calls": calls, "__name__": f"vpgc{next(_n)}"}
    src = ""
    method = form == "method"
    ind = "    " if method else ""
    for j, m in enumerate(ms, 1):
        ps = (["self"] if method else []) + [f"x{i}: {T[t]}" for i, t in enumerate(m["ts"], 1)] + (["*", "k: int"] if m["k"] else [])
        got = ", ".join(f"x{i}" for i in range(1, len(m["ts"]) + 1))
        src += f"{ind}@{'typed' if form == 'typed' else 'generic'}\n{ind}def {name}({', '.join(ps)}):\n{ind}    calls.append(({j}, [{got}], {'k' if m['k'] else None}))\n{ind}    return 'r{j}'\n"
    if method:
        src = "class C:\n" + src
    exec(src, ns)
    return getattr(ns["C"](), name) if method else ns[name]


def replay(case):
    for form in ("function", "method") + (("typed",) if len(case["ms"]) == 1 else ()):
        for inner in (False, True):
            calls = []
            f = curry(make(case["ms"], calls, form))
            args, kw = [], {}
            for j, (st, out) in enumerate(zip(case["steps"], case["out"])):
                new = [(10 * j + i) if t == "i" else f"s{j}{i}" for i, t in enumerate(st["ts"])]
                nkw = {"k": 7 + j if st["k"] == "i" else "sk"} if st["k"] else {}
                args, kw = args + new, {**kw, **nkw}
                if out["k"] == "any":
                    break
                try:
                    if inner:
                        with dyn.let(curry_context=["whatever"]):
                            r = f(*new, **nkw)
                    else:
                        r = f(*new, **nkw)
                    got = ["value", r]
                except TypeError as e:
                    got = ["TypeError"]
                where = f"{form} step {j + 1} ({new}, {nkw}, inside a curry context: {inner})"
                if out["k"] == "more":
                    if got[0] != "value" or not callable(got[1]) or not iscurried(got[1]) or calls:
                        return f"{where}: got {got} with calls {calls}, specification: more arguments awaited"
                    f = got[1]
                    continue
                if out["k"] == "TypeError":
                    if got[0] != "TypeError" or calls:
                        return f"{where}: got {got} with calls {calls}, specification TypeError"
                    break
                m = case["ms"][out["m"] - 1]
                want = [(out["m"], args[:len(m["ts"])], kw.get("k") if m["k"] else None)]
                if calls != want:
                    return f"{where}: calls {calls}, specification {want}"
                rest, rkw = args[len(m["ts"]):], dict(kw) if out["kw"] else {}
                if out["k"] == "call":
                    ok = got == ["value", f"r{out['m']}"]
                elif inner:
                    ok = got[0] == "value" and isinstance(got[1], Values) and got[1] == Values(f"r{out['m']}", *rest, **rkw)
                else:
                    ok = got[0] == "TypeError"
                if not ok:
                    return f"{where}: got {got}, specification {out} with {rest}, {rkw} left over"
    return None
