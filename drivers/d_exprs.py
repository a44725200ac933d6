"""Replays Exprs.tla: prefix, cond and aif."""
import mcpyrate.activate  # noqa: F401
import sys
import types
from mcpyrate.compiler import run as mrun

LOG = []


def show(v):
    if isinstance(v, tuple):
        return "(" + ",".join(map(show, v)) + ")"
    if v is F or v is Z:
        return f"<{v.__name__}>"
    return v if isinstance(v, str) else repr(v)


def call(name, a, k):
    s = f"{name}({','.join([show(x) for x in a] + [f'{n}={show(x)}' for n, x in k.items()])})"
    LOG.append(s)
    return s


def F(*a, **k):
    return call("F", a, k)


def Z(*a, **k):
    call("Z", a, k)
    return 0


class sub:
    def __init__(self, x):
        self.x = x

    def __getitem__(self, ix):
        s = f"{show(self.x)}[{','.join(map(show, ix))}]"
        LOG.append(s)
        return s


def level(ops, lv):
    for o in ops:
        lv += 1 if o == "q" else -1
    return lv


def parts(x, lv, pre):
    """A part of cond or aif."""
    if x["t"] == "brk":
        return "[" + ", ".join(src(c, lv, pre) for c in x["c"]) + "]"
    return src(x, lv, pre)


def src(x, lv, pre):
    t = x["t"]
    if t in ("lit", "fn"):
        return x["s"]
    if t == "it":
        return "it"
    if t == "cond":
        return "cond[" + ", ".join(parts(c, lv, pre) for c in x["c"]) + "]"
    if t == "aif":
        return "aif[" + ", ".join(parts(c, lv, pre) for c in x["c"]) + "]"
    if t == "sub":
        c = [src(y, lv, pre) for y in x["c"]]
        return (f"(sub, {c[0]})" if pre and not lv else f"sub({c[0]})") + f"[{c[1]}, {c[2]}]"
    ops = list(x["s"])
    l2 = level(ops, lv)
    k = x["k"]
    np = len(x["c"]) - len(k)
    c = [src(y, l2, pre) for y in x["c"]]
    if pre:
        groups = []
        for g in (1, 2):
            ks = [f"{e['n']}={s}" for e, s in zip(k, c[np:]) if e["g"] == g]
            if ks:
                groups.append("kw(" + ", ".join(ks) + ")")
        items = ops + c[:np] + groups
        if len(groups) == 2 and np > 1:   # a kw operator may come anywhere after the function
            items = ops + c[:1] + groups[:1] + c[1:np] + groups[1:]
        return "(" + ", ".join(items) + ("," if len(items) == 1 else "") + ")"
    if l2 > 0:
        return "(" + ", ".join(c) + ("," if len(c) == 1 else "") + ")"
    last = {e["n"]: i for i, e in enumerate(k)}
    ks = [f"{e['n']}={s}" for i, (e, s) in enumerate(zip(k, c[np:])) if last[e["n"]] == i]
    return f"{c[0]}({', '.join(c[1:np] + ks)})"


def replay(case):
    x = case["x"]
    head = "from unpythonic.syntax import macros, prefix, q, u, kw, cond, aif, it\n"
    a, b = src(x, 0, True), src(x, 0, False)
    progs = [("in a prefix block", head + f"def go():\n    with prefix:\n        r = {a}\n    return r\n"),
             ("in a prefix block, inside a function", head + f"with prefix:\n    def go():\n        return {a}\n"),
             ("as ordinary calls", head + f"def go():\n    return {b}\n")]
    for what, code in progs:
        mod = types.ModuleType("exprs_case")
        mod.__file__ = "exprs_case.py"
        mod.__dict__.update(F=F, Z=Z, sub=sub)
        sys.modules["exprs_case"] = mod
        mrun(code, mod)
        LOG.clear()
        v = show(mod.go())
        if v != case["v"] or LOG != case["log"]:
            return f"{what}: {code}gives {v} after {LOG}, specification {case['v']} after {case['log']}"
    return None
