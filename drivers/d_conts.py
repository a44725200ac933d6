"""Renders the programs of Conts.tla as code inside with continuations, and plays the script on the stored continuations."""
import sys
import types

import mcpyrate.activate  # noqa: F401
from mcpyrate.compiler import run as mrun
import unpythonic.syntax  # noqa: F401

CASE_TIMEOUT = 60
M = 97
FN = {1: "f1", 2: "f2", 3: "f3", 10: "setk", 11: "pair", 12: "get_cc"}
HEAD = '''from unpythonic.syntax import macros, continuations, call_cc  # noqa
from unpythonic.syntax import get_cc, iscontinuation
from unpythonic import Values, identity
M = 97
log = []
ks = []
fuel = [{FUEL}]
def can(j, esc=False, tail=False):
    # (the default continuation is a regular function, which cannot be tail-called)
    if j > len(ks) or fuel[0] <= 0 or (esc and ks[j - 1][1] in ("two", "get")) or (tail and ks[j - 1][0] is identity):
        return False
    fuel[0] -= 1
    return True
def kargs(kind, k, x):
    if kind == "two":
        return (x, (x + 1) % M)
    if kind == "get":
        return (k, x)
    return (x,)
with continuations:
    def setk(x, kind="one", *, cc):
        ks.append((cc, kind))
        if kind == "two":
            return Values(x, (x + 1) % M)
        return x
    def pair(x):
        return Values(x, (x + 1) % M)
'''


def ex(e, last):
    base = {0: "0", 1: last, 2: "a"}[e["v"]]
    return f"({base} + {e['c']}) % M"


def callee(h, e, kind, shift=0):
    arg = e if not shift else f"({e} + {shift}) % M"
    if h == 10:
        return f"setk({arg}, {'two' if kind in ('two', 'twostar') else 'one'!r})"
    return f"{FN[h]}({arg})"


def render(case):
    src = [HEAD.replace("{FUEL}", str(case["fuel"]))]
    for i in (3, 2, 1):
        src.append(f"    def f{i}(a):")
        last = "a"
        for p, s in enumerate(case["prog"][i - 1], 1):
            x, v, op, kind = ex(s["e"], last), f"v{p}", s["op"], s["kind"]
            put = lambda line: src.append("        " + line)
            if op == "log":
                put(f"log.append(({i}, {p}, {x}))")
                continue
            if op == "set":
                put(f"{v} = {x}")
            elif op == "call":
                put(f"{v} = {callee(s['f'], x, 'one')} % M")
            elif op == "kcall":
                put(f"{v} = 0")
                put(f"if can({s['f']}):")
                put(f"    {v} = ks[{s['f']} - 1][0](*kargs(ks[{s['f']} - 1][1], ks[{s['f']} - 1][0], {x})) % M")
            else:
                call = callee(s["f"], x, kind)
                if s["cond"] == "none":
                    call = f"{call} if ({x}) % 2 else None"
                elif s["cond"] == "alt":
                    call = f"{call} if ({x}) % 2 else {callee(10, x, kind, 1)}"
                t = {"one": f"x{p} = ", "ign": "", "two": f"x{p}, y{p} = ", "star": f"*x{p}, = ", "twostar": f"x{p}, *y{p} = ", "get": f"k{p}, x{p} = "}[kind]
                put(f"{t}call_cc[{call}]")
                if kind == "one":
                    put(f"{v} = (-1 if x{p} is None else x{p}) % M")
                elif kind == "ign":
                    put(f"{v} = 0")
                elif kind == "two":
                    put(f"{v} = (-4 if x{p} is None and y{p} is None else x{p} * 3 + y{p}) % M")
                elif kind == "star":
                    put(f"{v} = (sum(x{p}) + 10 * len(x{p})) % M")
                elif kind == "twostar":
                    put(f"{v} = ((-1 if x{p} is None else x{p}) * 3 + sum(y{p}) + 10 * len(y{p})) % M")
                else:
                    put(f"ks.append((k{p}, 'get'))")
                    put(f"{v} = x{p}")
            last = v
        r = case["ret"][i - 1]
        x = ex(r["e"], last)
        if r["op"] == "val":
            put(f"return {x}")
        elif r["op"] == "tail":
            put(f"return {callee(r['f'], x, 'one')}")
        elif r["op"] == "k":
            put(f"if can({r['f']}, tail=True):")
            put(f"    kk, kind = ks[{r['f']} - 1]")
            put(f"    if kind == 'one':")
            put(f"        return kk({x})")
            put(f"    return kk(*kargs(kind, kk, {x}))")
            put(f"return {x}")
        else:
            put(f"if can({r['f']}, esc=True):")
            put(f"    return {'f3' if i < 3 else 'setk'}({x}, cc=ks[{r['f']} - 1][0])")
            put(f"return {x}")
    if case["top"]:
        src += ["    res = call_cc[f1(3)]", "    log.append((0, 1, res))"]
    return "\n".join(src) + "\n"


def replay(case):
    src = render(case)
    m = types.ModuleType("prog")
    m.__file__ = "prog.py"
    sys.modules["prog"] = m
    want = case["r"]
    try:
        mrun(src, m)
        out = [-1] if case["top"] else [m.f1(3)]
        for j, x in case["script"]:
            if j > len(m.ks):
                out.append(-2)
            else:
                k, kind = m.ks[j - 1]
                v = k(*m.kargs(kind, k, x))
                out.append(-1 if v is None and case["top"] else v)
        got = {"out": out, "log": [list(t) for t in m.log], "nks": len(m.ks)}
        for k, _ in m.ks:
            if not callable(k):
                return f"a stored continuation is not callable: {k!r}; program:\n{src}"
    except Exception as e:
        got = f"{type(e).__name__}: {e}"
    want = {k: want[k] for k in ("out", "log", "nks")}
    if got != want:
        return f"got {got}, specification {want}; script {case['script']}; program:\n{src}"
    return None
