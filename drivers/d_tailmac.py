"""Renders the programs of TailMac.tla as source code with macros, in several variants, and runs them."""
import re
import sys
import zlib
import json

import mcpyrate.activate  # noqa: F401
from mcpyrate.compiler import run as mrun
import unpythonic.syntax  # noqa: F401

CASE_TIMEOUT = 60


def expr(e, h):
    t, k = e["t"], e["k"]
    sub = lambda i: "(" + expr(k[i], h // 7 + i) + ")"
    if t == "d":
        return f"tick({e['v']}, n)"
    if t in ("n", "x", "it"):
        return f"tick({t}, n)"
    if t == "u":
        return f"tick({{U}}, n)"
    if t == "c":
        return f"{e['v']}(n - 1, {{U}})"
    if t == "if":
        return f"{sub(1)} if {sub(0)} else {sub(2)}"
    if t in ("and", "and3", "or", "or3"):
        return (" and " if t.startswith("and") else " or ").join(sub(i) for i in range(len(k)))
    if t == "let":
        return [f"let[x << {sub(0)}][{sub(1)}]", f"let[[x << {sub(0)}] in {sub(1)}]", f"let[{sub(1)}, where[x << {sub(0)}]]"][h % 3]
    if t == "do":
        return f"do[{sub(0)}, {sub(1)}]"
    if t == "dol":
        return f"do[local[x << {sub(0)}], {sub(1)}]"
    if t == "aif":
        return f"aif[{sub(0)}, {sub(1)}, {sub(2)}]"
    return f"cond[{', '.join(sub(i) for i in range(len(k)))}]"


def stmts(e, h, ind, ret):
    """The expression as statements in tail position (for autoreturn: ret = "")."""
    pad = "    " * ind
    t, k = e["t"], e["k"]
    if t == "if":
        if k[2]["t"] == "if" and h % 2:      # elif
            e2 = k[2]["k"]
            return ([f"{pad}if {expr(k[0], h)}:"] + stmts(k[1], h // 2, ind + 1, ret) + [f"{pad}elif {expr(e2[0], h // 5)}:"] + stmts(e2[1], h // 3, ind + 1, ret)
                    + [f"{pad}else:"] + stmts(e2[2], h // 7, ind + 1, ret))
        return [f"{pad}if {expr(k[0], h)}:"] + stmts(k[1], h // 2, ind + 1, ret) + [f"{pad}else:"] + stmts(k[2], h // 3, ind + 1, ret)
    if t == "do":
        return [f"{pad}{expr(k[0], h)}"] + stmts(k[1], h // 2, ind, ret)
    # other statements around it; the expression in one of their tail positions
    e1 = f"{pad}    {ret}{expr(e, h)}"
    no, fin = f"{pad}    'not reached'", ([f"{pad}finally:", f"{pad}    [1]"] if h // 11 % 2 else [])
    h = h // 13 % 8
    if h == 1:
        return [f"{pad}with nullcontext():", e1]
    if h == 2:
        return [f"{pad}try:", e1, f"{pad}except ZeroDivisionError:", no] + fin
    if h == 3:
        return [f"{pad}try:", f"{pad}    pass", f"{pad}except ZeroDivisionError:", no, f"{pad}else:", e1] + fin
    if h == 4:
        return [f"{pad}try:", e1, f"{pad}finally:", f"{pad}    pass"]
    if h == 5:
        return [f"{pad}try:", f"{pad}    1 / 0", f"{pad}except ZeroDivisionError:", e1, f"{pad}except TypeError:", no] + fin
    if h == 6:
        return [f"{pad}try:", f"{pad}    1 / 0", f"{pad}except (KeyError, TypeError):", no, f"{pad}except ArithmeticError as err:", e1, f"{pad}else:", no] + fin
    return [f"{pad}{ret}{expr(e, h)}"]


def uses(e, ts):
    return e["t"] in ts or any(uses(x, ts) for x in e["k"])


BASE = {"f": "'fb'", "g": "None"}
HEAD = "from unpythonic.syntax import macros, tco, autoreturn, continuations, let, where, do, local, cond{AIF}  # noqa\nfrom contextlib import nullcontext\nx = 'gx'\n"


def render(case, h):
    aif = uses(case["f"], ("aif",)) or uses(case["g"], ("aif",))
    u = "aux" if aif else "it"      # a user variable may have any name the program's own macros do not claim
    out = []
    for name, block in (("return", "tco"), ("lambda", "tco"), ("statements", "autoreturn, tco"), ("plain autoreturn", "autoreturn"), ("continuations", "continuations"), ("lambda in continuations", "continuations")):
        src = [HEAD.format(AIF=", aif, it" if aif else ""), f"with {block}:"]
        for fn in "fg":
            e = case[fn]
            if "lambda" in name:
                src.append(f"    {fn} = lambda n, {{U}}: tick({BASE[fn]}, n) if n <= 0 else ({expr(e, h)})")
            elif name in ("return", "continuations"):
                src += [f"    def {fn}(n, {{U}}):", "        if n <= 0:", f"            return tick({BASE[fn]}, n)", f"        return {expr(e, h)}"]
            else:
                src += [f"    def {fn}(n, {{U}}):", "        if n <= 0:", f"            tick({BASE[fn]}, n)", "        else:"] + stmts(e, h, 3, "")
        out.append((name, block, "\n".join(src).replace("{U}", u) + "\n"))
    return out


def depth():
    f, k = sys._getframe(2), 0
    while f:
        f, k = f.f_back, k + 1
    return k


def replay(case):
    h = zlib.crc32(json.dumps(case, sort_keys=True).encode())
    variants = render(case, h)
    chosen = variants if h % 4 == 0 else [v for i, v in enumerate(variants) if i in (h % 3, 3 + h // 3 % 3)]
    for name, block, src in chosen:
        log, depths = [], []
        if "continuations" in block:    # there, a call of a regular function is not allowed in tail position
            src = re.sub(r"tick\(([^()]*)\)", r"[tick(\1)][0]", src)

        def tick(v, n):
            log.append([repr(v), n])
            depths.append((n, depth()))
            return v
        import types
        m = types.ModuleType("prog")
        m.__dict__.update(tick=tick, __file__="prog.py")
        sys.modules["prog"] = m
        mrun(src, m)
        for n, r in enumerate(case["r"][{"autoreturn": "plain", "continuations": "cont"}.get(block, "tco")]):
            for fn in "fg":
                log.clear()
                try:
                    v = repr(getattr(m, fn)(n, "U"))
                except Exception as e:
                    v = f"{type(e).__name__}: {e}"
                if v != r[fn]["v"] or log != r[fn]["l"]:
                    return f"{name} ({block}): {fn}({n}): {v} evaluating {log}, specification {r[fn]['v']} evaluating {r[fn]['l']}; program:\n{src}"
        if case["deep"] and block != "autoreturn":
            tops = []
            for n in (40, 80):
                depths.clear()
                m.f(n, "U")
                last = min(k for k, _ in depths)
                tops.append(max(d for k, d in depths if k == last))
            if last < 40 and tops[1] > tops[0]:
                return f"{name} ({block}): the stack grows with the number of tail calls ({tops[0]} frames after 40, {tops[1]} after 80); program:\n{src}"
    return None
