"""Renders the decorated functions of ScopeStmt.tla and runs them."""
import json
import sys
import types
import zlib

import mcpyrate.activate  # noqa: F401
from mcpyrate.compiler import run as mrun
import unpythonic.syntax  # noqa: F401

CASE_TIMEOUT = 60


def render(case, h):
    r = [h]

    def pick(n):
        r[0] = zlib.crc32(b"%d" % r[0])
        return (r[0] >> 4) % n
    bs = [(b["n"], b["e"]["n"]) for b in case["bs"]]
    fmt = pick(3)
    deco = ", ".join([f"{n} << {v}", f"({n} := {v})", f"({n}, {v})"][fmt] for n, v in bs)
    out = ["from unpythonic.syntax import macros, dlet, dletseq, dletrec, blet, bletseq, bletrec  # noqa", "x, y = 'gx', 'gy'", f"@{case['deco']}[{deco}]", f"def f({case['par']}):"]

    def stmts(ss, ind):
        pad = "    " * ind
        for s in ss:
            op, n, e = s["op"], s["n"], s["e"]["n"]
            if op == "log":
                out.append(pad + f"log.append([{n!r}, repr({n})])")
            elif op == "asg":
                out.append(pad + [f"{n} = {e}", f"{n}, = [{e}]", f"{n}: object = {e}", f"zz = {n} = {e}"][pick(4)])
            elif op == "if":
                out.append(pad + "if True:")
                out.append(pad + f"    {n} = {e}")
            elif op == "for":
                out.append(pad + f"for {n} in [{e}]:")
                out.append(pad + "    pass")
            elif op == "with":
                out.append(pad + f"with nullcontext({e}) as {n}:")
                out.append(pad + "    pass")
            elif op == "set":
                out.append(pad + [f"{n} << {e}", f"({n} := {e})"][pick(2)])
            elif op == "del":
                out.append(pad + f"del {n}")
            elif op == "def":
                out.append(pad + "def inner():")
                stmts(s["b"], ind + 1)
                out.append(pad + "    return None")
                out.append(pad + "inner()")
    stmts(case["body"], 1)
    return "\n".join(out) + "\n"


def replay(case):
    from contextlib import nullcontext
    h = zlib.crc32(json.dumps(case, sort_keys=True).encode())
    src = render(case, h)
    log, got = [], []
    m = types.ModuleType("prog")
    m.__dict__.update(__file__="prog.py", log=log, nullcontext=nullcontext)
    sys.modules["prog"] = m
    try:
        mrun(src, m)
        if case["deco"].startswith("b"):
            got = [list(log)]
            if m.f is not None:
                return f"a block let whose body returns None gave {m.f!r}; program:\n{src}"
        else:
            for _ in case["r"]:
                log.clear()
                m.f(*(["ax"] if case["par"] else []))
                got.append(list(log))
    except Exception as e:
        got = f"{type(e).__name__}: {e}"
    if got != case["r"]:
        return f"reads {got}, specification {case['r']}; program:\n{src}"
    return None
