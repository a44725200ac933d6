"""Renders the behaviours of Curry.tla (currying) as programs in an autocurry block, and runs them."""
import json
import sys
import types
import zlib

import mcpyrate.activate  # noqa: F401
from mcpyrate.compiler import run as mrun
import unpythonic.syntax  # noqa: F401
from unpythonic import curry, dyn, iscurried
from drivers.d_curry import SIGS, DEF, World, attempt

CASE_TIMEOUT = 60
PLACES = ["{}", "[{} for _i in (0,)][0]", "({},)[0]", "({} if YES else 0)", "(lambda r_={}: r_)()", "{{'k': {}}}['k']", "same({})", "same(x={})", "(0 or {})",
          "(lambda *, r_={}: r_)()", "(lambda p, *r: p)({})", "next(iter([{}]))"]


def names(sig):
    return [p.split("=")[0].strip().lstrip("*") for p in sig.split(",") if p.strip() and p.strip() != "*"]


class Context:
    def __enter__(self):
        self.d = dyn.let(curry_context=["whatever"])
        self.d.__enter__()

    def __exit__(self, *a):
        return self.d.__exit__(*a)


def program(case, where, seed):
    h = [seed]

    def pick(n):
        h[0] = zlib.crc32(b"%d" % h[0])
        return (h[0] >> 4) % n
    need, todo = [], [case[0]["root"]]
    while todo:
        i = todo.pop()
        if i and i not in need:
            need.append(i)
            todo.append(SIGS[i][2])
    out = ["from unpythonic.syntax import macros, autocurry", "from ioput import *"]
    if where == "inside":
        out.append("with autocurry:")
    for i in need:
        sig = SIGS[i][0]
        loc = "{" + ", ".join(f"{n!r}: {n}" for n in names(sig)) + "}"
        ind = "    " if where == "inside" else ""
        if pick(2):
            out += [f"{ind}def f{i}({sig}):", f"{ind}    return body({i}, {loc})"]
        else:
            out.append(f"{ind}f{i} = lambda {sig}: body({i}, {loc})")
    if where != "inside":
        out.append("with autocurry:")
    out.append("    pass")
    out += [f"    O0 = f{case[0]['root']}", "    start()"]
    made = 1
    for j, st in enumerate(case):
        a = [f"v{10 * (j + 1) + i}" for i in range(1, st["n"] + 1)] + [f"{k}=v{v}" for k, v in (st["kw"] or {}).items()]
        if pick(4) == 0 and st["n"]:
            a = ["*[" + ", ".join(a[:st["n"]]) + "]"] + a[st["n"]:]
        if pick(4) == 0 and st["kw"]:
            k0 = st["n"] if not (a and a[0].startswith("*[")) else 1
            a = a[:k0] + ["**{" + ", ".join(f"{x.split('=')[0]!r}: {x.split('=')[1]}" for x in a[k0:]) + "}"]
        call = f"O{st['o'] - 1}({', '.join(a)})"
        out += ["    calls.clear()", "    out, exc = None, None"]
        if not st["top"]:
            out += ["    try:", "        with context:", f"            out = {call}"]
        else:
            out += ["    try:", "        out = " + PLACES[pick(len(PLACES))].format(call)]
        out += ["    except TypeError as e:", "        exc = e", f"    check({j}, out, exc)"]
        if st["new"]:
            out.append(f"    O{made} = out")
            made += 1
    return "\n".join(out) + "\n"


def replay(case):
    seed = zlib.crc32(json.dumps(case).encode())
    root = case[0]["root"]
    for k, where in enumerate(("inside", "outside")):
        w = World()
        calls, bad = w.calls, []
        m = types.ModuleType("autocurry_case")
        m.__file__ = "<autocurry>"
        sys.modules["autocurry_case"] = m

        def start():
            for i in SIGS:
                if hasattr(m, f"f{i}"):
                    w.f[i] = getattr(m, f"f{i}")
                    w.c[i] = curry(w.f[i])
                    if where == "inside" and not iscurried(w.f[i]):
                        bad.append(f"f{i}, defined in the block, is not curried")

        def check(j, out, exc):
            st = case[j]
            b = w.check(st["r"], st["calls"], out, exc)
            if b:
                bad.append(f"step {j + 1}: {b}")
        io = types.ModuleType("ioput")
        io.__dict__.update(body=w.body, calls=calls, DEF=DEF, start=start, check=check, context=Context(), same=lambda x: x, YES=True)
        for j, st in enumerate(case):
            io.__dict__.update({f"v{10 * (j + 1) + i}": w.val(10 * (j + 1) + i) for i in range(1, st["n"] + 1)})
            io.__dict__.update({f"v{v}": w.val(v) for v in (st["kw"] or {}).values()})
        io.__all__ = [x for x in io.__dict__ if not x.startswith("_")]
        sys.modules["ioput"] = io
        src = program(case, where, seed + k)
        try:
            mrun(src, m)
        except Exception as e:
            return f"{type(e).__name__}: {e}; so far {bad[:1]}, in\n{src}"
        if not bad and where == "inside":
            # what is defined in the block stays curried outside it
            st = case[0]
            calls.clear()
            if st["top"]:
                a = [w.val(10 + i) for i in range(1, st["n"] + 1)]
                out, exc = attempt(lambda: getattr(m, f"f{root}")(*a, **{n: w.val(v) for n, v in (st["kw"] or {}).items()}))
                b = w.check(st["r"], st["calls"], out, exc)
                if b:
                    bad.append(f"called outside the block: {b}")
        if bad:
            return f"{where}: {bad[0]}, in\n{src}"
    return None
