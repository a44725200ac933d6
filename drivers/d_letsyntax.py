"""Renders the programs of LetSyntax.tla with let_syntax and abbrev, in each notation, and runs them."""
import json
import sys
import types
import zlib

import mcpyrate.activate  # noqa: F401
from mcpyrate.compiler import run as mrun
import unpythonic.syntax  # noqa: F401

CASE_TIMEOUT = 60


class Template:
    """What a template that was not replaced refers to."""
    def __init__(self, name):
        self.name = name

    def __getitem__(self, a):
        return f"{self.name}[{','.join(a if isinstance(a, tuple) else (a,))}]"

    def __call__(self, *a):
        return self[a]


class Render:
    def __init__(self, plan, h):
        self.plan, self.h = plan, h

    def pick(self, n):
        self.h = zlib.crc32(b"%d" % self.h)
        return (self.h >> 4) % n

    def args(self, xs):
        xs = ", ".join(xs)
        return [f"[{xs}]", f"({xs})"][self.pick(2)]

    def ex(self, e, i):
        t, k = e["t"], [self.ex(x, i) for x in e["k"]]
        if t == "c":
            return f"tick({e['i']})"
        if t == "name":
            return f"x{e['i']}"
        if t == "p":
            return f"{'ab'[e['i'] - 1]}{i}"
        if t == "v":
            return f"a{e['i']}"
        if t == "pair":
            return f"show({k[0]}, {k[1]})"
        if t == "inv":
            return f"f{e['i']}" + self.args(k)
        return f"s{e['i']}" + (self.args(k) if k else "")

    def formals(self, i):
        return [f"{c}{i}" for c in "ab"[:int(self.plan[i - 1][1:] or 0)]]

    def expr(self, prog, macro):
        bs = []
        for i, rhs in enumerate(prog[:-1], 1):
            f = self.formals(i)
            lhs = f"f{i}" + self.args(f) if f else f"x{i}"
            bs.append((lhs, self.ex(rhs[0], i)))
        body = self.ex(prog[-1][0], 0)
        if self.pick(3) == 0:
            body = f"[tick(0), {body}]"
            self.extra = True
        else:
            self.extra = False
        form = self.pick(4)
        if form == 3 and any(not x.isidentifier() for x, _ in bs):
            form = 0
        b = ", ".join([f"{x} << {y}", f"({x}, {y})", f"[{x}, {y}]", f"({x} := {y})"][form] for x, y in bs)
        if form == 1 and len(bs) == 1:
            b += ","
        return [f"{macro}[{b}][{body}]", f"{macro}[[{b}] in {body}]", f"{macro}[{body}, where[{b}]]"][self.pick(3)]

    def block(self, prog, macro, ind):
        out = [f"with {macro}:"]
        for i, rhs in enumerate(prog[:-1], 1):
            f, kind = self.formals(i), self.plan[i - 1]
            par = self.args(f) if f else ""
            if kind[0] == "s":
                out.append(f"    with block{par} as s{i}:")
                out += [f"        log({self.ex(e, i)})" for e in rhs]
            else:
                out += [f"    with expr{par} as {'f' if f else 'x'}{i}:", f"        {self.ex(rhs[0], i)}"]
        for e in prog[-1]:
            out.append("    " + (self.ex(e, 0) if e["t"] == "use" else f"log({self.ex(e, 0)})"))
        return "\n".join(ind + x for x in out)


def replay(case):
    h = zlib.crc32(json.dumps(case, sort_keys=True).encode())
    plan, prog = case["plan"], case["prog"]
    blocky = case["mode"] == "block"
    for j, macro in enumerate(("let_syntax", "abbrev")):
        r = Render(plan, h + j)
        extra = False
        if blocky:
            code = r.block(prog, macro, ["", "    "][j]) if not j else "def go():\n" + r.block(prog, macro, "    ") + "\ngo()"
        else:
            code = f"log({r.expr(prog, macro)})"
            extra = r.extra
        src = "from unpythonic.syntax import macros, let_syntax, abbrev, block, expr, where\nfrom ioput import *\n" + code + "\n"
        log = []

        def tick(k):
            log.append(str(k))
            return str(k)
        io = types.ModuleType("ioput")
        io.__dict__.update(tick=tick, show=lambda a, b: f"({a},{b})", log=lambda v: log.append("=" + v))
        for i in range(1, len(plan) + 1):
            io.__dict__[f"x{i}"] = f"x{i}"
            io.__dict__[f"a{i}"] = f"a{i}"
            io.__dict__[f"f{i}"] = Template(f"f{i}")
        io.__all__ = [x for x in io.__dict__ if not x.startswith("_")]
        sys.modules["ioput"] = io
        m = types.ModuleType("letsyntax_case")
        m.__file__ = "<letsyntax>"
        sys.modules["letsyntax_case"] = m
        try:
            mrun(src, m)
        except Exception as e:
            return f"{type(e).__name__}: {e} in\n{src}"
        want = (["0"] if extra else []) + case["log"]
        if log != want:
            return f"{log}, specification {want}, in\n{src}"
    return None
