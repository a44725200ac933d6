"""Renders the expressions of Scope.tla in the various syntaxes of let and do, and evaluates them inside a function."""
import json
import sys
import types
import zlib

import mcpyrate.activate  # noqa: F401
from mcpyrate.compiler import run as mrun
import unpythonic.syntax  # noqa: F401

CASE_TIMEOUT = 60


class Render:
    def __init__(self, h):
        self.h = h

    def pick(self, n):
        self.h = zlib.crc32(b"%d" % self.h)
        return (self.h >> 4) % n

    def bind(self, n, v):
        return [f"{n} << {v}", f"({n} := {v})", f"({n}, {v})", f"[{n}, {v}]"][self.pick(4)]

    def bind1(self, n, v):      # a single binding may be given without a sequence
        return [f"{n} << {v}", f"({n} := {v})", f"({n}, {v})"][self.pick(3)]

    def assign(self, n, v):
        return [f"({n} << {v})", f"({n} := {v})"][self.pick(2)]

    def let(self, macro, names, vals, body, bodynode):
        if len(names) == 1 and self.pick(2):
            bs = self.bind1(names[0], vals[0])
            bs2 = None
        else:
            fmt = self.pick(4)
            bs = ", ".join([f"{n} << {v}", f"({n} := {v})", f"({n}, {v})", f"[{n}, {v}]"][fmt] for n, v in zip(names, vals))
            if len(names) == 1:
                bs += ","
            bs2 = bs
        if bodynode["t"] in ("do2", "do3") and self.pick(2):      # extra brackets: implicit do
            body = f"[{self.items(bodynode['k'])}]"
        elif body.startswith("["):
            body = f"({body})"
        k = self.pick(4)
        if k == 0 and bs2:
            return f"{macro}[[{bs2}] in {body}]"
        if k == 1 and bs2:
            return f"{macro}[({bs2}) in {body}]"
        if k == 2:
            return f"{macro}[{body}, where[{bs}]]"
        return f"{macro}[{bs}][{body}]"

    def items(self, k):
        return ", ".join(self.item(x) for x in k)

    def item(self, e):
        if e["t"] == "local":
            return f"local[{self.assign(e['n'][0], self.ex(e['k'][0]))}]"
        if e["t"] == "delete":
            return f"delete[{e['n'][0]}]"
        return self.ex(e)

    def ex(self, e):
        t, n, k = e["t"], e["n"], e["k"]
        if t == "c":
            return n[0]
        if t == "ref":
            return f"tick({n[0]!r}, {n[0]})"
        if t == "set":
            return self.assign(n[0], self.ex(k[0]))
        if t == "thunk":
            return f"(lambda: {self.ex(k[0])})"
        if t == "call":
            return f"callv({self.ex(k[0])})"
        if t == "pair":
            return f"show({self.ex(k[0])}, {self.ex(k[1])})"
        if t == "lam":
            a = self.ex(k[0])
            return [f"(lambda {n[0]}: {self.ex(k[1])})({a})", f"(lambda *, {n[0]}: {self.ex(k[1])})({n[0]}={a})", f"(lambda {n[0]}={a}: {self.ex(k[1])})()", f"(lambda *, {n[0]}={a}: {self.ex(k[1])})()",
                    f"(lambda {n[0]}, /: {self.ex(k[1])})({a})", f"(lambda {n[0]}={a}, /: {self.ex(k[1])})()"][self.pick(6)]
        if t == "comp":
            a, b = self.ex(k[0]), self.ex(k[1])
            return [f"[{b} for {n[0]} in [{a}]][0]", f"list({b} for {n[0]} in [{a}])[0]", f"{{0: {b} for {n[0]} in [{a}]}}[0]"][self.pick(3)]
        if t in ("let", "letrec"):
            return self.let("letseq" if t == "let" and self.pick(4) == 0 else t, n, [self.ex(k[0])], self.ex(k[1]), k[1])
        if t in ("let2", "letseq2", "letrec2"):
            vals = [self.ex(k[0]), self.ex(k[1])]
            return self.let(t[:-1], n, vals, self.ex(k[2]), k[2])
        return f"{'do0' if t == 'do02' else 'do'}[{self.items(k)}]"


def replay(case):
    h = zlib.crc32(json.dumps(case, sort_keys=True).encode())
    for variant in range(2):
        body = Render(h + variant).ex(case["e"])
        src = f"from unpythonic.syntax import macros, let, letseq, letrec, where, do, do0, local, delete  # noqa\ndef prog(x, y):\n    return {body}\n"
        log = []

        def name(v):
            return "fn" if callable(v) else v.s if isinstance(v, Text) else repr(v)

        class Text:
            def __init__(self, s):
                self.s = s

        def tick(n, v):
            log.append([n, name(v)])
            return v
        m = types.ModuleType("prog")
        m.__dict__.update(__file__="prog.py", tick=tick, callv=lambda v: v() if callable(v) else v, show=lambda a, b: Text(f"({name(a)}, {name(b)})"))
        sys.modules["prog"] = m
        mrun(src, m)
        try:
            v, err = name(m.prog("px", "py")), ""
        except AttributeError as e:
            v, err = "?", "AttributeError"
            msg = str(e)
        except Exception as e:
            v, err = "?", f"{type(e).__name__}: {e}"
        r = case["r"]
        if (v, err, log) != (r["v"] if not r["err"] else "?", r["err"], r["log"]):
            return f"result {v} error {err!r} reading {log}; specification: result {r['v']} error {r['err']!r} reading {r['log']}; program:\n{src}"
    return None
