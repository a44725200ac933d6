"""Renders the programs of Envify.tla in an envify block (with and without the other lambda macros) and runs them."""
import json
import sys
import types
import zlib

import mcpyrate.activate  # noqa: F401
from mcpyrate.compiler import run as mrun
import unpythonic.syntax  # noqa: F401

CASE_TIMEOUT = 60
BLOCKS = ["envify", "quicklambda, envify", "multilambda, envify", "envify, namedlambda", "quicklambda, multilambda, envify, namedlambda"]


class Render:
    def __init__(self, h, block):
        self.h = h
        self.multi = "multilambda" in block
        self.nfun = 0

    def pick(self, n):
        self.h = zlib.crc32(b"%d" % self.h)
        return (self.h >> 4) % n

    def ex(self, e):
        t, n, k = e["t"], e["n"], e["k"]
        if t == "c":
            return n[0]
        if t == "ref":
            return f"tick({n[0]!r}, {n[0]})"
        if t == "set":
            v = self.ex(k[0])
            return [f"({n[0]} << {v})", f"({n[0]} := {v})"][self.pick(2)]
        if t == "thunk":
            return f"(lambda: {self.ex(k[0])})"
        if t == "thunk2":
            return f"(lambda: {'' if self.multi else 'do'}[{self.ex(k[0])}, {self.ex(k[1])}])"
        if t == "call":
            return f"callv({self.ex(k[0])})"
        if t == "pair":
            return f"show({self.ex(k[0])}, {self.ex(k[1])})"
        if t == "dict":
            key = n[0] if n[0] == "1" else repr(n[0])
            return f"{{{key}: {self.ex(k[0])}, 'other': 3}}[{key}]"
        if t == "quick":
            return f"fn[show(_, {self.ex(k[1])})]({self.ex(k[0])})"
        if t == "lam":
            a, b = self.ex(k[0]), self.ex(k[1])
            return [f"(lambda {n[0]}: {b})({n[0]}={a})", f"(lambda *, {n[0]}: {b})({n[0]}={a})", f"(lambda {n[0]}=7: {b})({n[0]}={a})"][self.pick(3)]
        if t == "lamdef":
            a, b = self.ex(k[0]), self.ex(k[1])
            return [f"(lambda {n[0]}={a}: {b})()", f"(lambda *, {n[0]}={a}: {b})()", f"(lambda {n[0]}={a}, /: {b})()"][self.pick(3)]
        if t == "comp":
            a, b = self.ex(k[0]), self.ex(k[1])
            return [f"[{b} for {n[0]} in [{a}]][0]", f"list({b} for {n[0]} in [{a}])[0]", f"{{0: {b} for {n[0]} in [{a}]}}[0]",
                    f"[{b} for _i in [0] for {n[0]} in [{a}]][0]" if "ref" not in json.dumps(k[0]) else f"[{b} for {n[0]}, _i in [({a}, 0)]][0]"][self.pick(4)]
        raise AssertionError(t)

    def st(self, e, ind):
        t, n, k = e["t"], e["n"], e["k"]
        p = "    " * ind
        if t == "expr":
            return [p + self.ex(k[0])]
        if t == "asg":
            return [p + f"{n[0]} = {self.ex(k[0])}"]
        if t == "for":
            return [p + f"for {n[0]} in [{self.ex(k[0])}]:", p + "    pass"]
        if t == "aug":
            return [[p + f"{n[0]} = show(tick({n[0]!r}, {n[0]}), 1)"], [p + f"with ctxt(show(tick({n[0]!r}, {n[0]}), 1)) as {n[0]}:", p + "    pass"]][self.pick(2)]
        if t == "cls":
            self.nfun += 1
            c = f"C{self.nfun}"
            return [p + f"class {c}:", p + f"    {n[0]} = {self.ex(k[0])}", p + f"    tick({n[0]!r}, {n[0]})", p + f"    def m(self): return tick({n[0]!r}, {n[0]})", p + f"{c}().m()"]
        self.nfun += 1
        g = f"g{self.nfun}"
        par, decl, how = n
        body = k if par == "" else k[1:]
        arg = "" if par == "" else self.ex(k[0])
        head = f"{par}={arg}" if par and how == "default" else par
        if head and how == "default" and self.pick(2):
            head = "*, " + head
        out = [p + f"def {g}({head}):"]
        if decl:
            out.append(p + "    " + decl)
        for s in body:
            out += self.st(s, ind + 1)
        again = {"": "()", "default": "()", "name": f"({par}='k')", "position": "('k')"}["" if par == "" else how]
        call = {"": "()", "default": "()", "name": f"({par}={arg})", "position": f"({arg})"}["" if par == "" else how]
        if call != "()":      # the argument comes after the definition, but before the function is kept
            return out + [p + f"arg{self.nfun} = dict(x={arg})['x']" if False else p + f"keepcall({g}, lambda f: f{again})({g}{', ' + (par + '=' if how == 'name' else '') + arg})"]
        return out + [p + f"keepcall({g}, lambda f: f{again})({g})"]


class Ctxt:
    def __init__(self, v):
        self.v = v

    def __enter__(self):
        return self.v

    def __exit__(self, *a):
        pass


def run_one(case, block, h):
    rd = Render(h, block)
    body = []
    for s in case["b"]:
        body += rd.st(s, 2)
    src = f"from unpythonic.syntax import macros, {block}, do, fn  # noqa\n" if "quick" not in block else f"from unpythonic.syntax import macros, {block}, do, fn  # noqa\n"
    src += f"with {block}:\n    def prog(x, y):\n" + "\n".join(body) + "\n"
    log = []
    kept = []

    class Text:
        def __init__(self, s):
            self.s = s

    def name(v):
        if callable(v):
            nm = v.__name__
            return "fn:" + ("" if nm.startswith("<lambda") else nm)
        return v.s if isinstance(v, Text) else repr(v)

    def tick(n, v):
        log.append([n, name(v)])
        return v

    def keepcall(g, again):
        def call(f, *args, **kw):
            if kept is not None:
                kept.append(lambda: again(f))
            return f(*args, **kw)
        return call
    m = types.ModuleType("prog")
    m.__dict__.update(__file__="prog.py", tick=tick, callv=lambda v: v() if callable(v) else v, show=lambda a, b: Text(f"({name(a)}, {name(b)})"), ctxt=Ctxt,
                      keepcall=keepcall, x="gx", y="gy")
    sys.modules["prog"] = m
    mrun(src, m)
    err = ""
    try:
        m.prog("px", "py")
        for f in list(kept):
            f()
        m.prog("px", "py")
    except NameError:
        err = "NameError"
    except Exception as e:
        err = f"{type(e).__name__}: {e}"
    r = case["r"]
    exp = r["log"]
    if "namedlambda" not in block:
        import re
        exp = [[n, re.sub(r"fn:\w*", "fn:", v)] for n, v in exp]
        log = [[n, re.sub(r"fn:\w*", "fn:", v)] for n, v in log]
    if (err, log) != (r["err"], exp):
        return f"error {err!r} reading {log}; specification: error {r['err']!r} reading {exp}; program:\n{src}"


def replay(case):
    h = zlib.crc32(json.dumps(case, sort_keys=True).encode())
    blocks = BLOCKS[1:4]
    for j, block in enumerate([blocks[h % 3], BLOCKS[4] if h % 2 else BLOCKS[0]]):
        bad = run_one(case, block, h + j)
        if bad:
            return bad
    return None
