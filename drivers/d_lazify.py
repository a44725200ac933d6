"""Renders the programs of Lazify.tla inside "with lazify" and runs them."""
import json
import sys
import types
import zlib

import mcpyrate.activate  # noqa: F401
from mcpyrate.compiler import run as mrun
import unpythonic.syntax  # noqa: F401
from unpythonic import jump

CASE_TIMEOUT = 60
NAMES = ["x", "y", "z", "t"]
LIB = '''
    def myif(x, y, z):
        if x:
            return y
        else:
            return z
    def k(x, y):
        return x
    def s(x, y):
        return y
    def dup(x):
        return add(x, x)
    def sw(x, y):
        return k(y, x)
    def fst(t):
        return t[0]
    def snd(t):
        return k(t[1], t[0])
    def pr(x, y):
        return (x, y)
    def va(*t):
        return t[1]
    def kwf(**t):
        return t["b"]
    def kt(x, y):
        return x
    def catch(x):
        try:
            r = x
        except ValueError:
            log.append(200)
            try:
                r = x
            except ValueError:
                r = 7
        return r
    def catcht(x):
        try:
            r = total(x)
        except ValueError:
            log.append(200)
            try:
                r = total(x)
            except ValueError:
                r = 7
        return r
    def app(f, x):
        return f(x)
'''
HEADS = ["lazify", "lazify, tco", "lazify, autocurry", "lazify, continuations", "lazify, namedlambda"]


def total(t):
    return sum(total(u) for u in t) if isinstance(t, tuple) else t


def render(case, h, head):
    r = [h]

    def pick(n):
        r[0] = zlib.crc32(b"%d" % r[0])
        return (r[0] >> 4) % n
    curry = "autocurry" in head

    def call(f, args, names):
        """A call of a lazy function with the arguments given in some way"""
        how = pick(7 if curry else 5)
        if how == 1 and names:
            return f"{f}({', '.join(f'{n}={a}' for n, a in zip(names, args))})"
        if how == 2 and names and len(args) > 1:
            return f"{f}({args[0]}, {', '.join(f'{n}={a}' for n, a in reversed(list(zip(names, args))[1:]))})"
        if how == 3:
            return f"{f}(*({', '.join(args)},))"
        if how == 4 and names:
            return f"{f}(**{{{', '.join(f'{n!r}: {a}' for n, a in zip(names, args))}}})"
        if how >= 5 and len(args) > 1 and names:
            return f"{f}({args[0]})({', '.join(args[1:])})"
        return f"{f}({', '.join(args)})"

    def go(e):
        op, n = e["op"], e["n"]
        if op == "ref":
            return NAMES[n - 1]
        if op == "sel":
            return f"t[{n}]"
        a = [go(q) for q in e["k"]]
        if op == "c":
            return str(n)
        if op in ("ev", "bad"):
            return f"{op}({n})"
        if op in ("if", "ift"):
            return f"({a[1]} if {a[0]} else {a[2]})"
        if op in ("and", "or"):
            return f"({a[0]} {op} {a[1]})"
        if op == "not":
            return f"(1 if not {a[0]} else 0)"
        if op == "op":
            return f"({a[0]} + {a[1]})"
        if op == "pair":
            return f"({a[0]}, {a[1]})"
        if op == "do":
            return f"do[{a[0]}, {a[1]}]"
        if op in ("add", "tot"):
            return f"{op}({', '.join(a)})"
        if op == "kwf":
            return f"kwf(a={a[0]}, b={a[1]})" if pick(2) else f"kwf(b={a[1]}, a={a[0]})" if not sels(e) else f"kwf(a={a[0]}, b={a[1]})"
        if op == "va":
            return call("va", a, None) if not curry else f"va({a[0]}, {a[1]})"
        if op in ("myif", "k", "s", "dup", "sw", "pr", "catch"):
            return call(op, a, ["x", "y", "z"][:len(a)]) if not sels(e) else f"{op}({', '.join(a)})"
        if op in ("fst", "snd"):
            return call(op, a, ["t"]) if e["k"][0]["op"] not in ("ref", "ift", "kt") else f"{op}({a[0]})"      # in a container, a bare name is an expression
        if op in ("catcht", "kt"):
            return f"{op}({', '.join(a)})"
        if op == "lam":
            return f"(lambda x, y: {a[0]})({a[1]}, {a[2]})" if pick(2) else f"(lambda x, y: {a[0]})(x={a[1]}, y={a[2]})"
        if op == "lamt":
            return f"(lambda t: {a[0]})({a[1]})"
        if op == "app":
            return f"app((lambda x: {a[0]}), {a[1]})"
        if op == "let":
            return [f"let[x << {a[1]}][{a[0]}]", f"let[[x, {a[1]}], {a[0]}]", f"let[[x << {a[1]}] in {a[0]}]"][pick(3) if op != "let" else 2 * pick(2)]
        if op == "lett":
            return f"let[t << {a[1]}][{a[0]}]"
        if op == "let2":
            return f"let[x << {a[1]}, y << {a[2]}][{a[0]}]"
        if op == "letseq":
            return f"letseq[[x << {a[1]}, y << {a[2]}] in {a[0]}]"
        if op == "letrec":
            return f"letrec[[x << {a[1]}, y << {a[2]}] in {a[0]}]"
        raise ValueError(op)
    body = go(case["e"])
    out = ["from unpythonic.syntax import macros, lazify, tco, autocurry, continuations, namedlambda, let, letseq, letrec, do  # noqa", f"with {head}:"]
    out += LIB.splitlines()[1:]
    if pick(2):
        out += ["    def main(x, y, t):", f"        return {body}", "    result = main(ev(8), bad(9), (ev(5), ev(0)))"]
    else:
        out += ["    def main(x, y, t):", f"        r = {body}", "        return r", "    result = main(ev(8), bad(9), (ev(5), ev(0)))"]
    return "\n".join(out) + "\n"


def sels(e):
    """Arguments that are looked up at the call, in order"""
    return any(q["op"] == "sel" for q in e["k"])


def has(e, op):
    return e["op"] == op or any(has(q, op) for q in e["k"])


def val(v):
    return v["n"] if v["k"] == "i" else tuple(val(q) for q in v["c"])


def replay(case):
    h = zlib.crc32(json.dumps(case, sort_keys=True).encode())
    want = f"ValueError {case['v']['n']}" if case["v"]["k"] == "x" else repr(val(case["v"]))
    heads = [q for q in HEADS[1:] if ("tco" not in q and "cont" not in q) or not has(case["e"], "and")]      # the tail position of an and: see TailMac
    for head in (HEADS[0], heads[h % len(heads)]):
        src = render(case, h, head)
        log = []

        def back(v, cc):      # in a tail call of continuation-enabled code, there is a continuation to return to
            return v if cc is None else jump(cc, v)

        def ev(k, cc=None):
            log.append(k)
            return back(k, cc)

        class Bad(ValueError):
            def __str__(self):
                return str(self.k)

        def bad(k, cc=None):
            log.append(k)
            e = Bad() if h % 2 else Bad(k)
            e.k = k
            raise e

        def add(a, b, cc=None):
            log.append(100 + a + b)
            return back(a + b, cc)

        def tot(t, cc=None):
            log.append(100 + total(t))
            return back(total(t), cc)
        m = types.ModuleType("prog")
        m.__dict__.update(__file__="prog.py", ev=ev, bad=bad, add=add, tot=tot, total=total, log=log)
        sys.modules["prog"] = m
        try:
            mrun(src, m)
            got = repr(m.result)
        except ValueError as e:
            got = f"ValueError {e}"
        except Exception as e:
            while e.__cause__ is not None:
                e = e.__cause__
            got = f"{type(e).__name__}: {e}"
        if got != want:
            return f"gives {got}, specification {want}; with {head}; {src[src.index('def main'):]}"
        if log != case["log"]:
            return f"evaluates {log}, specification {case['log']}; with {head}; {src[src.index('def main'):]}"
    return None
