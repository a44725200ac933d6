"""Renders the behaviours of Autoref.tla as programs with nested autoref blocks, and runs them."""
import json
import sys
import types
import zlib

import mcpyrate.activate  # noqa: F401
from mcpyrate.compiler import run as mrun
import unpythonic.syntax  # noqa: F401
from unpythonic.env import env

CASE_TIMEOUT = 60


class Plain:
    pass


class Falsy:
    def __bool__(self):
        return False


class Computed:            # attributes through __getattr__
    def __init__(self):
        object.__setattr__(self, "_d", {})

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        try:
            return self._d[k]
        except KeyError:
            raise AttributeError(k) from None

    def __setattr__(self, k, v):
        self._d[k] = v

    def __delattr__(self, k):
        del self._d[k]


class Hostile:             # an attribute that is there but cannot be read is a missing one
    @property
    def b2(self):
        raise AttributeError


KINDS = [Plain, Falsy, Computed, env, Hostile]
READS = ["{n}", "(lambda: {n})()", "[{n} for _i in (0,)][0]", "({n},)[0]", "{{'k': {n}}}['k']", "same({n})", "same(x={n})", "same(*[{n}])",
         "let[[z, 5] in [z, {n}]]", "let[[z, {n}] in z]", "do[local[y << {n}], y]", "({n} if True else 0)", "(lambda a_={n}: a_)()",
         "(lambda f_: f_())(lambda: {n})", "holder(m={n}).m", "same(same)({n})", "(None or {n})"]


def val(v):
    return "None" if v == 0 else f"obj{v}" if v > 100 else f"{v}"


def program(case, seed):
    h = [seed]

    def pick(n):
        h[0] = zlib.crc32(b"%d" % h[0])
        return (h[0] >> 4) % n
    out = ["from unpythonic.syntax import macros, autoref, let, do, local", "from ioput import *", "p = obj101"]
    ind, want = 0, []

    def put(s):
        out.append("    " * ind + s)
    for st in case:
        op, n, v, r = st["op"], st["n"], st["v"], st["r"]
        if op == "enter":
            put(f"with autoref[{['p', 'once(p)', '(lambda: p)()'][pick(3)]}]:")
            ind += 1
            put("pass")
        elif op == "enteras":
            put(f"with autoref[{['p', 'once(p)'][pick(2)]}] as {n}:")
            ind += 1
            put("pass")
        elif op == "leave":
            ind -= 1
        elif op == "assign":
            put([f"{n} = {val(v)}", f"for {n} in ({val(v)},): pass", f"{n}, _j = {val(v)}, 0"][pick(3)])
        elif op == "incr":
            put(f"{n} += 20")
        elif op == "del":
            put(f"del {n}")
        elif op == "setattr":
            put([f"obj{r}.{n} = {val(v)}", f"setattr(obj{r}, {n!r}, {val(v)})"][pick(2)])
        elif op == "delattr":
            put([f"del obj{r}.{n}", f"delattr(obj{r}, {n!r})"][pick(2)])
        elif op == "close":
            if pick(2):
                put(f"clo{v} = lambda: {n}")
            else:
                put(f"def clo{v}():")
                put(f"    return {n}")
        elif op == "call":
            put("try:")
            want.append(r)
            put(f"    log(clo{v}())")
            put("except NameError:")
            put("    log(UNBOUND)")
        for x in st["see"]:
            if not pick(3 if x[0] == "q" else 2) == 1:
                continue
            e = READS[pick(len(READS))].format(n=x)
            put("try:")
            put(f"    {'log({})' if pick(3) else 'log(x={})' if pick(2) else 'tmp_ = {}; log(tmp_)'}".replace("{}", e))
            put("except NameError:")
            put("    log(UNBOUND)")
            want.append(st["see"][x])
    return "\n".join(out) + "\n", want


def replay(case):
    seed = zlib.crc32(json.dumps(case).encode())
    for k in range(2):
        log, onces = [], []
        objs = {o: KINDS[(seed // 7 + k * 3 + o) % len(KINDS)]() for o in (101, 102, 103)}

        def once(x):
            onces.append(x)
            return x

        def decode(v):
            for o, x in objs.items():
                if v is x:
                    return o
            return 0 if v is None else v
        io = types.ModuleType("ioput")
        io.__dict__.update(log=lambda x: log.append(decode(x)), UNBOUND=-1, once=once, same=lambda x: x, holder=lambda m: types.SimpleNamespace(m=m),
                           **{f"obj{o}": x for o, x in objs.items()})
        io.__all__ = [x for x in io.__dict__ if not x.startswith("_")]
        sys.modules["ioput"] = io
        src, want = program(case, seed + k)
        m = types.ModuleType("autoref_case")
        m.__file__ = "<autoref>"
        sys.modules["autoref_case"] = m
        try:
            mrun(src, m)
        except Exception as e:
            return f"{type(e).__name__}: {e} in\n{src}"
        if log != want:
            return f"read {log}, specification {want}, in\n{src}"
        if len(onces) != src.count("once(p)"):
            return f"block objects evaluated {len(onces)} times in\n{src}"
        attrs = {}
        for st in case:
            if st["op"] == "setattr":
                attrs[st["r"], st["n"]] = st["v"]
            elif st["op"] == "delattr":
                del attrs[st["r"], st["n"]]
        now = {(o, n): decode(getattr(x, n)) for o, x in objs.items() for n in ("a", "b", "p", "q1", "q2", "q3") if hasattr(x, n)}
        if now != attrs:
            return f"the objects have {now}, specification {attrs}, after\n{src}"
    return None
