"""Signatures: cases of Sig.tla against unpythonic.arity and unpythonic.fun.partial."""
import functools
import itertools

from unpythonic.arity import (arities, arity_includes, required_kwargs, optional_kwargs, kwargs, resolve_bindings,
                              resolve_bindings_partial, tuplify_bindings, getfunc)
from unpythonic import curry
from unpythonic.fun import partial
from unpythonic.dispatch import generic

_n = itertools.count()
DV = {"p": None, "a": None, "b": False, "k": -1, "j": None}      # default values


def params(s, ann=(), types="int", before=()):
    """Parameter list as source text."""
    names = ["p"][:s["po"]] + ["a", "b"][:s["pk"]]
    out = []

    def one(x, i):
        t = f": {types}" if x in ann else ""
        return x + t + (f" = {DV[x]!r}" if i > len(names) - s["d"] else "")
    for i, x in enumerate(names, 1):
        out.append(one(x, i))
        if s["po"] and i == s["po"]:
            out.append("/")
    if s["star"]:
        out.append("*rest" + (f": {TUP}" if "*" in ann else ""))
    elif s["kwo"]:
        out.append("*")
    for x in s["kwo"]:
        out.append(x + (f": {types}" if x in ann else "") + (f" = {DV[x]!r}" if x == "j" else ""))
    if s["kw"]:
        out.append("**kw" + (f": {DIC}" if "*" in ann else ""))
    return ", ".join(list(before) + out)


TUP, DIC = "typing.Tuple[int, ...]", "typing.Dict[str, int]"
ALL = ("p", "a", "b", "k", "j", "*")


def result(s):
    names = ["p"][:s["po"]] + ["a", "b"][:s["pk"]] + list(s["kwo"])
    d = "dict(" + ", ".join(f"{x}={x}" for x in names) + ")"
    return f"({d}, {'rest' if s['star'] else '()'}, {'kw' if s['kw'] else '{}'})"


def define(src, **ns):
    import typing
    ns.update(typing=typing, generic=generic, functools=functools)
    exec(src, ns)
    return ns


def make(s, kind, ann=(), ret=""):
    b = f"return {result(s)}"
    P = params(s, ann)
    if s["po"] and P.startswith("p, /"):
        mP = "self, " + P
    else:
        mP = "self, " + P if P else "self"
    if kind in ("function", "partial1", "curried", "wrapped"):
        f = define(f"def f({P}){ret}:\n    {b}\n")["f"]
        if kind == "partial1":
            return functools.partial(f, "x")
        if kind == "curried":
            return curry(f)
        if kind == "wrapped":
            return functools.wraps(f)(lambda *a, **k: f(*a, **k))
        return f
    if kind == "lambda":
        return define(f"f = lambda {P}: {result(s)}\n")["f"]
    star = s["star"] and not s["po"] and not s["pk"]
    # a method that receives self in *rest, if it has no other parameter
    if star and kind in ("bound", "classmethod", "instclassmethod"):
        mP = P
        b = f"rest = rest[1:]; {b}"
    cls = define(f"class C:\n"
                 f"    def m({mP}):\n        {b}\n"
                 f"    @classmethod\n    def c({mP}):\n        {b}\n"
                 f"    @staticmethod\n    def s({P}):\n        {b}\n"
                 f"    def __call__({'self, ' + P if P else 'self'}):\n        return {result(s)}\n")["C"]
    if kind == "class":
        return define(f"class C:\n    def __init__({'self, ' + P if P else 'self'}):\n        self.r = {result(s)}\n")["C"]
    return {"bound": lambda: cls().m, "unbound": lambda: cls.m, "classmethod": lambda: cls.c, "instclassmethod": lambda: cls().c,
            "static": lambda: cls.s, "inststatic": lambda: cls().s, "object": lambda: cls()}[kind]()


def make_generic(sigs, kind):
    types = ["int", "str"]
    if kind == "generic":
        name = f"g{next(_n)}"
        src = "".join(f"@generic\ndef {name}({params(s, ALL, t)}):\n    return {i}\n" for i, (s, t) in enumerate(zip(sigs, types)))
        return define(src, __name__=f"m{next(_n)}")[name]
    dec = {"genbound": "", "genclass": "    @classmethod\n", "genstatic": "    @staticmethod\n", "geninherit": ""}[kind]
    first = [] if kind == "genstatic" else ["cls" if kind == "genclass" else "self"]

    def body(s, t, i):
        return f"{dec}    @generic\n    def m({params(s, ALL, t, before=first)}):\n        return {i}\n"
    name = f"K{next(_n)}"
    if kind == "geninherit":
        src = f"class {name}B:\n{body(sigs[0], types[0], 0)}\nclass {name}({name}B):\n{body(sigs[1], types[1], 1)}\n"
    else:
        src = f"class {name}:\n{body(sigs[0], types[0], 0)}{body(sigs[1], types[1], 1)}"
    C = define(src, __name__=f"m{next(_n)}")[name]
    return C.m if kind == "genclass" and next(_n) % 2 else C().m


def insp(c):
    f = make_generic(c["sigs"], c["kind"]) if c["kind"].startswith("gen") else make(c["sigs"][0], c["kind"])
    want = (c["lo"], float("+inf") if c["hi"] == 1000 else c["hi"])
    got = arities(f)
    if got != want:
        return f"arities gives {got}, specification {want}"
    for n in range(0, 6):
        if arity_includes(f, n) != (want[0] <= n <= want[1]):
            return f"arity_includes(..., {n}) gives {arity_includes(f, n)}, specification {want}"
    got = (required_kwargs(f), optional_kwargs(f), kwargs(f))
    want = (set(c["req"]), set(c["opt"]), (set(c["req"]), set(c["opt"])))
    if got != want or type(got[0]) is not set:
        return f"keyword-only arguments are reported as {got}, specification {want}"
    kind = getfunc(f)[1]
    w = {"bound": "instancemethod", "classmethod": "classmethod", "instclassmethod": "classmethod", "genbound": "instancemethod", "genclass": "classmethod", "geninherit": "instancemethod"}.get(c["kind"], "function")
    if kind != w:
        return f"getfunc says {kind}, specification {w}"
    return None


def expected(s, b, val):
    """BoundArguments.arguments as an ordered list of items."""
    names = ["p"][:s["po"]] + ["a", "b"][:s["pk"]]
    out = []
    for x in names + ["*"] + list(s["kwo"]):
        if x == "*":
            if s["star"]:
                out.append(("rest", tuple(val(i) for i in range(len(b["pos"]) + 1, len(b["pos"]) + b["rest"] + 1))))
        elif x in b["pos"]:
            out.append((x, val(b["pos"].index(x) + 1)))
        elif x in b["named"]:
            out.append((x, val(x)))
        elif x in b["dflt"]:
            out.append((x, DV[x]))
    if s["kw"]:
        out.append(("kw", {x: val(x) for x in sorted(b["kw"])}))
    return out


def attempt(f):
    try:
        return ["value", f()]
    except TypeError:
        return ["TypeError"]


def as_result(s, items):
    d = dict(items)
    return (  {k: v for k, v in d.items() if k not in ("rest", "kw")}, d.get("rest", ()), d.get("kw", {}))


def bind(c):
    s = c["s"]
    if s["po"] and s["kw"] and "p" in c["ns"]:
        return None      # Python itself is inconsistent here
    val = lambda x: f"v{x}"
    args = [val(i) for i in range(1, c["n"] + 1)]
    kw = {x: val(x) for x in c["ns"]}
    for kind in ("function", "bound", "static", "classmethod", "lambda"):
        f = make(s, kind)
        real = attempt(lambda: f(*args, **kw))
        want = ["value", as_result(s, expected(s, c["full"], val))] if c["full"]["ok"] else ["TypeError"]
        if real != want:
            return f"MODEL: Python itself gives {real}, specification {want}"
        for what, res, b in (("resolve_bindings", resolve_bindings, c["full"]), ("resolve_bindings_partial", resolve_bindings_partial, c["part"])):
            got = attempt(lambda: list(res(f, *args, **kw).arguments.items()))
            if got[0] == "value":
                got = ["value", [(k, dict(sorted(v.items())) if k == "kw" else v) for k, v in got[1]]]
            want = ["value", expected(s, b, val)] if b["ok"] else ["TypeError"]
            if got != want:
                return f"{kind}: {what} gives {got}, specification {want}"
            if b["ok"]:
                key = tuplify_bindings(res(f, *args, **kw))
                hash(key)
                if key != tuplify_bindings(res(f, *args, **kw)):
                    return f"{kind}: tuplify_bindings gives different keys for the same call"
                if [k for k, v in key] != [k for k, v in want[1]] or any(v != w for (k, v), (_, w) in zip(key, want[1]) if k != "kw") \
                        or any(sorted(v) != sorted(w.items()) for (k, v), (_, w) in zip(key, want[1]) if k == "kw"):
                    return f"{kind}: tuplify_bindings gives {key}, specification {want[1]}"
    return None


def part(c):
    s = c["s"]
    if s["po"] and s["kw"] and any("p" in t["ns"] for t in c["steps"]):
        return None
    f = make(s, "function", ann=c["ann"], ret=" -> str" if len(c["ann"]) % 2 else "")
    p, pos, names = f, [], {}
    for i, t in enumerate(c["steps"]):
        args = [f"s{i}" if t["bad"] == f"p{j}" else 100 * i + j for j in range(1, t["n"] + 1)]
        kw = {x: f"s{i}" if t["bad"] == x else 1000 * i + 7 for x in t["ns"]}
        pos += args
        names.update(kw)
        if i < 2:
            try:
                q = partial(p, *args, **kw)
                got = "ok"
            except TypeError:
                got = "TypeError"
            want = c["out"][i]
            if want == "any":
                return None
            if got != want:
                return f"partial step {i + 1} ({args}, {kw}) gives {got}, specification {want}"
            if want != "ok":
                return None
            p = q
        else:
            got = attempt(lambda: p(*args, **kw))
            val = lambda x: pos[x - 1] if isinstance(x, int) else names[x]
            want = ["value", as_result(s, expected(s, c["full"], val))] if c["full"]["ok"] else ["TypeError"]
            if got != want:
                return f"the call gives {got}, specification {want}"
            if p.func is not f:
                return "nested partials are not collapsed"
    return None


def replay(case):
    return {"insp": insp, "bind": bind, "part": part}[case["m"]](case)
