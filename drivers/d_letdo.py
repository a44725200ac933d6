"""Replays LetDo.tla into the function forms."""
from unpythonic import (do, do0, assign, begin, begin0, lazy_begin, lazy_begin0, pipe, pipe1, piped, piped1, lazy_piped, lazy_piped1,
                        exitpipe, Values, pipec)
import sys
kw = sys.modules["unpythonic.let"]
import unpythonic.lispylet
ll = sys.modules["unpythonic.lispylet"]
from unpythonic.env import env

VALUES = {"0": 0, "1": None, "2": "two", "None": None}


def name(v):
    if callable(v):
        return "function"
    return {0: "0", None: "1", "two": "2"}[v]


def term(t, log, how):
    """The run-time value for a term: a constant, or a function of the environment."""
    if t["k"] == "const":
        return VALUES[t["v"]]
    n = t["n"]
    if t["k"] == "read":
        def read(e):
            v = e[n] if how % 2 else getattr(e, n)
            log.append([n, name(v)])
            return v
        return read
    v = VALUES[t["v"]]

    def rebind(e):
        if n not in e:
            raise AttributeError(n)
        if how % 3 == 0:
            e.set(n, v)
        elif how % 3 == 1:
            e << (n, v)
        else:
            setattr(e, n, v)
        log.append([n, name(v)])
        return v
    return rebind


def attempt(thunk, log):
    try:
        r = thunk()
        return {"v": name(r), "err": "", "log": log[:]}
    except AttributeError:
        return {"v": "", "err": "AttributeError", "log": log[:]}


def same(got, want, what, strict_none=False):
    w = {k: want[k] for k in ("v", "err", "log")}
    if w["v"] == "None":
        w["v"] = "1"
    if got != w:
        return f"{what}: got {got}, specification {w}"
    return None


def let_forms(c, exp):
    f, bs, body = c["f"], c["bs"], c["body"]
    dup = len({b["n"] for b in bs}) < len(bs)
    for how in range(3):
        for modname, m in (("let", kw), ("lispylet", ll)):
            if modname == "let" and dup:
                continue   # a keyword cannot repeat in Python
            form = getattr(m, f)
            log = []

            def mk():
                pairs = [(b["n"], term(b["t"], log, how)) for b in bs]
                return dict(pairs) if modname == "let" else (tuple(pairs) if how else list(pairs))
            ts = [term(t, log, how) for t in body]

            def run(e):
                e_fixed = list(e)
                for t in ts:
                    r = t(e)
                if list(e) != e_fixed:
                    raise RuntimeError("the set of names changed")
                try:
                    e.fresh = 1
                except AttributeError:
                    pass
                else:
                    raise RuntimeError("a let environment accepted a new name")
                return r
            call = (lambda: form(run, **mk())) if modname == "let" else (lambda: form(mk(), run))
            log.clear()
            r = same(attempt(call, log), exp[0], f"{modname}.{f}")
            if r:
                return r
            # without a body, the environment itself
            log.clear()
            try:
                e = form(None, **mk()) if modname == "let" else form(mk(), None)
                if not isinstance(e, env):
                    return f"{modname}.{f} without a body gives {e!r}"
            except AttributeError:
                if exp[0]["err"] == "" or log:
                    if exp[0]["err"] == "":
                        return f"{modname}.{f} without a body raises"
            # decorators
            d = getattr(m, "d" + f)
            log.clear()

            def deco():
                dd = d(**mk()) if modname == "let" else d(mk())

                @dd
                def fn(k=0, *, env):
                    return run(env)
                return fn
            fn = None

            def first():
                nonlocal fn
                fn = deco()
                return fn()
            r = same(attempt(first, log), exp[0], f"{modname}.d{f} first call")
            if r:
                return r
            if len(exp) > 1:
                log.clear()
                r = same(attempt(lambda: fn(1), log), exp[1], f"{modname}.d{f} second call")
                if r:
                    return r
            b = getattr(m, "b" + f)
            log.clear()

            def block():
                bb = b(**mk()) if modname == "let" else b(mk())

                @bb
                def result(*, env):
                    return run(env)
                return result
            r = same(attempt(block, log), exp[0], f"{modname}.b{f}")
            if r:
                return r
    return None


def do_forms(c, exp):
    for how in range(3):
        log = []

        def items():
            out = []
            for it in c["items"]:
                t = term(it["t"], log, how)
                out.append(assign(**{it["n"]: t}) if it["k"] == "assign" else t)
            return out
        f = {"do": do, "do0": do0}[c["f"]]
        r = same(attempt(lambda: f(*items()), log), exp[0], c["f"])
        if r:
            return r
    vals = [i for i, _ in enumerate(c["items"])]
    log = []
    thunks = [lambda i=i: log.append(i) or (None if i == 0 else i) for i in vals]
    if begin(*vals) != vals[-1] or begin0(*vals) != vals[0]:
        return "begin/begin0"
    if lazy_begin(*thunks) != (vals[-1] or None) or log != vals:
        return "lazy_begin"
    log.clear()
    if lazy_begin0(*thunks) is not None or log != vals:
        return "lazy_begin0"
    return None


class Fs:
    def __init__(self):
        self.log = []

    def get(self, f):
        def note(fn):
            def g(*a, **k):
                r = fn(*a, **k)
                self.log.append(f)
                return r
            return g
        fns = {"inc": lambda x: x + 1, "dup": lambda x: Values(x, x * 10), "add": lambda x, y: x + y, "name": lambda x: Values(out=x + 5),
               "kw": lambda *, out: out * 2, "none": lambda x: 0}
        return note(fns[f])


def flat(v):
    if isinstance(v, Values):
        return {"p": list(v.rets), "kw": list(v.kwrets.values()), "e": ""}
    return {"p": [v], "kw": [], "e": ""}


def pipes(c, exp):
    x, fs = c["x"], c["fs"]
    single = all(f in ("inc", "none") for f in fs) and len(x) == 1
    runs = {}

    def piped_(ctor, init):
        def go(F):
            p = ctor(*init)
            for f in fs:
                q = p | F.get(f)
                if type(q) is not type(p) or q is p:
                    raise RuntimeError("| must give a new pipe")
                p = q
            return p | exitpipe
        return go
    runs["pipe"] = lambda F: pipe(Values(*x) if len(x) > 1 else x[0], *map(F.get, fs))
    runs["piped"] = piped_(piped, x)
    runs["lazy_piped"] = piped_(lazy_piped, x)
    if single:
        runs["pipe1"] = lambda F: pipe1(x[0], *map(F.get, fs))
        runs["piped1"] = piped_(piped1, x)
        runs["lazy_piped1"] = piped_(lazy_piped1, x)
    for nm, run in runs.items():
        F = Fs()
        try:
            got = flat(run(F))
        except TypeError:
            got = {"p": [], "kw": [], "e": "TypeError"}
        if got != exp["r"]:
            return f"{nm}: {got}, specification {exp['r']}"
        if F.log != fs[:exp["n"]]:
            return f"{nm}: ran {F.log}, specification {fs[:exp['n']]}"
    # a lazy pipe computes nothing until asked, and can be shared by several continuations
    F = Fs()
    p = lazy_piped(*x)
    for f in fs:
        p = p | F.get(f)
    if F.log:
        return "lazy_piped ran a function before the exit"
    if exp["r"]["e"] == "":
        a = flat(p | exitpipe)
        b = flat(p | exitpipe)
        if a != b or a != exp["r"]:
            return f"a lazy pipe run twice gives {a} and {b}"
    return None


def replay(case):
    c = case["c"]
    if c["f"] in ("let", "letrec"):
        return let_forms(c, case["r"])
    if c["f"] in ("do", "do0"):
        return do_forms(c, case["r"])
    return pipes(c, case["r"])
