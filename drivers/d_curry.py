"""Currying, composition, pipes: behaviours of Curry.tla against unpythonic.fun and unpythonic.seq."""
from functools import partial as fpartial

from unpythonic import (curry, iscurried, dyn, Values, composel, composer, composelc, composerc, composeli, composeri, composelci,
                        composerci, pipe, pipec, piped, lazy_piped, exitpipe, composel1, composer1, pipe1, piped1, lazy_piped1)

SIGS = {1: ("a, b", "data", 0), 2: ("a, b, *, k", "data", 0), 3: ("a, *rest", "vals", 0), 4: ("a, b=DEF", "fn", 1),
        5: ("*, k, j=DEF", "kwvals", 0), 6: ("a, **kw", "data", 0), 7: ("", "cfn", 3), 8: ("a, *, k=DEF", "val1", 0),
        9: ("a, b=DEF, *rest, k, **kw", "data", 0), 10: ("a", "fvals", 2), 11: ("a", "cfn", 10), 12: ("a, b=DEF", "kwonly", 0),
        13: ("a", "data", 0), 14: ("a, b", "vals", 0), 15: ("a", "fn", 4), 16: ("a", "nested", 0)}
DEF = object()


class World:
    def __init__(self):
        self.calls = []
        self.f = {}
        self.c = {}
        self.nested = {}

    def fn(self, i):
        if i not in self.f:
            sig, ret, g = SIGS[i]
            ns = {"DEF": DEF, "body": self.body}
            exec(f"def f{i}({sig}):\n    return body({i}, dict(locals()))\n", ns)
            self.f[i] = ns[f"f{i}"]
        return self.f[i]

    def cfn(self, i):
        if i not in self.c:
            self.c[i] = curry(self.fn(i))
        return self.c[i]

    def val(self, n):
        """Values as passed; some of them are falsy."""
        if n > 3000 and n < 4000:      # a value that is itself a Values
            return self.nested.setdefault(n, Values(n, w=n) if n % 2 else Values(n))
        return {11: None, 21: 0, 15: (), 1001: None}.get(n, n) if n > 0 else n

    def body(self, i, loc):
        rest = loc.pop("rest", ())
        kw = loc.pop("kw", {})
        self.calls.append({"f": i, "b": {k: v for k, v in loc.items() if v is not DEF}, "rest": list(rest), "kw": kw})
        n = len(self.calls)
        v1, v2 = self.val(1000 + n), self.val(2000 + n)
        sig, ret, g = SIGS[i]
        return {"data": lambda: v1, "vals": lambda: Values(v1, v2), "fn": lambda: self.fn(g), "cfn": lambda: self.cfn(g),
                "fvals": lambda: Values(self.fn(g), v2), "kwvals": lambda: Values(v1, z=v2), "kwonly": lambda: Values(k=v1),
                "val1": lambda: Values(v1), "nested": lambda: Values(self.val(3000 + n))}[ret]()

    def expval(self, n):
        if n <= -100:
            return self.cfn(-100 - n)
        if n < 0:
            return self.fn(-n)
        return self.val(n)

    def same(self, n, v):
        if n == 9000:
            return callable(v) and iscurried(v)
        e = self.expval(n)
        return v is e or (type(v) is type(e) and v == e)

    def samef(self, f, d):
        f = f or {}
        return set(f) == set(d) and all(self.same(f[k], d[k]) for k in f)

    def check(self, exp, calls, out, exc):
        """None or a description of the difference."""
        got = f"raised {type(exc).__name__}: {exc}" if exc else f"{out!r}"
        if len(calls) != len(self.calls):
            return f"{len(self.calls)} calls made ({self.calls}), specification {calls}; result {got}"
        for c, d in zip(calls, self.calls):
            if c["f"] != d["f"] or not self.samef(c["b"], d["b"]) or not self.samef(c["kw"], d["kw"]) or len(c["rest"]) != len(d["rest"]) or \
               not all(self.same(x, y) for x, y in zip(c["rest"], d["rest"])):
                return f"function {d['f']} saw {d}, specification {c}"
        k = exp["k"]
        if k == "err":
            return None if isinstance(exc, TypeError) else f"{got}; specification: TypeError"
        if exc:
            return f"{got}; specification {exp}"
        if k == "curried":
            return None if callable(out) and iscurried(out) else f"{got}; specification: a curried function"
        if k == "plain":
            return None if self.same(exp["rets"][0], out) and isinstance(out, Values) == isinstance(self.expval(exp["rets"][0]), Values) else f"{got}; specification {exp}"
        if not isinstance(out, Values) or len(out.rets) != len(exp["rets"]) or not all(self.same(x, y) for x, y in zip(exp["rets"], out.rets)) \
           or not self.samef(exp["kw"], dict(out.kwrets.items())):
            return f"{got}; specification {exp}"
        return None


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def ctx(top):
    return dyn.let() if top else dyn.let(curry_context=["whatever"])


def replay(case):
    return replay_chain(case) if isinstance(case, dict) else replay_curry(case)


def replay_curry(case):
    for style in ("apply", "first", "deco", "rewrap"):
        w = World()
        root = case[0]["root"]
        c0 = w.cfn(root)
        if curry(c0) is not c0:
            return "currying a curried function makes a new function"
        objs = [c0]
        for j, st in enumerate(case):
            w.calls = []
            a = [w.val(10 * (j + 1) + i) for i in range(1, st["n"] + 1)]
            kw = {k: w.val(v) for k, v in (st["kw"] or {}).items()}
            target = objs[st["o"] - 1]
            with ctx(st["top"]):
                if style == "first" and st["o"] == 1 and (a or kw):      # curry(f, ...) is the first step
                    out, exc = attempt(lambda: curry(w.fn(root), *a, **kw))
                elif style == "rewrap" and (a or kw):
                    out, exc = attempt(lambda: curry(target, *a, **kw))
                elif style == "deco" and j == 0:
                    out, exc = attempt(lambda: curry(fpartial(w.fn(root)))(*a, **kw))
                else:
                    out, exc = attempt(lambda: target(*a, **kw))
            if dyn.curry_context != []:
                return f"{style} step {j + 1}: curry context left behind: {dyn.curry_context}"
            bad = w.check(st["r"], st["calls"], out, exc)
            if bad:
                return f"{style}, function ({SIGS[root][0]}), step {j + 1} of {[(s['o'], s['n'], s['kw'], s['top']) for s in case]}: {bad}"
            if st["new"]:
                objs.append(out)
    return None


def replay_chain(case):
    w = World()
    fs = [w.fn(i) for i in case["fs"]]
    a = [w.val(10 + i) for i in range(1, case["n"] + 1)]
    kw = {k: w.val(v) for k, v in (case["kw"] or {}).items()}
    cfs = [curry(f) for f in fs]
    rev = fs[::-1]
    unwrap = dict(case["r"])
    if unwrap["k"] == "values" and len(unwrap["rets"]) == 1 and not unwrap["kw"]:
        unwrap["k"] = "plain"      # a pipe delivers a single positional value as itself
    x = Values(*a, **kw) if kw or len(a) != 1 else a[0]
    skip_empty = unwrap["k"] == "values" and not unwrap["rets"] and not unwrap["kw"]
    if case["curried"]:
        forms = {"composelc": lambda: composelc(*fs)(*a, **kw), "composerc": lambda: composerc(*rev)(*a, **kw),
                 "composelci": lambda: composelci(iter(fs))(*a, **kw), "composerci": lambda: composerci(iter(rev))(*a, **kw),
                 "composel of curried": lambda: composel(*cfs)(*a, **kw), "composer of curried": lambda: composer(*cfs[::-1])(*a, **kw)}
        pforms = {"pipec": lambda: pipec(x, *fs), "pipe of curried": lambda: pipe(x, *cfs)}
    else:
        forms = {"composel": lambda: composel(*fs)(*a, **kw), "composer": lambda: composer(*rev)(*a, **kw),
                 "composeli": lambda: composeli(f for f in fs)(*a, **kw), "composeri": lambda: composeri(iter(rev))(*a, **kw),
                 "composel of composel": lambda: composel(composel(*fs[:1]), *([composel(*fs[1:])] if fs[1:] else []))(*a, **kw)}

        def viapiped():
            p = piped(*a, **kw)
            for f in fs:
                q = p
                p = p | f
                assert q is not p
            return p | exitpipe

        def vialazy():
            p = lazy_piped(*a, **kw)
            for f in fs:
                p = p | f
                if w.calls:
                    raise AssertionError("a lazy pipe ran before it was exited")
            return p | exitpipe
        pforms = {"pipe": lambda: pipe(x, *fs), "piped": viapiped, "lazy_piped": vialazy}
        if len(a) == 1 and not kw and all(i in (13, 15) for i in case["fs"]):
            for r in (forms, pforms):
                pass
            forms["composel1"] = lambda: composel1(*fs)(a[0])
            forms["composer1"] = lambda: composer1(*rev)(a[0])
            pforms["pipe1"] = lambda: pipe1(a[0], *fs)

            def p1(cls):
                p = cls(a[0])
                for f in fs:
                    p = p | f
                return p | exitpipe
            pforms["piped1"] = lambda: p1(piped1)
            pforms["lazy_piped1"] = lambda: p1(lazy_piped1)
    for group, exp in ((forms, case["r"]), (pforms, unwrap)):
        for name, f in group.items():
            if skip_empty and group is pforms:
                continue
            w.calls = []
            with ctx(case["top"]):
                out, exc = attempt(f)
            bad = w.check(exp, case["calls"], out, exc)
            if bad:
                return f"{name} of {[SIGS[i][0] for i in case['fs']]} on {a} {kw} (top={case['top']}): {bad}"
    return None
