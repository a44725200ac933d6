"""Memoized functions: sequential behaviours of Memo.tla, and recorded concurrent runs."""
import json
import os
import zlib

from vp import sched
PKG = sched.install(os.environ["VP_REPO"])
FILES = (os.path.join(PKG, "fun."),)

import unpythonic.fun as F       # noqa: E402


class Boom(Exception):
    pass


class BoomB(BaseException):
    pass


DEP = {1: [], 2: [], 3: [1], 4: [1, 2], 5: [], 6: [3, 5]}
VALUES = {1: lambda: None, 3: lambda: 0, 5: list}


class Fn:
    """One memoized function over keys 1..6; `shape` fixes its parameter list."""
    def __init__(self, shape, log=None, falsy=0):
        self.count = {k: 0 for k in DEP}
        self.noise = {}
        self.made = {}        # key -> object delivered
        self.shape = shape
        self.falsy = falsy
        log = log or (lambda e: None)

        def compute(k):
            if k >= 1000:       # many other arguments
                self.noise[k] = self.noise.get(k, 0) + 1
                return ("noise", k)
            self.count[k] += 1
            log({"e": "begin", "k": k})
            try:
                for d in DEP[k]:
                    self.call(d, k + d)
                if k in (2, 6):
                    self.made[k] = Boom(k) if k == 2 else BoomB(k)
                    raise self.made[k]
                if falsy:
                    self.made[k] = {1: None, 3: (0, False, "", 0.0)[falsy % 4], 5: []}[k]
                else:
                    self.made[k] = [k]
                return self.made[k]
            finally:
                log({"e": "end", "k": k})

        if shape == "ab":
            @F.memoize
            def f(a, b=0):
                return compute(a * 2 + b)
            # key k = 2a + b
            self.styles = lambda k: [((k // 2, k % 2), {})] + [((k // 2,), {"b": k % 2}), ((), {"b": k % 2, "a": k // 2})] + \
                ([((k // 2,), {}), ((), {"a": k // 2})] if k % 2 == 0 else [((), {"a": k // 2, "b": 1})])
        elif shape == "star":
            @F.memoize
            def f(*args, c=1):
                return compute(len(args) * 3 + c)
            # 3n + c, c in 1..3
            self.styles = lambda k: [((9,) * ((k - 1) // 3), {"c": (k - 1) % 3 + 1})] + ([((9,) * ((k - 1) // 3), {})] if k % 3 == 1 else [])
        elif shape == "kw":
            @F.memoize
            def f(k0, /, **kw):
                return compute(k0 if not kw else 3 + len(kw))
            self.styles = lambda k: [((k,), {})] if k <= 3 else [((7,), dict(zip("xyz"[:k - 3], range(3))))]
        elif shape == "kwval":      # the same names with other values are other bindings
            @F.memoize
            def f(**kw):
                return compute(kw.get("x", 0) + 3 * kw.get("y", 0))
            self.styles = lambda k: [((), {n: v for n, v in (("x", (k - 1) % 3 + 1), ("y", (k - 1) // 3)) if v})]
        elif shape == "default3":
            @F.memoize
            def f(a=1, b=1, *, c=0):
                return compute(a * b + c)
            # k: (1,1,k-1)  (k,1,0) are different bindings; use only (k,1,0)
            self.styles = lambda k: [((k,), {}), ((k, 1), {}), ((), {"a": k}), ((k,), {"c": 0}), ((), {"c": 0, "b": 1, "a": k})] + ([((), {})] if k == 1 else [])
        elif shape == "method":
            class C:
                @F.memoize
                def m(self, k):
                    return compute(k)
            o = C()
            f = o.m
            self.styles = lambda k: [((k,), {}), ((), {"k": k})]
        self.f = f

    def call(self, k, s):
        st = self.styles(k)
        a, kw = st[s % len(st)]
        return self.f(*a, **kw)

    def crowd(self):
        """Calls with many other arguments, twice each."""
        args = {"ab": lambda i: ((500 + i, 0), {}), "default3": lambda i: ((1000 + i,), {}), "method": lambda i: ((1000 + i,), {}), "kwval": lambda i: ((), {"x": 1000 + i}),
                "star": lambda i: ((), {"c": 1000 + i}), "kw": lambda i: ((1000 + i,), {})}[self.shape]
        for _ in range(2):
            for i in range(1500):
                a, kw = args(i)
                v = self.f(*a, **kw)
                if v[0] != "noise" or self.noise.get(v[1]) != 1:
                    return f"one of many calls: {v!r}, computed {self.noise.get(v[1])} times"
        if len(self.noise) != 1500:
            return f"{len(self.noise)} different computations for 1500 different arguments"

    def outcome(self, k, s):
        """The key whose object was delivered; 0 if none of them."""
        try:
            v = self.call(k, s)
            kind = 0
        except (Boom, BoomB) as e:
            v = e
            kind = 1
        for q in ([2] if k in (2, 4) else [k]):
            if q in self.made and self.made[q] is v and kind == (q in (2, 6)):
                return q
        return f"{'raised' if kind else 'returned'} {v!r}, not the object made for the key ({self.made.get(k)!r})"


SHAPES = ["ab", "star", "kw", "kwval", "default3", "method"]


def replay(case):
    many = zlib.crc32(json.dumps(case).encode()) % 40 == 0
    for sh in SHAPES:
        for falsy in (0, 1, 2):
            fns = {}
            for j, st in enumerate(case):
                fn = fns.setdefault(st["f"], None) or fns.__setitem__(st["f"], Fn(sh, falsy=falsy + j if falsy else 0)) or fns[st["f"]]
                if many and falsy == 0 and j == len(case) - 1:
                    bad = fn.crowd()
                    if bad:
                        return f"{sh}: {bad}"
                r = fn.outcome(st["k"], st["s"])
                if r != st["r"]:
                    return f"{sh} step {j}: call for key {st['k']} style {st['s']}: {r}; specification: outcome of key {st['r']}"
                got = [fn.count[k] for k in range(1, 7)]
                if got != st["evals"]:
                    return f"{sh} step {j}: computations per key {got}, specification {st['evals']}"
    return None


def record(case):
    events = []
    fn = Fn(case["shape"], events.append, case.get("falsy", 0))
    bad = []

    def worker(plan):
        def run():
            for k, s in plan:
                r = fn.outcome(k, s)
                if not isinstance(r, int):
                    bad.append(f"call for key {k}: {r}")
                    return
                events.append({"e": "ret", "k": k, "r": r})
        return run
    s = sched.Sched(FILES, {int(a): b for a, b in case["preempt"]}, order=sorted(case["plan"]))
    s.run({n: worker(p) for n, p in case["plan"].items()})
    if s.exc:
        n, e = next(iter(s.exc.items()))
        return {"fail": f"thread {n} ended with {type(e).__name__}: {e} (schedule {case['preempt']})"}
    if bad:
        return {"fail": f"{bad[0]} (schedule {case['preempt']})"}
    return {"trace": events, "steps": s.step}
