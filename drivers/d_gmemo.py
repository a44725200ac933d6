"""Memoized generators: sequential behaviours of GMemo.tla, and recorded concurrent runs."""
import json
import os
import zlib

from vp import sched
PKG = sched.install(os.environ["VP_REPO"])
FILES = (os.path.join(PKG, "gmemo"),)

import unpythonic.gmemo as G       # noqa: E402


class Boom(BaseException):
    pass


class Boom2(Boom, Exception):
    pass


def build(kind, log, selfref=False):
    """A memoized gfunc over sources described by (n, how); log receives start/item/end events."""
    def source(n, how):
        log({"e": "start", "k": [n, how]})
        prev = None
        for i in range(1, n + 1):
            if selfref and i > 1:      # read the previous item through the memoized function itself
                it = make(n, how)
                for _ in range(i - 1):
                    prev = next(it)
                assert prev == ("item", n, how, i - 1), prev
            log({"e": "item", "k": [n, how], "i": i})
            yield ("item", n, how, i)
        log({"e": "end", "k": [n, how]})
        if how == "raise":
            raise (Boom if n % 2 else Boom2)(n, how)
    if kind == "g":
        make = G.gmemoize(source)
    elif kind == "fi":
        make = G.fimemoize(lambda n, how: source(n, how))
    elif kind == "gdef":
        @G.gmemoize
        def make(n, how="stop"):
            yield from source(n, how)
    else:
        cache = {}

        def make(n, how):     # imemoize: one iterable per source
            if (n, how) not in cache:
                cache[n, how] = G.imemoize(source(n, how))
            return cache[n, how]()
    return make


def call(make, kind, n, how, variant):
    if kind in ("g", "fi", "gdef"):
        if kind == "gdef" and how == "stop" and variant % 2:
            return make(n)
        return [lambda: make(n, how), lambda: make(n, how=how), lambda: make(how=how, n=n)][variant % 3]()
    return make(n, how)


def decode(r):
    return r


def advance(it, first_exc, key):
    try:
        v = next(it)
    except StopIteration:
        return 2000, None
    except Boom as e:
        if first_exc.setdefault(key, e) is not e:
            return None, "a different exception instance is raised"
        return 1000, None
    if tuple(v[:3]) != ("item",) + key:
        return None, f"item {v!r} does not belong to source {key}"
    return v[3], None


SLICES = [slice(a, b, c) for a in (None, 0, 1, -1, 9) for b in (None, 0, 2, -1) for c in (None, -1, 2)]


def outcome(f):
    try:
        return ["value", f()]
    except Boom as e:
        return ["boom", e]
    except IndexError:
        return ["IndexError"]
    except Exception as e:
        return [type(e).__name__]


def readable(it, memo):
    """The memoized part as a sequence: the exception is raised whenever it is reached."""
    if len(it) != len(memo):
        return f"len() is {len(it)}"

    def item(i):
        if not -len(memo) <= i < len(memo):
            raise IndexError
        if isinstance(memo[i], Boom):
            raise memo[i]
        return memo[i]

    def part(s):
        for x in memo[s]:
            if isinstance(x, Boom):
                raise x
        return memo[s]
    for i in range(-len(memo) - 2, len(memo) + 2):
        got, want = outcome(lambda: it[i]), outcome(lambda: item(i))
        if got != want or (want[0] == "boom" and got[1] is not want[1]):
            return f"subscript {i} gives {got}, specification {want}"
    for s in SLICES:
        got, want = outcome(lambda: it[s]), outcome(lambda: part(s))
        if got != want or (want[0] == "boom" and got[1] is not want[1]):
            return f"subscript {s} gives {got}, specification {want}"
    if outcome(lambda: it["0"])[0] != "TypeError":
        return "a string subscript is accepted"


def replay(case):
    many = zlib.crc32(json.dumps(case).encode()) % 60 == 0
    for kind in ("g", "fi", "i", "gdef"):
        for selfref in (False, True) if kind == "g" else (False,):
            events = []
            make = build(kind, events.append, selfref)
            its, exc = {}, {}
            for j, st in enumerate(case):
                k = tuple(st["k"])
                if many and j == len(case) - 1:
                    for i in range(200):
                        got = list(call(make, kind, 1 + (i % 7 == 0) * 40, f"other{i}", i))
                        if [v[2:] for v in got] != [(f"other{i}", n + 1) for n in range(len(got))] or len(got) != 1 + (i % 7 == 0) * 40:
                            return f"{kind}: one of many: {got}"
                if st["op"] == "new":
                    its[st["c"]] = (call(make, kind, k[0], k[1], j), k)
                    continue
                it, k = its[st["c"]]
                r, bad = advance(it, exc, k)
                if bad:
                    return f"{kind} step {j}: {bad}"
                if r != st["r"]:
                    return f"{kind} step {j}: consumer {st['c']} of {k} got {r}, specification {st['r']}"
                made = [e["i"] for e in events if e["e"] == "item" and e["k"] == list(k)]
                starts = sum(1 for e in events if e["e"] == "start" and e["k"] == list(k))
                if made != list(range(1, st["n"] + 1)):
                    return f"{kind} step {j}: the source of {k} has produced items {made}, specification 1..{st['n']}"
                if starts > 1:
                    return f"{kind} step {j}: the source of {k} was started {starts} times"
                memo = [("item",) + k + (i,) for i in range(1, st["items"] + 1)] + ([exc.get(k)] if st["fail"] else [])
                bad = readable(it, memo)
                if bad:
                    return f"{kind} step {j}: after {memo}: {bad}"
    return None


def record(case):
    """case: dict(kind, plan: {thread: [[n, how, count], ...]}, preempt: [[step, thread]...])"""
    events = []
    kind = case["kind"]
    make = build(kind, events.append, case.get("selfref", False))
    exc = {}
    bad = []
    counter = [0]

    def worker(plan, name):
        def run():
            for v, (n, how, count) in enumerate(plan):
                counter[0] += 1
                c = counter[0]
                it = call(make, kind, n, how, v)
                events.append({"e": "new", "c": c, "k": [n, how]})
                for _ in range(count):
                    r, b = advance(it, exc, (n, how))
                    if b:
                        bad.append(b)
                        return
                    events.append({"e": "got", "c": c, "r": r})
        return run
    plan = case["plan"]
    s = sched.Sched(FILES, {int(a): b for a, b in case["preempt"]}, order=sorted(plan))
    s.run({n: worker(p, n) for n, p in plan.items()})
    if bad:
        return {"fail": f"{bad[0]} (schedule {case['preempt']})"}
    if s.exc:
        n, e = next(iter(s.exc.items()))
        return {"fail": f"thread {n} ended with {type(e).__name__}: {e} (schedule {case['preempt']})"}
    return {"trace": events, "steps": s.step}
