"""Replays behaviours of Tail.tla: every body asks the script what to do next."""
import sys

from unpythonic import (trampolined, jump, looped, looped_over, breakably_looped, breakably_looped_over)


class Mismatch(BaseException):
    pass


class End(BaseException):
    pass


class Boom(Exception):
    pass


def depth():
    f, n = sys._getframe(1), 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


SLACK = 6


class V:
    """Values used in a behaviour: step number -> Python object, falsy ones included."""
    def __getitem__(self, n):
        return {0: None, 2: 0, 3: (), 5: False}.get(n % 7, n) if n else "default"


VAL = V()


def same(a, b):
    return type(a) is type(b) and a == b


def replay(case):
    pos, pending = 0, None
    brks = {}
    tail_depth = {}
    fs = {}

    def take():
        nonlocal pos, pending
        if pos >= len(case):
            raise End
        pos += 1
        pending = (pos, case[pos - 1])
        return pending

    def arrive(at, how, of, v):
        nonlocal pending
        n, st = pending
        pending = None
        got = (dict(at, acc=repr(at["acc"]), ext=repr(at["ext"])), how, of, repr(v))
        w = st["at"]
        want = (dict(w, acc=repr(VAL[w["acc"]]), ext=repr(VAL[w["ext"]])), st["how"], st["of"],
                repr(VAL[st["v"]] if st["how"] == "value" else st["v"]))
        if got != want:
            raise Mismatch(f"step {n} {st['op']}({st['arg']}): control/values (at, how, of, value)={got}, specification {want}")

    stack = [dict(id=0, k="", fn="", x=0, acc="default", ext="default")]   # what the driver knows about who is running (by start)

    def body_arrive(me_id, k, fn, x, acc, ext):
        """A body of computation me_id starts running."""
        how = "tail" if me_id in seen else "enter"
        seen.add(me_id)
        if how == "tail":
            d = depth()
            if me_id in tail_depth and d > tail_depth[me_id] + SLACK:
                raise Mismatch(f"step {pending}: the Python stack grew from {tail_depth[me_id]} to {d} frames in tail calls of computation {me_id}")
            tail_depth.setdefault(me_id, d)
        me = dict(id=me_id, k=k, fn=fn, x=x, acc=acc, ext=ext)
        arrive(me, how, me_id, 0)
        return me

    seen = set()
    current = []       # ids of running computations, innermost last

    def make(name):
        def f(v="default", *, left=0, nxt=None):
            if left:   # inside a long chain
                return jump(fs[nxt], v, left=left - 1, nxt=name) if left > 1 else jump(fs[nxt], v)
            me = body_arrive(current[-1], "f", name, 0, v, "default")
            return act(me, None, None, None)
        f.__name__ = name
        return f

    def start(me, fn):
        """Run thunk fn as a new computation of the pending step; deliver its outcome to me."""
        n, st = pending
        current.append(n)
        guard = st["arg"]["g"]
        try:
            if guard:
                try:
                    v = fn(n)
                except Boom as e:
                    del current[current.index(n):]
                    arrive(me, "exc", n, e.args[0])
                    return
            else:
                v = fn(n)
        finally:
            if n in current:
                del current[current.index(n):]
        arrive(me, "value", n, v)

    def source(k, bad, n):
        if bad:
            def elements():
                yield from range(1, k + 1)
                raise Boom(pending[0])
            return elements()
        return range(1, k + 1) if n % 2 else iter(list(range(1, k + 1)))

    def act(me, loop, cnt, brk):
        while True:
            n, st = take()
            op, a = st["op"], st["arg"]
            if op == "call":
                start(me, lambda n: fs[a["fn"]](VAL[n]))
            elif op == "l":
                def run_l(n):
                    @looped
                    def r(loop, acc="default", ext="default"):
                        m = body_arrive(n, "l", "", 0, acc, ext)
                        return act(m, loop, None, None)
                    return r
                start(me, run_l)
            elif op == "b":
                def run_b(n):
                    @breakably_looped
                    def r(loop, brk, acc="default", ext="default"):
                        brks[n] = brk
                        m = body_arrive(n, "b", "", 0, acc, ext)
                        return act(m, loop, None, brk)
                    return r
                start(me, run_b)
            elif op == "lo":
                def run_lo(n):
                    src = source(a["n"], a["b"], n)

                    @looped_over(src, acc=VAL[n])
                    def r(loop, x, acc, ext="default"):
                        m = body_arrive(n, "lo", "", x, acc, ext)
                        return act(m, loop, None, None)
                    return r
                start(me, run_lo)
            elif op == "bo":
                def run_bo(n):
                    src = source(a["n"], a["b"], n)

                    @breakably_looped_over(src, acc=VAL[n])
                    def r(loop, x, acc, cnt, brk, ext="default"):
                        brks[n] = brk
                        m = body_arrive(n, "bo", "", x, acc, ext)
                        return act(m, loop, cnt, brk)
                    return r
                start(me, run_bo)
            elif op == "jump":
                if not a["a"]:
                    return jump(fs[a["fn"]])
                return jump(fs[a["fn"]], VAL[n]) if n % 2 else jump(fs[a["fn"]], v=VAL[n])
            elif op == "chain":
                return jump(fs[a["fn"]], VAL[n], left=a["n"] - 1, nxt=a["a"])
            elif op == "loop":
                if not a["a"]:
                    return loop()
                if not a["e"]:
                    return loop(VAL[n])
                return loop(VAL[n], VAL[n]) if n % 2 else loop(VAL[n], ext=VAL[n])
            elif op == "cnt":
                return cnt(VAL[n]) if a["e"] and n % 2 else cnt(ext=VAL[n]) if a["e"] else cnt()
            elif op == "brk":
                brks[a["n"]](VAL[n])
                raise Mismatch(f"step {n}: brk returned")
            elif op == "return":
                return VAL[n]
            elif op == "raise":
                raise Boom(n)
            else:
                raise AssertionError(op)
    for name in ("f", "g", "p"):
        fs[name] = make(name)
        if name != "p":           # p is a plain function, only ever jumped into
            fs[name] = trampolined(fs[name])
    plain_m = make("m")

    class Obj:                    # m is a decorated method
        @trampolined
        def m(self, *args, **kwargs):
            if type(self) is not Obj:
                raise Mismatch(f"the method got {self!r} instead of its instance")
            return plain_m(*args, **kwargs)
    fs["m"] = Obj().m
    zero = dict(id=0, k="", fn="", x=0, acc="default", ext="default")
    try:
        while True:
            try:
                act(zero, None, None, None)
                raise Mismatch("left the top level")
            except Boom as e:
                current.clear()
                arrive(zero, "exc", 0, e.args[0])
    except Mismatch as e:
        return str(e)
    except End:
        return None
