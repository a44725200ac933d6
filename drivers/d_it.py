"""Replays It.tla: outputs, and how much of the input has been consumed when each of them is delivered."""
import itertools

import unpythonic as U
from unpythonic import islice as uslice

NN = 99


class Counted:
    def __init__(self, items):
        self.items, self.n = items, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.n >= len(self.items):
            raise StopIteration
        self.n += 1
        return self.items[self.n - 1]


class Boom:
    """An input that has no end: consuming past the promise is an error rather than a hang."""


def make(c, src, src2):
    f, n = c["f"], c["n"]
    par = lambda x: x % 2 == 1
    single = lambda thunk: iter(thunk() for _ in (0,))

    def chunks():
        for ch in U.chunked(n, src):
            yield tuple(ch)
    return {
        "take": lambda: U.take(n, src), "drop": lambda: U.drop(n, src), "tail": lambda: U.tail(src), "butlastn": lambda: U.butlastn(n, src),
        "butlast": lambda: U.butlast(src), "lastn": lambda: U.lastn(n, src), "nth": lambda: single(lambda: U.nth(n, src, default=8)),
        "first": lambda: single(lambda: U.first(src, default=8)), "second": lambda: single(lambda: U.second(src, default=8)),
        "last": lambda: single(lambda: U.last(src, default=8)), "pad": lambda: U.pad(n, 9, src), "scons": lambda: U.scons(7, src), "rev": lambda: U.rev(src),
        "splita": lambda: U.split_at(n, src)[0], "splitb": lambda: U.split_at(n, src)[1], "window": lambda: U.window(n, src), "chunked": chunks,
        "uniqify": lambda: U.uniqify(src), "uniqifykey": lambda: U.uniqify(src, key=par), "uniq": lambda: U.uniq(src), "uniqkey": lambda: U.uniq(src, key=par),
        "partf": lambda: U.partition(par, src)[0], "partt": lambda: U.partition(par, src)[1], "map": lambda: U.map(lambda x: x + 1, src),
        "flatmap": lambda: U.flatmap(lambda x: [x] * x, src), "allsame": lambda: single(lambda: int(U.allsame(src))),
        "iindex": lambda: single(lambda: iix(src)), "find": lambda: single(lambda: U.find(lambda x: x == 1, src, default=8)),
        "subset": lambda: single(lambda: int(U.subset(src, (0, 2)))), "subset2": lambda: single(lambda: int(U.subset(src, src2.items))),
        "powerset": lambda: U.powerset(src), "zipr": lambda: U.zipr(src, src2), "rzip": lambda: U.rzip(src, src2),
        "zipl": lambda: U.map_longest(lambda a, b: (a, b), src, src2, fillvalue=9), "ziprl": lambda: U.zipr_longest(src, src2, fillvalue=9),
        "rziplong": lambda: U.rzip_longest(src, src2, fillvalue=9), "interleave": lambda: U.interleave(src, src2),
        "within": lambda: U.within(n, src), "unpack": lambda: unp(c, src), "islice": lambda: uslice(src)[slice(*(None if x == NN else x for x in c["t"]))],
        "iindexing": lambda: single(lambda: none8(uslice(src)[c["k"]])), "inn": lambda: single(lambda: int(U.inn(n, src)))}[f]()


def none8(x):
    return 8 if x is None else x


def iix(src):
    try:
        return U.iindex(1, src)
    except ValueError:
        return -1


def unp(c, src):
    *xs, tl = U.unpack(c["n"], src, k=c["k"], fillvalue=9)
    yield tuple(xs)
    yield tuple(tl)


ALT = {"zipr": lambda a, b: U.mapr(lambda x, y: (x, y), a, b), "rzip": lambda a, b: U.rmap(lambda x, y: (x, y), a, b),
       "ziprl": lambda a, b: U.mapr_longest(lambda x, y: (x, y), a, b, fillvalue=9), "rziplong": lambda a, b: U.rmap_longest(lambda x, y: (x, y), a, b, fillvalue=9)}


def jsonish(x):
    return [jsonish(e) for e in x] if isinstance(x, (tuple, list)) else x


NOARITH = {"take", "drop", "tail", "butlastn", "butlast", "lastn", "nth", "first", "second", "last", "pad", "scons", "rev", "splita", "splitb", "window", "chunked", "uniqify", "uniq",
           "powerset", "zipr", "rzip", "zipl", "ziprl", "rziplong", "interleave", "unpack"}
TR = {0: 0, 1: None, 2: ""}


def tr(x):
    return [tr(e) for e in x] if isinstance(x, (list, tuple)) else TR.get(x, x)


def run(c, r, data, data2, out):
    src, src2 = Counted(data), Counted(data2)
    it = iter(make(c, src, src2))
    got = []
    for x in it:
        got.append(jsonish(x))
        k = len(got)
        if k > len(out):
            return f"{c['f']}: more outputs than {out}: {got}"
        if got[-1] != out[k - 1]:
            return f"{c['f']} (n={c['n']}, k={c['k']}, t={c['t']}) of {data}: output {k} is {got[-1]!r}, specification {out[k - 1]!r}"
        if src.n > r["need"][k - 1]:
            return f"{c['f']} (n={c['n']}, k={c['k']}, t={c['t']}) of {data}: {src.n} items consumed when delivering output {k}, specification at most {r['need'][k - 1]}"
    if len(got) != len(out):
        return f"{c['f']} (n={c['n']}, k={c['k']}, t={c['t']}) of {data}, {data2}: {got}, specification {out}"
    if src.n > r["total"]:
        return f"{c['f']} (n={c['n']}, k={c['k']}, t={c['t']}) of {data}: {src.n} items consumed in all, specification at most {r['total']}"
    return None


def replay(case):
    c, r = case["c"], case["r"]
    e = run(c, r, c["s"], c["t"], r["out"])
    if e:
        return e
    if c["f"] in NOARITH:
        e = run(c, r, tr(c["s"]), tr(c["t"]), tr(r["out"]))
        if e:
            return e
    if c["f"] in ALT:
        for a, b in ((c["s"], c["t"]), (iter(c["s"]), iter(c["t"])), (tuple(c["s"]), iter(c["t"]))):
            got = jsonish(list(ALT[c["f"]](a, b)))
            if got != r["out"]:
                return f"{c['f']} (map variant): {got}, specification {r['out']}"
    if c["f"] in ("splita", "splitb"):      # both parts of one call, read in either order
        for first in (0, 1):
            pair = U.split_at(c["n"], iter(c["s"]))
            a = [None, None]
            a[first] = list(pair[first])
            a[1 - first] = list(pair[1 - first])
            if a[0] + a[1] != c["s"] or a[0 if c["f"] == "splita" else 1] != r["out"]:
                return f"split_at({c['n']}, {c['s']}): {a}"
    if c["f"] == "take":                    # iterating a function
        s, n = c["s"], c["n"]
        step = lambda i: s[(i + 1) % len(s)] if s else 0
        want, x = [], 0
        for _ in range(n):
            want.append(x)
            x = step(x)
        calls = []
        got = list(itertools.islice(U.iterate1(lambda v: (calls.append(v), step(v))[1], 0), n))
        if got != want or calls != want[:-1]:
            return f"iterate1: {got}, called with {calls}, specification {want}"
        got = list(itertools.islice(U.iterate(lambda v, k: U.Values(step(v), k=k + 1), 0, k=0), n))
        if got != [U.Values(v, k=k) for k, v in enumerate(want)]:
            return f"iterate: {got}, specification {want}"
        if list(U.interleave()) != [] or list(U.interleave(s)) != s:
            return "interleave with fewer than two inputs"
    if c["f"] in ("partf", "partt"):
        for first in (0, 1):
            pair = U.partition(lambda x: x % 2 == 1, iter(c["s"]))
            a = [None, None]
            a[first] = list(pair[first])
            a[1 - first] = list(pair[1 - first])
            if a[0 if c["f"] == "partf" else 1] != r["out"]:
                return f"partition: {a}"
    if c["f"] == "islice" and all(x == NN or x >= 0 for x in c["t"]):
        it = uslice(Counted(c["s"]))      # several slices of one object continue where the earlier ended
        a, b = list(it[:2]), list(it[:2])
        if a + b != c["s"][:4]:
            return f"islice in parts: {a} {b}"
    return None
