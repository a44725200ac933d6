"""Replays Fold.tla with a symbolic procedure; items may be false values."""
import itertools

import unpythonic as U

INIT = object()
MODES = ({"init": INIT, "fill": Ellipsis, 0: 0, 1: 1, 2: 2}, {"init": False, "fill": 0, 0: None, 1: "", 2: ()})


class Counted:
    def __init__(self, items):
        self.items, self.n = items, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.n >= len(self.items):
            raise StopIteration
        self.n += 1
        return self.items[self.n - 1]


class Term:
    def __init__(self, s):
        self.s = s


def run(case, mode):
    c, want, need = case["c"], case["r"]["out"], case["r"]["need"]
    f = c["f"]
    back = [(v, str(k)) for k, v in mode.items()]

    def nm(x):
        if isinstance(x, Term):
            return x.s
        for v, k in back:
            if v is x:
                return k
        raise AssertionError(f"unknown value {x!r}")
    calls = []

    def proc(*args):
        *xs, acc = args
        t = "(" + "".join(nm(x) + "," for x in xs) + nm(acc) + ")"
        calls.append(t)
        return Term(t)
    data = [[mode[x] for x in s] for s in c["ss"]]
    fn = getattr(U, f)
    kw = {}
    if f in ("scanl", "scanr", "rscanl"):
        if c["longest"]:
            kw = {"longest": True, "fillvalue": mode["fill"]}
        mk = lambda g, src: g(proc, mode["init"], *src, **kw)
        g2 = {"scanl": U.foldl, "scanr": U.foldr, "rscanl": U.rfoldl}[f]
    else:
        mk = lambda g, src: g(proc, *src, **({"init": mode["init"]} if c["init"] else {}))
        g2 = {"scanl1": U.reducel, "scanr1": U.reducer, "rscanl1": U.rreducel}[f]
    srcs = [Counted(d) for d in data]
    got = []
    for x in mk(fn, srcs):
        got.append(nm(x))
        if len(got) > len(want) or got[-1] != want[len(got) - 1]:
            return f"{f} of {c['ss']} {kw}: output {len(got)} is {got[-1]}, specification {want}"
        if srcs[0].n > need[len(got) - 1]:
            return f"{f} of {c['ss']}: {srcs[0].n} items read at output {len(got)}, specification at most {need[len(got) - 1]}"
    if got != want:
        return f"{f} of {c['ss']} {kw}: {got}, specification {want}"
    if len(calls) != max(0, len(want) - 1):
        return f"{f} of {c['ss']}: the procedure was called {len(calls)} times for {len(want)} outputs"
    for src in (data, [tuple(d) for d in data], [iter(d) for d in data]):
        calls.clear()
        r = mk(g2, src)
        if (nm(r) if want else r) != (want[-1] if want else None):
            return f"{g2.__name__} of {c['ss']} {kw}: {r if not isinstance(r, Term) else r.s}, specification {want[-1:]}"
        if len(calls) != max(0, len(want) - 1):
            return f"{g2.__name__} of {c['ss']}: the procedure was called {len(calls)} times"
    return None


def minmax(case):
    c = case["c"]
    s = c["ss"][0]
    want = [tuple(x) for x in case["r"]["out"]]
    src = Counted(s)
    got = []
    for x in U.running_minmax(src):
        got.append(x)
        if src.n > len(got):
            return f"running_minmax({s}): {src.n} items read at output {len(got)}"
    if got != want:
        return f"running_minmax({s}): {got}, specification {want}"
    for v in (s, tuple(s), iter(s)):
        if U.minmax(v) != (want[-1] if want else (None, None)):
            return f"minmax({s}): {U.minmax(s)}, specification {want[-1:]}"
    if c["init"] == 0:
        if U.prod(s) != case["prod"] or U.prod(iter(s)) != case["prod"]:
            return f"prod({s}): {U.prod(s)}, specification {case['prod']}"
    elif U.prod(s, start=5) != 5 * case["prod"] or U.prod(s, start=0) != 0:
        return f"prod({s}, start): {U.prod(s, start=5)}"
    return None


def unfold(case, mode):
    tab, want, states = case["c"]["tab"], case["r"]["out"], case["r"]["need"]
    back = [(v, str(k)) for k, v in mode.items()]
    nm = lambda x: next(k for v, k in back if v is x)
    calls = []

    def p1(st):
        calls.append(st)
        if st == 0:
            return None
        v, nx = tab[st - 1]
        return (mode[v], nx)

    def p2(st, *, k):
        if k != len(calls):
            raise AssertionError("state not passed by name")
        calls.append(st)
        if st == 0:
            return None
        v, nx = tab[st - 1]
        return U.Values(mode[v], nx, k=k + 1)
    def p3():      # no state of its own
        k = calls_next[0]
        r = p1(k)
        if r is None:
            return None
        calls_next[0] = r[1]
        return U.Values(r[0])

    def p4(*, k):
        r = p1(k)
        return None if r is None else U.Values(r[0], k=r[1])
    calls_next = [1]

    def mk3():
        calls_next[0] = 1
        return U.unfold(p3)
    for name, mk in (("unfold1", lambda: U.unfold1(p1, 1)), ("unfold", lambda: U.unfold(p2, 1, k=0)), ("unfold without state", mk3), ("unfold by name", lambda: U.unfold(p4, k=1))):
        calls.clear()
        got = []
        for x in itertools.islice(mk(), len(want)):
            got.append(nm(x))
            if len(calls) != len(got):
                return f"{name}({tab}): the procedure was called {len(calls)} times for {len(got)} outputs"
        if got != want:
            return f"{name}({tab}): {got}, specification {want}"
        if states[-1] == 0:     # finite
            calls.clear()
            got = [nm(x) for x in mk()]
            if got != want or calls != states:
                return f"{name}({tab}): {got} through states {calls}, specification {want} through {states}"
    return None


def replay(case):
    f = case["c"]["f"]
    if f == "minmax":
        return minmax(case)
    for mode in MODES:
        e = unfold(case, mode) if f == "unfold" else run(case, mode)
        if e:
            return e
    return None
