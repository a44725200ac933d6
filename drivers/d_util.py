"""Replays Util.tla and ValuesObj.tla."""
import collections
import collections.abc
import queue

from unpythonic import Popper, CountingIterator, slurp, getattrrec, setattrrec, Values, valuify

KINDS = {0: 0, 1: None, 2: "two"}  # the items: false values, too


class Seq(collections.abc.MutableSequence):
    def __init__(self, x):
        self.x = list(x)

    def __getitem__(self, i):
        return self.x[i]

    def __setitem__(self, i, v):
        self.x[i] = v

    def __delitem__(self, i):
        del self.x[i]

    def __len__(self):
        return len(self.x)

    def insert(self, i, v):
        self.x.insert(i, v)


class Src:
    def __init__(self, plan):
        self.plan = list(plan)

    def __iter__(self):
        return self

    def __next__(self):
        if not self.plan:
            raise StopIteration
        x = self.plan.pop(0)
        if x == 9:
            raise KeyError("source")
        return KINDS[x]


class Layer:
    pass


def take(it):
    try:
        return ["item", next(it)]
    except StopIteration:
        return ["stop"]
    except KeyError:
        return ["error"]


def history(case):
    h = case["h"]
    # the initial states follow from the history: the items that come out
    for make in (list, collections.deque, Seq):
        box = make([KINDS[x] for x in case["box0"]])
        pops, cnts = {}, {c: CountingIterator(Src(s)) for c, s in enumerate(case["src0"], 1)}
        if any(c.count != 0 for c in cnts.values()):
            return "count does not start at 0"
        q = queue.Queue()
        root, inner = Layer(), None
        for n, e in enumerate(h):
            o, want = e["o"], e["out"]
            want = [KINDS[w] if type(w) is int else w for w in want]
            op, x = o["op"], KINDS[o["x"]]
            got = []
            if op == "next":
                p = pops.setdefault(o["who"], None) or Popper(box)
                pops[o["who"]] = p
                if iter(p) is not p:
                    return "iter(popper) is another object"
                got = take(p)
            elif op == "append":
                box.append(x)
            elif op == "appendleft":
                box.appendleft(x) if make is collections.deque else box.insert(0, x)
            elif op == "insert":
                box.insert(1, x)
            elif op == "clear":
                box.clear()
            elif op == "pop":
                if len(box):
                    box.pop()
            elif op == "put":
                q.put(x)
            elif op == "slurp":
                got = slurp(q)
                if type(got) is not list or not q.empty():
                    return f"step {n}: slurp left items, or gave {got!r}"
            elif op == "count":
                c = cnts[o["who"]]
                if iter(c) is not c:
                    return "iter(counter) is another object"
                got = take(c)
            elif op == "wrap":  # a new layer around the onion
                new = Layer()
                new.w = root
                root = new
            elif op == "getrec":
                try:
                    got = ["item", getattrrec(root, "w")]
                except AttributeError:
                    got = ["missing"]
            elif op == "getdefault":
                g = getattrrec(root, "w", "DEF")
                got = ["default"] if g == "DEF" else ["item", g]
            elif op == "setrec":
                setattrrec(root, "w", x)
            if got != want:
                return f"{make.__name__}, step {n} {op}: {got}, specification {want}"
            if list(box) != [KINDS[i] for i in e["box"]]:
                return f"{make.__name__}, step {n} {op}: remaining {list(box)}, specification {e['box']}"
            for c, k in enumerate(e["cnt"], 1):
                if cnts[c].count != k:
                    return f"step {n} {op}: count {cnts[c].count}, specification {k}"


def values(case):
    dec = {0: None, 1: "one"}
    r, k = tuple(dec[v] for v in case["x"]), {n: dec[v] for n, v in case["xk"]}
    x = Values(*r, **k)
    y = Values(*(dec[v] for v in case["y"]), **{n: dec[v] for n, v in case["yk"]})
    if (x == y) is not case["eq"] or (x != y) is case["eq"]:
        return f"{x} == {y}: {x == y}, specification {case['eq']}"
    for other in (r, k, list(r), None, "one"):
        if x == other or not (x != other):
            return f"{x} == {other!r}"
    for i, w in case["at"]:
        try:
            got = [x[i]]
        except IndexError:
            got = []
        if got != [dec[v] for v in w]:
            return f"{x}[{i}]: {got}"
        if x[i:] != r[i:] or x[:i] != r[:i]:
            return f"{x}[{i}:]"
    for n, w in case["named"]:
        want = [dec[v] for v in w]
        try:
            got = [x[n]]
        except KeyError:
            got = []
        if got != want:
            return f"{x}[{n!r}]: {got}, specification {want}"
        if (n in x) is not bool(want) or x.get(n, "D") != (want or ["D"])[0] or x.get(n) != (want or [None])[0]:
            return f"{n!r} in {x}, get: {n in x}, {x.get(n, 'D')}"
    if x.rets != r or dict(x.kwrets) != k or set(x.keys()) != set(k) or dict(x.items()) != k or sorted(map(str, x.values())) != sorted(map(str, k.values())):
        return f"parts of {x}"
    if r and x.ret is not r[0]:
        return f"{x}.ret"
    try:
        got = tuple(x)
    except ValueError:
        got = "error"
    if got != (r if case["iter"] else "error"):
        return f"iteration over {x}: {got}"
    for bad in (1.5, None, (0,)):
        try:
            x[bad]
        except TypeError:
            continue
        return f"{x}[{bad!r}]"
    if not k:
        class T(tuple):
            pass
        v = valuify(lambda *a: a)(*r)
        if not isinstance(v, Values) or v != x:
            return f"valuify: {v!r}"
        for z in (T(r), list(r), x, None):
            if valuify(lambda: z)() is not z:
                return f"valuify changes {type(z)}"


def replay(case):
    return history(case) if "h" in case else values(case)
