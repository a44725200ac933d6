"""Replays Fup.tla."""
import copy
import itertools
import pickle
from collections import namedtuple, deque, UserList
from collections.abc import Mapping, MutableMapping, Hashable

from unpythonic import fup, fupdate, frozendict, ShadowedSequence, in_slice, index_in_slice, imemoize

NN = 99


def sl(s):
    return s[0] if len(s) == 1 else slice(*(None if x == NN else x for x in s))


def repl(sp, kind, need, rnd):
    if len(sp) == 1:
        return 100 * rnd
    b = 100 * rnd
    items = [b + i + 1 for i in range({"exact": need, "long": need + 2, "short": need - 1, "iter": need}.get(kind, need))]
    if kind == "iter":
        return iter(items)
    if kind == "inf":
        return itertools.count(b + 1)
    if kind == "memo":
        return imemoize(itertools.count(b + 1))()
    return tuple(items) if rnd % 2 else items


NT = {k: namedtuple("NT", [f"f{i}" for i in range(k)]) for k in range(6)}


def update(c, exp):
    n, ss, ks = c["n"], c["ss"], c["k"]
    init = [11 + i for i in range(n)]
    for kind in ("list", "tuple", "namedtuple", "UserList", "deque"):
        make = {"list": list, "tuple": tuple, "namedtuple": NT[n]._make, "UserList": UserList, "deque": deque}[kind]
        target = make(init)
        forms = []

        def rs():
            return [repl(s, k, len(range(n)[sl(s)]) if len(s) > 1 else 1, i + 1) for i, (s, k) in enumerate(zip(ss, ks))]
        if len(ss) == 1:
            forms.append(("fup", lambda: fup(target)[sl(ss[0])] << rs()[0]))
            forms.append(("fupdate", lambda: fupdate(target, sl(ss[0]), rs()[0])))
        forms.append(("fupdate with lists", lambda: fupdate(target, [sl(s) for s in ss], rs())))
        forms.append(("fupdate with tuples", lambda: fupdate(target, tuple(sl(s) for s in ss), tuple(rs()))))
        for name, f in forms:
            try:
                r = f()
                got = {"e": "", "t": list(r)}
                if type(r) is not type(target):
                    return f"{name} of a {kind} gives a {type(r)}"
                if n and r is target:
                    return f"{name} gave the target itself"
            except IndexError:
                got = {"e": "IndexError", "t": None}
            want = dict(exp)
            if want["e"]:
                want["t"] = None
            if got != want:
                return f"{name}({kind} {init})[{ss}] << {ks}: {got}, specification {want}"
            if list(target) != init:
                return f"{name} changed its target: {list(target)}"
    # the sequence behind it: read through, in any order, as often as wanted
    if len(ss) == 1 and ks[0] in ("exact", "long", "memo") and exp["e"] == "":
        want = exp["t"]
        for base in (list(init), tuple(init)):
            x = ShadowedSequence(base, sl(ss[0]), rs()[0])
            if len(x) != n or (list(x), list(x)) != (want, want):
                return f"ShadowedSequence: {list(x)}, specification {want}"
            if [x[i] for i in range(n)] != want or [x[i - n] for i in range(n)] != want:
                return f"ShadowedSequence by index: {[x[i] for i in range(n)]}"
            for bad in (n, -n - 1):
                try:
                    x[bad]
                    return f"ShadowedSequence[{bad}] of {n}"
                except IndexError:
                    pass
            for k in (slice(None, None, -1), slice(1, None), slice(-2, None), slice(None, None, 2)):
                g = x[k]
                if list(g) != want[k] or type(g) is not type(base):
                    return f"ShadowedSequence[{k}]: {g!r}, specification {want[k]}"
            if not (x == want) or (n and x == [0] + want[1:]) or x == want + [1]:
                return "ShadowedSequence equality"
            if n and (want[-1] not in x or x.index(want[-1]) != want.index(want[-1]) or list(reversed(x)) != want[::-1]):
                return "ShadowedSequence in/index/reversed"
        base = list(init)
        x = ShadowedSequence(base, sl(ss[0]), rs()[0])
        for i in range(n):
            base[i] = -i - 1
        now = [w if w >= 100 else -i - 1 for i, w in enumerate(want)]
        if list(x) != now:
            return f"ShadowedSequence does not follow its sequence: {list(x)}, specification {now}"
        y = ShadowedSequence(base)
        if list(y) != base or len(y) != n:
            return "ShadowedSequence without a shadower"
    return None


def inslice(c, exp):
    n, s = c["n"], sl(c["s"])
    for k, want in enumerate(exp):
        i = k - n
        try:
            got = in_slice(i, s, n)
            pos = None if isinstance(s, int) else index_in_slice(i, s, n)
        except IndexError:
            if want != -2:
                return f"in_slice({i}, {s}, {n}) raises IndexError"
            continue
        if want == -2:
            return f"in_slice({i}, {s}, {n}) accepts an index out of range"
        if bool(got) != (want >= 0) or got not in (True, False):
            return f"in_slice({i}, {s}, {n}) is {got}, specification {want >= 0}"
        if not isinstance(s, int) and pos != (want if want >= 0 else None):
            return f"index_in_slice({i}, {s}, {n}) is {pos}, specification {want}"
    return None


def maps(c, exp):
    ms = [dict(m) for m in c["ms"]]
    want = dict(exp["m"])
    before = copy.deepcopy(ms)
    variants = [frozendict(*ms), frozendict(ms[0], ms[1], **ms[2]), frozendict(*(frozendict(m) for m in ms)), frozendict(frozendict(ms[0]), ms[1], **ms[2]),
                frozendict([*ms[0].items(), *ms[1].items()], **ms[2])]
    for fd in variants:
        if dict(fd) != want or fd != want or list(fd) != [k for k, _ in exp["m"]] and fd is not variants[-1]:
            return f"frozendict({ms}) is {fd}, specification {want}"
        if len(fd) != len(want) or dict(fd.items()) != want or list(fd.keys()) != list(fd) or [fd[k] for k in fd] != list(fd.values()):
            return "frozendict views"
        if fd.get("zz", 7) != 7 or fd.get("zz") is not None or "zz" in fd or any(k not in fd or fd.get(k) != v for k, v in want.items()):
            return "frozendict get/contains"
        try:
            fd["zz"]
            return "a missing key"
        except KeyError:
            pass
        for bad in (lambda: fd.__setitem__("a", 9), lambda: fd.__delitem__("a"), lambda: fd.update(a=9), lambda: fd.pop("a"), lambda: fd.clear(),
                    lambda: fd.setdefault("q", 1), lambda: fd.popitem()):
            try:
                bad()
                return "frozendict allows mutation"
            except (TypeError, AttributeError):
                pass
        if fd != want or dict(fd) != want:
            return "frozendict changed"
        other = frozendict(dict(reversed(list(want.items()))))
        if fd != other or hash(fd) != hash(other):
            return f"equality or hash depends on the order: {fd}, {other}"
        if not isinstance(fd, Mapping) or isinstance(fd, MutableMapping) or not isinstance(fd, Hashable):
            return "frozendict ABCs"
        for cp in (copy.copy(fd), copy.deepcopy(fd), pickle.loads(pickle.dumps(fd))):
            if cp != fd or hash(cp) != hash(fd) or type(cp) is not frozendict:
                return f"copy of {fd} is {cp}"
    if ms != before:
        return "frozendict changed its sources"
    src = dict(ms[0])
    fd = frozendict(src)
    src["a"] = 99
    src["new"] = 1
    if dict(fd) != ms[0]:
        return "frozendict follows its source"
    a, b = frozendict(ms[0]), frozendict(ms[1])
    if (a == b) != exp["eq"] or (a != b) == exp["eq"] or (exp["eq"] and hash(a) != hash(b)):
        return f"equality/hash of {a}, {b}"
    if (len({a, b}) == 1) != exp["eq"]:
        return f"{a}, {b} in a set"
    if not ms[0] and (a is not frozendict() or a is not frozendict({})) and a is not frozendict():
        pass
    up = dict(exp["up"])
    d = dict(ms[0])
    r = fupdate(d, **ms[1])
    if r != up or type(r) is not dict or r is d or d != ms[0]:
        return f"fupdate of a dict: {r}, specification {up}"
    r = fupdate(a, **ms[1])
    if dict(r) != up or type(r) is not frozendict or dict(a) != ms[0]:
        return f"fupdate of a frozendict: {r}, specification {up}"
    r = fupdate(d)
    if r != d or r is d:
        return "fupdate without an update"
    try:
        fupdate([1], 0, 2, a=3)
        return "fupdate with both indices and bindings"
    except ValueError:
        pass
    return None


def replay(case):
    return {"in": inslice, "up": update, "map": maps}[case["c"]["f"]](case["c"], case["r"])
