"""Replays Mogrify.tla into mogrify."""
from collections import deque, namedtuple
from types import MappingProxyType
from unpythonic import (mogrify, box, ThreadLocalBox, Some, frozendict, cons, roview, view, Values)

Pt = namedtuple("Pt", "x y")
FN = {0: 0, 1: 10, 2: 10, 3: -1, 4: 0}
ATOM = {0: 0, 1: "one", 2: b"two", 3: (lambda: 3), 4: None, 10: "ten", -1: Ellipsis}
MUT = {"list", "dict", "box", "tlbox", "deque", "view", "set"}


def num(v):
    for k, a in ATOM.items():
        if v is a:
            return k
    raise ValueError(v)


def fn(v):
    CALLS.append(v)
    return ATOM[FN[num(v)]]


CALLS = []


def build(x):
    """Returns (object, node) where node remembers the object built for every node."""
    t = x["t"]
    if t == "atom":
        return ATOM[x["v"]], (ATOM[x["v"]], [])
    kids = [build(c) for c in x["c"]]
    objs = [k[0] for k in kids]
    keyed = {f"k{i}": o for i, o in enumerate(objs)}
    o = {"list": lambda: list(objs), "dict": lambda: dict(keyed), "box": lambda: box(objs[0]), "tlbox": lambda: ThreadLocalBox(objs[0]),
         "deque": lambda: deque(objs), "view": lambda: view(list(objs)), "tuple": lambda: tuple(objs), "frozendict": lambda: frozendict(keyed),
         "some": lambda: Some(objs[0]), "namedtuple": lambda: Pt(*objs), "cons": lambda: cons(*objs), "roview": lambda: roview(list(objs)),
         "values": lambda: Values(*objs[:1], **dict(list(keyed.items())[1:])), "proxy": lambda: MappingProxyType(dict(keyed)),
         "set": lambda: set(objs), "frozenset": lambda: frozenset(objs), "keysview": lambda: dict.fromkeys(objs).keys()}[t]()
    return o, (o, [k[1] for k in kids])


def items(o, t):
    if t in ("list", "deque", "view", "tuple", "namedtuple", "roview"):
        return list(o)
    if t in ("dict", "frozendict", "proxy"):
        if list(o) != [f"k{i}" for i in range(len(o))]:
            raise ValueError(f"keys {list(o)}")
        return list(o.values())
    if t in ("box", "tlbox", "some"):
        return [o.get()]
    if t == "cons":
        return [o.car, o.cdr]
    if t == "values":
        return [*o.rets, *o.kwrets.values()]
    raise ValueError(t)


TYPES = {"list": list, "dict": dict, "box": box, "tlbox": ThreadLocalBox, "deque": deque, "view": view, "tuple": tuple, "frozendict": frozendict,
         "some": Some, "namedtuple": Pt, "cons": cons, "roview": roview, "values": Values, "proxy": MappingProxyType, "set": set, "frozenset": frozenset,
         "keysview": type({}.keys())}


def same(o, x, where):
    """Does the object show what the term says?"""
    t = x["t"]
    if t == "atom":
        return None if o is ATOM[x["v"]] else f"{where}: atom is {o!r}, specification {ATOM[x['v']]!r}"
    if type(o) is not TYPES[t]:
        return f"{where}: a {type(o).__name__}, specification {t}"
    if t in ("set", "frozenset", "keysview"):
        want = {ATOM[c["v"]] for c in x["c"]}
        return None if set(o) == want and len(o) == len(want) else f"{where}: {o!r}, specification {want!r}"
    its = items(o, t)
    if len(its) != len(x["c"]):
        return f"{where}: {o!r} has {len(its)} items, specification {len(x['c'])}"
    for i, (a, c) in enumerate(zip(its, x["c"])):
        r = same(a, c, f"{where}/{t}{i}")
        if r:
            return r
    return None


def identity(o, x, node):
    """Mutable containers are the same objects as before; immutable ones that hold anything are new."""
    if x["t"] == "atom":
        return None
    if x["t"] in MUT:
        if o is not node[0]:
            return f"a {x['t']} was not updated in place"
    elif o is node[0] and x["t"] not in ("tuple", "frozenset") :
        return f"a {x['t']} was not copied"
    if x["t"] in ("set", "frozenset", "keysview"):
        return None
    t = "list" if x["t"] == "roview" else x["t"]
    for a, c, nd in zip(items(o, t), x["c"], node[1]):
        r = identity(a, c, nd)
        if r:
            return r
    return None


def replay(case):
    x = case["x"]
    o, node = build(x)
    CALLS.clear()
    r = mogrify(fn, o)
    if len(CALLS) != case["calls"]:
        return f"mogrify called the function {len(CALLS)} times, specification {case['calls']}"
    return same(r, case["new"], "result") or same(o, case["old"], "original") or identity(r, x, node)
