"""Replays TypeOf.tla."""
import collections
import typing

from unpythonic.typecheck import isoftype


class A: pass
class B(A): pass
class MyList(list): pass
class MyTuple(tuple): pass
class MyDict(dict): pass
class MyStr(str): pass


def val(v, n=0):
    k, e = v["k"], v["e"]
    es = [val(x, n * 2 + i + 1) for i, x in enumerate(e)]
    atoms = {"int": n, "bool": True, "str": "xyzuvwst"[n % 8], "none": None, "A": A(), "B": B(), "func": lambda: 1, "bytes": b"x", "float": 1.5}
    if k in atoms:
        return atoms[k]
    if k in ("keys", "values", "items"):
        return getattr(dict(zip(es[::2], es[1::2])), k)()
    if k in ("dict", "mydict"):
        return {"dict": dict, "mydict": MyDict}[k](zip(es[::2], es[1::2]))
    return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "deque": collections.deque, "mylist": MyList, "mytuple": MyTuple}[k](es)


T0 = {"Any": typing.Any, "int": int, "str": str, "None": type(None), "A": A, "B": B, "TV": typing.TypeVar("TV"), "TVc": typing.TypeVar("TVc", int, str),
      "NewInt": typing.NewType("NewInt", int), "Callable": typing.Callable, "list": list, "tuple": tuple, "dict": dict, "set": set, "frozenset": frozenset,
      "MyList": MyList, "MyTuple": MyTuple, "MyDict": MyDict, "MyStr": MyStr, "Sized": typing.Sized, "Hashable": typing.Hashable, "Iterable": typing.Iterable,
      "Container": typing.Container, "Collection": typing.Collection, "Iterator": typing.Iterator, "Reversible": typing.Reversible, "Text": typing.Text,
      "BareTuple": typing.Tuple, "bytes": bytes, "float": float, "object": object, "SupportsInt": typing.SupportsInt}
C = {"List": typing.List, "Set": typing.Set, "FrozenSet": typing.FrozenSet, "Sequence": typing.Sequence, "MutableSequence": typing.MutableSequence,
     "AbstractSet": typing.AbstractSet, "MutableSet": typing.MutableSet, "Deque": typing.Deque, "Dict": typing.Dict, "Mapping": typing.Mapping,
     "MutableMapping": typing.MutableMapping, "KeysView": typing.KeysView, "ValuesView": typing.ValuesView, "ItemsView": typing.ItemsView, "Tuple": typing.Tuple, "Union": typing.Union}


def typ(t):
    c, a = t["c"], [typ(x) for x in t["a"]]
    if c in T0:
        return T0[c]
    if c == "TupleE":
        return typing.Tuple[a[0], ...]
    return C[c][tuple(a)] if len(a) > 1 or c == "Tuple" else C[c][a[0]]


def stretched(v, x):
    """The same element types, many more elements (the ones that may differ last); None if that is another type."""
    if v["k"] in ("list", "mylist", "deque") and x:
        return type(x)([x[0]] * 300 + list(x)[1:])
    kinds = {e["k"] for e in v["e"]}
    if v["k"] in ("set", "frozenset") and kinds == {"int"}:
        return type(x)(range(300))
    if v["k"] in ("dict", "mydict") and x and v["e"][0]["k"] == "int":
        first = next(iter(x.values()))
        return type(x)([(1000 + i, first) for i in range(300)] + list(x.items()))
    return None


cache = {}


def replay(case):
    x = val(case["v"])
    bad = decide(case, x)
    if bad:
        return bad
    y = stretched(case["v"], x)
    if y is not None:
        bad = decide(case, y)
        return bad and "long: " + bad[-300:]


def decide(case, x):
    for exp, ts in ((True, case["yes"]), (False, case["no"])):
        for t in ts:
            k = repr(t)
            if k not in cache:
                cache[k] = typ(t)
            r = isoftype(x, cache[k])
            if r is not exp:
                return f"isoftype({x!r}, {cache[k]}) is {r!r}, specification {exp}"
    return None
