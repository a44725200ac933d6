"""Replays Views.tla on real views of a list."""
import array
from collections import UserList

from unpythonic import view, roview

NN = 99


def sl(s):
    return slice(*(None if x == NN else x for x in s))


def look(name, v, want, kind):
    n = len(want)
    if len(v) != n:
        return f"len({name}) is {len(v)}, specification {n}"
    if list(v) != want:
        return f"list({name}) is {list(v)}, specification {want}"
    if [v[i] for i in range(n)] != want or [v[i - n] for i in range(n)] != want:
        return f"{name}[i] is {[v[i] for i in range(n)]} / {[v[i - n] for i in range(n)]}, specification {want}"
    for bad in (n, -n - 1):
        try:
            x = v[bad]
            return f"{name}[{bad}] of {n} elements gives {x}"
        except IndexError:
            pass
    if list(reversed(v)) != want[::-1]:
        return f"reversed({name})"
    if not (v == want) or (v == want + [0]) or (n and v == [0] + want[1:]):
        return f"{name} == {want} is wrong"
    if any(x not in v for x in want) or 0 in v or (n and (v.index(want[-1]) != n - 1 or v.count(want[0]) != 1)):
        if len(set(want)) == n:
            return f"in/index/count on {name}"
    if v[:] is not v:
        if list(v[:]) != want:
            return f"{name}[:]"
    if kind == "list" and (str(v), repr(v)) != (str(want), f"{type(v).__name__}({want!r})"):
        return f"str({name})"
    return None


def replay(case):
    for kind in ("list", "UserList", "array"):
        init = list(range(1, case["n"] + 1))
        base = {"list": list, "UserList": UserList, "array": lambda x: array.array("i", x)}[kind](init)
        s1, s2 = sl(case["s1"]), sl(case["s2"])
        ctor = view
        # all the ways to make the same view
        if kind == "array":
            v1 = view(base, s1)
            v2 = view(v1, s2)
            r1, r2 = roview(base, s1), roview(roview(base, s1), s2)
        else:
            v1 = view(base)[s1]
            v2 = v1[s2]
            r1, r2 = roview(base)[s1], roview(base)[s1][s2]
        rv = roview(v1)[s2]                 # a read-only view of a writable view
        for i, h in enumerate(case["h"]):
            op, j, k, x = h["op"], h["j"], h["k"], h["x"]
            v = {1: v1, 2: v2}.get(j)
            where = f"{kind}, step {i + 1} ({op} {'v%d' % j if j else 'base'} {k} {x})"
            if op == "append":
                base.append(x[0])
            elif op == "pop":
                base.pop()
            elif op == "insert":
                base.insert(0, x[0])
            elif op == "poke":
                base[k[0]] = x[0]
            elif op == "set":
                v[k[0]] = x[0]
            elif op == "setbad":
                try:
                    v[k[0]] = x[0]
                    return f"{where}: out-of-range assignment succeeded"
                except IndexError:
                    pass
            elif op == "setslice":
                v[sl(k)] = x if i % 2 else tuple(x)
            elif op == "setscalar":
                v[sl(k)] = x[0]
            elif op == "reverse":
                v.reverse()
            if list(base) != h["b"]:
                return f"{where}: the underlying sequence is {list(base)}, specification {h['b']}"
            for name, vw, want in (("v1", v1, h["v1"]), ("v2", v2, h["v2"]), ("roview r1", r1, h["v1"]), ("roview r2", r2, h["v2"]), ("roview of v1", rv, h["v2"])):
                r = look(name, vw, want, kind)
                if r:
                    return f"{where}: {r}"
            for vw in (r1, r2, rv):
                try:
                    vw[0] = 1
                    return f"{where}: a read-only view accepted an assignment"
                except TypeError:
                    pass
            try:
                view(r1)
                return "a writable view into a read-only view"
            except TypeError:
                pass
            if kind != "list":
                continue
            # views of immutable sequences can only be read-only, and show the same elements
            tv = roview(tuple(base))[s1][s2]
            r = look("roview of a tuple", tv, h["v2"], "tuple")
            if r:
                return r
            try:
                view(tuple(base))
                return "a writable view into a tuple"
            except TypeError:
                pass
    return None
