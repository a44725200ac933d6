"""Replays LList.tla."""
import copy
import pickle

import sys
from unpythonic.llist import (cons, nil, ll, llist, lreverse, lappend, lzip, LinkedListIterator, LinkedListOrCellIterator, TailIterator,
                              BinaryTreeIterator, JackOfAllTradesIterator, member)
from unpythonic import foldl, foldr
L = sys.modules["unpythonic.llist"]

ATOM = {"1": 1, "2": 2, "nil": nil}


def mk(t):
    return ATOM[t[1]] if t[0] == "a" else cons(mk(t[1]), mk(t[2]))


def show(x):
    """Back to the specification's notation, reading only car and cdr."""
    return ["c", show(x.car), show(x.cdr)] if isinstance(x, cons) else ["a", "nil" if x is nil else str(x)]


def drain(it):
    out = []
    try:
        for x in it:
            out.append(show(x))
    except TypeError:
        return out, "TypeError"
    return out, ""


def tree(c, r):
    t = c["t"]
    x = mk(t)
    lists = r["spine"]
    strict = (lists, "" if r["proper"] else "TypeError")
    cell = (lists + [r["last"]], "") if r["single"] else strict
    for name, it, want in (("LinkedListIterator", LinkedListIterator(x), strict), ("iter", iter(x), cell), ("LinkedListOrCellIterator", LinkedListOrCellIterator(x), cell),
                           ("TailIterator", TailIterator(x), (r["tails"], strict[1])), ("BinaryTreeIterator", BinaryTreeIterator(x), (r["leaves"], "")),
                           ("JackOfAllTradesIterator", JackOfAllTradesIterator(x), (r["leaves2"], ""))):
        if iter(it) is not it:
            return f"{name} is not its own iterator"
        got = drain(it)
        if got != want:
            return f"{name} of {r['repr']}: {got}, specification {want}"
    if repr(x) != r["repr"]:
        return f"repr {x!r}, specification {r['repr']}"
    for a in r["acc"]:
        f = getattr(L, "c" + "".join(a["p"]) + "r")
        try:
            got = show(f(x))
        except TypeError:
            got = ["a", "err"]
        if got != a["v"]:
            return f"c{''.join(a['p'])}r of {r['repr']}: {got}, specification {a['v']}"
    y = mk(t)
    if x != y or not (x == y) or hash(x) != hash(y) or not (x == x):
        return f"{r['repr']} is not equal to its equal, or hashes differently"
    for p in r["pool"]:
        o = mk(p["t"])
        if (x == o) is not p["eq"] or (x != o) is p["eq"] or (o == x) is not p["eq"]:
            return f"{x!r} == {o!r}: {x == o}, specification {p['eq']}"
        if p["eq"] and hash(x) != hash(o):
            return "hash of equals"
    for bad in (lambda: setattr(x, "car", 3), lambda: setattr(x, "cdr", 3), lambda: setattr(x, "other", 3)):
        try:
            bad()
            return "cons is mutable"
        except TypeError:
            pass
    for z in (copy.copy(x), copy.deepcopy(x), pickle.loads(pickle.dumps(x))):
        if show(z) != t or z != x:
            return f"copy of {x!r} is {z!r}"
    if show(x) != t:
        return "the tree changed"
    if x == 1 or x == nil or x == tuple(BinaryTreeIterator(x)):
        return "equal to something else"
    if r["proper"]:
        n = len(lists)
        if show(lreverse(lreverse(x))) != t or show(llist(x)) != t or show(llist(list(x))) != t or show(llist(reversed(x))) != show(lreverse(x)):
            return "reversing or rebuilding a list"
        for k in range(n + 1):
            it = reversed(x)
            for _ in range(k):
                next(it)
            want = lists[::-1][k:]
            got = llist(it)
            if [show(e) for e in got] != want:
                return f"llist of a reverse iterator after {k} items: {got!r}, specification {want}"
        for v in (1, 2, nil):
            m = member(v, x)
            ix = [i for i, e in enumerate(lists) if e == show(v)]
            if ix and (m is False or show(m) != r["tails"][ix[0]]) or not ix and m is not False:
                return f"member({v!r}, {x!r}) is {m!r}"
    return None


def lists(c, r):
    seqs = [[mk(e) for e in s] for s in c["ls"]]
    made = [ll(*s) for s in seqs]
    for m, s, w, rv in zip(made, seqs, r["make"], r["rev"]):
        if show(m) != w or show(llist(s)) != w or show(llist(tuple(s))) != w or show(llist(iter(s))) != w or show(llist(x for x in s)) != w or show(llist(m)) != w:
            return f"building {s}: {m!r}, specification {w}"
        if show(lreverse(m)) != rv or show(lreverse(iter(s))) != rv or show(foldl(cons, nil, m)) != rv or show(foldr(cons, nil, m)) != w:
            return f"lreverse({m!r})"
        if not s and m is not nil:
            return "the empty list is not nil"
    got = lappend(*made)
    if show(got) != r["cat"]:
        return f"lappend{tuple(made)}: {got!r}, specification {r['cat']}"
    got = lzip(*made)
    if show(got) != r["zip"]:
        return f"lzip{tuple(made)}: {got!r}, specification {r['zip']}"
    if [show(m) for m in made] != r["make"]:
        return "an argument changed"
    if any(made[-1] is not nil and len(made) == 1 for _ in ()):
        pass
    return None


def replay(case):
    return (tree if case["c"]["f"] == "tree" else lists)(case["c"], case["r"])
