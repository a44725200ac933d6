"""Replays Partition.tla and Fixpoint.tla."""
import json
import random
import zlib

from unpythonic import partition_int, partition_int_triangular, partition_int_custom, fixpoint


def partition(case):
    c = case["case"]
    n, lo, up, comps = c["n"], c["lo"], c["up"], list(c["comps"])
    rnd = random.Random(zlib.crc32(json.dumps(c, sort_keys=True).encode()))
    rnd.shuffle(comps)
    fs = {"int": partition_int, "tri": partition_int_triangular}
    if c["kind"] == "custom":
        calls = [lambda: partition_int_custom(n, comps), lambda: partition_int_custom(n, iter(comps)), lambda: partition_int_custom(n, sorted(comps))]
    else:
        f = fs[c["kind"]]
        calls = [lambda: f(n, lo, up), lambda: f(n, lower=lo, upper=up)]
        if up == n:
            calls.append(lambda: f(n, lower=lo))
            calls.append(lambda: f(n, lo, None))
            if lo == 1:
                calls.append(lambda: f(n))
    want = sorted(tuple(x) for x in case["out"])
    for i, call in enumerate(calls):
        try:
            it = call()
        except ValueError:
            if not case["err"]:
                return f"form {i}: ValueError, though the arguments are allowed"
            continue
        if case["err"]:
            return f"form {i}: no ValueError at the call"
        got = list(it)
        if any(type(x) is not tuple for x in got):
            return f"form {i}: not tuples: {got[:3]}"
        if sorted(got) != want:
            extra = [x for x in got if x not in want][:3]
            miss = [x for x in want if x not in got][:3]
            return f"form {i}: {len(got)} partitions, specification {len(want)}; not expected {extra}, missing {miss}"
    for bad in (2.0, "2"):
        for call in (lambda: partition_int(bad), lambda: partition_int(5, bad), lambda: partition_int(5, 1, bad), lambda: partition_int_triangular(bad),
                     lambda: partition_int_triangular(5, bad), lambda: partition_int_triangular(5, 1, bad), lambda: partition_int_custom(bad, [1]), lambda: partition_int_custom(5, [bad])):
            try:
                call()
            except TypeError:
                continue
            return "no TypeError at the call for an argument that is not an integer"


def fix(case):
    f, tol, tr = case["f"], case["tol"], case["tr"]
    calls = []

    def g(x):
        if len(calls) > 50:
            raise RuntimeError("does not stop")
        calls.append(x)
        return f[x]
    got = fixpoint(g, tr[0], tol)
    if got != tr[-1]:
        return f"fixpoint: {got}, specification {tr[-1]}"
    if calls != tr[:-1]:
        return f"fixpoint called f with {calls}, specification {tr[:-1]}"
    if tol == 0:
        if fixpoint(lambda x: f[x], x0=tr[0]) != tr[-1]:
            return "default tolerance"


def replay(case):
    return fix(case) if "tr" in case else partition(case)
