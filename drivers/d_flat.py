"""Nested list structure: the result of flatten/flatten1/flatten_in against spec/Flat.tla; leaves are numbered, so that order is observed too."""
import unpythonic as U

PREDS = {"all": lambda e: True, "nested": lambda e: all(isinstance(x, (list, tuple)) for x in e), "pair": lambda e: len(e) == 2, "nonempty": lambda e: bool(e),
         "list": lambda e: isinstance(e, list)}


def build(s, ctr):
    out = []
    for e in s:
        if e["q"] == "x":
            out.append(ctr[0])
            ctr[0] += 1
        else:
            out.append((list if e["q"] == "l" else tuple)(build(e["k"], ctr)))
    return out


def typed(x):
    return (type(x).__name__, [typed(e) for e in x]) if isinstance(x, (list, tuple)) else x


def replay(case):
    c = case["c"]
    data = build(c["s"], [0])
    pred = PREDS[c["p"]]
    for name, f, want in (("flatten", U.flatten, case["flat"]), ("flatten1", U.flatten1, case["one"]), ("flatten_in", U.flatten_in, case["deep"])):
        want = build(want, [0])
        for label, src in (("list", data), ("tuple", tuple(data)), ("iterator", iter(data))):
            got = list(f(src, pred))
            if typed(got) != typed(want):
                return f"{name}({data}, {c['p']}) from a {label}: {got}, specification {want}"
        if c["p"] == "all" and (name != "flatten1" or all(isinstance(x, (list, tuple)) for x in data)):
            got = list(f(data))
            if typed(got) != typed(want):
                return f"{name}({data}): {got}, specification {want}"
    return None
