"""Replays state-machine behaviours: a history that reaches a state, then every operation of a table, each on
a freshly rebuilt object."""


def run(case, fresh, apply, observe):
    """apply(obj, op) -> {"kind": ..., "v": ...}; observe(obj) -> dict compared with the same keys of the outcome."""
    def step(obj, e, where):
        got = apply(obj, e["o"])
        want = {k: e["r"][k] for k in ("kind", "v") if k in e["r"]}
        got = {k: got[k] for k in want}
        if got != want:
            return f"{where}: {e['o']} -> {got}, specification {want}"
        o = observe(obj)
        bad = {k: (o[k], e["r"][k]) for k in o if k in e["r"] and o[k] != e["r"][k]}
        if bad:
            return f"{where}: after {e['o']}: " + "; ".join(f"{k} is {a!r}, specification {b!r}" for k, (a, b) in bad.items())
        return None

    def rebuild():
        obj = fresh(case)
        for i, e in enumerate(case["h"]):
            r = step(obj, e, f"step {i + 1}")
            if r:
                return obj, r
        return obj, None
    obj, r = rebuild()
    if r:
        return r
    t = case.get("t") or []
    for e in t:
        obj = fresh(case)
        for h in case["h"]:
            apply(obj, h["o"])
        r = step(obj, e, "then")
        if r:
            return r
    return None
