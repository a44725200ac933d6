"""Replays ArgOps.tla."""
from unpythonic import flip, rotate, tokth, to1st, to2nd, tolast, to, apply, identity, const, withself, notf, andf, orf, Values


class T:
    """Traceable value."""
    def __init__(self, *h):
        self.h = h

    def __bool__(self):
        raise AssertionError("argument values must not be tested")


def attempt(f):
    try:
        return f(), ""
    except (TypeError, IndexError) as e:
        return None, type(e).__name__


def replay(case):
    c, r = case["c"], case["r"]
    n, op = c["n"], c["op"]
    args = [T(i) for i in range(1, n + 1)]
    kw = {"x": T(99)} if c["kw"] else {}
    seen = []

    def f(*a, **k):
        seen.append((a, k))
        return "result"

    def expect(outs):
        for name, (v, e) in outs.items():
            if e != r["e"]:
                return f"{name}: {e or 'no error'}, specification {r['e'] or 'no error'}"
            if e:
                if seen:
                    return f"{name}: the function was called"
                continue
            if v != "result" or len(seen) != 1:
                return f"{name}: returned {v!r}, called {len(seen)} times"
            a, k = seen.pop()
            if [list(x.h) for x in a] != r["a"] or k != kw:
                return f"{name}: called with {[x.h for x in a]} {k}, specification {r['a']}"
        return None
    if op == "flip":
        return expect({"flip": attempt(lambda: flip(f)(*args, **kw))})
    if op == "rotate":
        return expect({"rotate": attempt(lambda: rotate(c["ks"][0])(f)(*args, **kw))})
    if op == "apply":
        k = c["ks"][0]
        for seqtype in (list, tuple, iter):
            bad = expect({"apply": attempt(lambda: apply(f, *args[:k], seqtype(args[k:]), **kw))})
            if bad:
                return bad
        return None
    if op == "withself":
        g = withself(lambda self, *a, **k: self if not a and not k else (seen.append((a, k)), "result" if self() is g else "wrong self")[1])
        if not n and not kw:
            return None if g() is g else "withself: self is not the function"
        return expect({"withself": attempt(lambda: g(*args, **kw))})
    if op in ("identity", "const"):
        v = identity(*args, **kw) if op == "identity" else const(*args, **kw)(1, 2, z=3)
        if n == 0 and not kw:
            return None if v is None else f"{op}(): {v!r}"
        if n == 1 and not kw:
            return None if v is args[0] else f"{op}: {v!r}"
        if isinstance(v, Values) and list(v.rets) == args and dict(v.kwrets.items()) == kw:
            return None
        return f"{op}: {v!r}"
    if op == "to":
        calls = []

        def tag(i):
            def g(x):
                calls.append(i)
                return T(*x.h, 100 + i)
            return g
        specs = [(k, tag(i + 1)) for i, k in enumerate(c["ks"])]
        forms = {"to": lambda: to(*specs)(*args, **kw)}
        if len(specs) == 1:
            k, g = specs[0]
            forms["tokth"] = lambda: tokth(k, g)(*args, **kw)
            if k in (0, 1, -1):
                forms["to1st/2nd/last"] = lambda: {0: to1st, 1: to2nd, -1: tolast}[k](g)(*args, **kw)
        for name, form in forms.items():
            calls.clear()
            v, e = attempt(form)
            if e != r["e"] or calls != list(range(1, r["m"] + 1)):
                return f"{name} {c['ks']} on {n} args: {e!r} after applications {calls}, specification {r}"
            if not e and (not isinstance(v, Values) or [list(x.h) for x in v.rets] != r["a"] or dict(v.kwrets.items()) != kw):
                return f"{name} {c['ks']} on {n} args: {v!r}, specification {r}"
        return None
    # and / or
    vals = [{"t": [i], "f": (), "n": None}[t] for i, t in enumerate(c["terms"])]
    fs = [lambda *a, i=i: (seen.append((i, a)), vals[i])[1] for i in range(len(vals))]
    v = (andf if op == "and" else orf)(*fs)(*args)
    if [i for i, a in seen] != list(range(r["m"])) or any(list(a) != args for i, a in seen):
        return f"{op} {c['terms']}: evaluated {seen}, specification: the first {r['m']}"
    exp = {"True": True, "False": False}.get(r["e"])
    if r["e"] == "term":
        ok = v is vals[r["m"] - 1]
    else:
        ok = v is exp
    if not ok:
        return f"{op} {c['terms']}: {v!r}, specification {r}"
    for x in vals:
        if notf(lambda: x)() is not (not x):
            return f"notf({x!r})"
    return None
