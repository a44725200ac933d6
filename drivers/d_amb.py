"""Replays Amb.tla: programs for the function form (unpythonic.amb) and for the macro form (unpythonic.syntax.forall)."""
import mcpyrate.activate  # noqa: F401
import sys
import types
from mcpyrate.compiler import run as mrun
from unpythonic.amb import forall, choice, insist, deny, MonadicList, monadify

REAL = [{"x": "x", "y": "y"}, {"x": "e", "y": "names"}, {"x": "self", "y": "x"}, {"x": "begin", "y": "v0"}]
LISTS = [[], [0], [2, 0, 1], [1, 1]]


class Fail(Exception):
    pass


def gen(bad):
    yield 1
    if bad:
        raise TypeError("from the generator")
    yield 0


def typeerr(x):
    if x == 1:
        raise TypeError("from the body")
    return x


def items(e, how, wrap):
    """Python source of the expression of a line; wrap(name) reads a variable."""
    k = e["k"]
    x = wrap(e["n"]) if e["n"] else ""
    y = wrap(e["m"]) if e["m"] else ""
    if k == "const":
        return "0"
    if k == "list":
        lst = LISTS[e["v"]]
        return [repr(lst), repr(tuple(lst)), f"(q for q in {lst!r})", f"MonadicList(*{lst!r})"][how % 4]
    return {"ref": x, "range": f"range({x})", "pair": [f"[{x}, 2 - {x}]", f"({x}, 2 - {x})", f"iter([{x}, 2 - {x}])"][how % 3],
            "div": f"2 // {x}", "typeerr": f"typeerr({x})", "insist": f"insist({x})", "deny": f"deny({x})",
            "less": f"insist({x} < {y})", "tup": f"({x}, {y})", "gen": f"gen({e['v']})"}[k]


def fin(v):
    """The last line: what one result looks like."""
    if isinstance(v, (bool, int)):
        return [int(v)]
    if isinstance(v, (list, tuple)):
        return [-1] + list(v)
    return [-1] + list(v)   # an iterator or a range, as one item


def observe(thunk, log):
    log.clear()
    try:
        r = thunk()
    except (NameError, AttributeError):
        return {"log": log[:], "res": None, "err": "NameError"}
    except (ZeroDivisionError, TypeError) as err:
        return {"log": log[:], "res": None, "err": type(err).__name__}
    if type(r) is not tuple:
        raise Fail(f"the result is {r!r}, not a tuple")
    return {"log": log[:], "res": [fin(v) for v in r], "err": ""}


def replay(case):
    p, exp = case["p"], case["r"]
    want = dict(exp, res=exp["res"] if exp["err"] == "" else None)
    n = len(p)
    for how in range(4):
        log = []
        ns = {"gen": gen, "typeerr": typeerr, "insist": insist, "deny": deny, "MonadicList": MonadicList, "choice": choice, "forall": forall,
              "note": lambda i: log.append(i)}
        real = REAL[how]
        srcs = []
        for i, l in enumerate(p, 1):
            h = how + i if not (i == n) else (how % 3 if p[-1]["e"]["k"] != "list" else how % 3)
            srcs.append((real.get(l["b"], ""), i, l["e"], h))
        # function form
        parts = []
        for b, i, e, h in srcs:
            s = f"(lambda q_: (note({i}), {items(e, h, lambda nm: 'q_.' + real[nm])})[1])"
            parts.append(f"choice({b}={s})" if b else s)
        code = "forall(" + ", ".join(parts) + ")"
        got = observe(lambda: eval(code, ns), log)
        if got != want:
            return f"{code}: {got}, specification {want}"
        if how > 1 and any(l["e"]["k"] in ("list",) for l in p):
            continue
        # macro form
        op = (":=", "<<")[how % 2]
        parts = []
        for b, i, e, h in srcs:
            s = f"(note({i}), {items(e, h, lambda nm: real[nm])})[1]"
            parts.append(f"{b} {op} {s}" if b and op == "<<" else (f"({b} := {s})" if b else s))
        if n == 1:
            parts.append("")   # a one-line program is a tuple of one
        code = "from unpythonic.syntax import macros, forall\ndef go():\n    return forall[" + ", ".join(parts) + "]\n"
        mod = types.ModuleType("amb_case")
        mod.__file__ = "amb_case.py"
        mod.__dict__.update({k: v for k, v in ns.items() if k not in ("forall", "choice")})
        sys.modules["amb_case"] = mod
        mrun(code, mod)
        got = observe(mod.go, log)
        if got != want:
            return f"{code}: {got}, specification {want}"
    # constant lines need no environment; a line that is a plain value behaves as a function giving it
    if all(l["e"]["k"] in ("list", "const") for l in p):
        args = [LISTS[l["e"]["v"]] if l["e"]["k"] == "list" else 0 for l in p]
        r = forall(*[choice(**{l["b"]: a}) if l["b"] else a for l, a in zip(p, args)])
        if [fin(v) for v in r] != exp["res"]:
            return f"plain values {args}: {r}"
        return monad(args)
    return None


def monad(args):
    """Monad laws of MonadicList on the lists of the program."""
    ms = [MonadicList(*a) if isinstance(a, list) else MonadicList(a) for a in args]
    f = MonadicList.lift(lambda x: x + 1)
    g = lambda x: MonadicList.from_iterable(range(x))
    for m, a in zip(ms, args):
        raw = tuple(a) if isinstance(a, list) else (a,)
        if tuple(m) != raw or len(m) != len(raw) or m != raw or m.copy() is m or m.copy() != m or any(m[i] != raw[i] for i in range(len(raw))):
            return f"MonadicList {m!r} from {a!r}"
        if m == raw + (9,) or m == MonadicList(*raw, 9) or (raw and m == raw[:-1] + (9,)):
            return f"{m!r} equals something else"
        if tuple(m >> f) != tuple(x + 1 for x in raw) or tuple(m >> g) != tuple(y for x in raw for y in range(x)):
            return f"bind of {m!r}"
        if tuple((m >> g) >> f) != tuple(m >> (lambda x: g(x) >> f)):
            return "associativity"
        if tuple(m.fmap(lambda x: x * 2)) != tuple(x * 2 for x in raw) or tuple(m.fmap(g).join()) != tuple(m >> g):
            return "fmap, join"
        for m2, a2 in zip(ms, args):
            raw2 = tuple(a2) if isinstance(a2, list) else (a2,)
            if tuple(m + m2) != raw + raw2 or tuple(m.then(m2)) != raw2 * len(raw) or (m == m2) != (raw == raw2):
                return f"{m!r} with {m2!r}"
        try:
            m.then(raw)
            return "then accepts what is not a MonadicList"
        except TypeError:
            pass
        if raw:
            try:
                m.join()
                return "join accepts a list of non-lists"
            except TypeError:
                pass
        if monadify(m) is not m or tuple(monadify(list(raw))) != raw or tuple(monadify(list(raw), False)) != (list(raw),):
            return "monadify"
    return None
