"""Multiple dispatch: registration histories of Dispatch.tla, all calls of each table made for real."""
import linecache
import types
import typing

from unpythonic import generic, typed, augment, isgeneric, curry, iscurried, dyn, Values
from unpythonic.dispatch import list_methods


class A: pass
class B(A): pass
class C(A): pass
class D(B, C): pass


VAL = {"a": A(), "b": B(), "c": C(), "d": D(), "i": 0, "t": True, "n": None}
TYPE = {"A": "A", "B": "B", "C": "C", "int": "int", "Any": "typing.Any", "BI": "typing.Union[B, int]", "OB": "typing.Optional[B]"}
DEFAULT = {"A": "VAL['a']", "B": "VAL['b']", "C": "VAL['c']", "int": "0", "Any": "None", "BI": "0", "OB": "None"}
counter = [0]


def params(sig, first=()):
    out = list(first)
    names = ["x", "y", "z"]
    for i, t in enumerate(sig["pos"]):
        out.append(f"{names[i]}: {TYPE[t]}" + (f" = {DEFAULT[t]}" if sig["opt"] and i == len(sig["pos"]) - 1 else ""))
    if sig["var"]:
        out.append(f"*args: typing.Tuple[{TYPE[sig['var']]}, ...]")
    return ", ".join(out)


def build(src, extra=None):
    counter[0] += 1
    name = f"vpgen{counter[0]}"
    fn = f"<{name}>"
    if counter[0] % 3:     # else: source not available
        linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = {"__name__": name, "typing": typing, "generic": generic, "typed": typed, "augment": augment, "A": A, "B": B, "C": C, "D": D, "VAL": VAL}
    ns.update(extra or {})
    exec(compile(src, fn, "exec"), ns)
    return ns, fn


def body(tag, sig, me=""):
    vs = ["x", "y", "z"][:len(sig["pos"])]
    tup = "(" + "".join(v + ", " for v in vs) + ")" + (" + args" if sig["var"] else "")
    return f"    return ({tag!r}, {tup}{', ' + me if me else ''})\n"


def call(f, args, named):
    vals = [VAL[a] for a in args]
    if named and vals:
        return f(*vals[:-1], **{"xyz"[len(vals) - 1]: vals[-1]})
    return f(*vals)


def attempt(f):
    try:
        return f(), ""
    except TypeError as e:
        return None, f"TypeError: {e}"


def tableok(f, table, tagof, what):
    for row in table:
        if row["named"] and not row["a"]:
            continue
        v, e = attempt(lambda: call(f, row["a"], row["named"]))
        exp = tagof(row["r"])
        if exp is None:
            if not e:
                return f"{what}: call with {row} ran {v[0]}, specification: TypeError"
        elif e or v[0] != exp:
            return f"{what}: call with {row}: {e or 'ran ' + str(v[0])}, specification: multimethod {exp}"
        elif not all(x is y for x, y in zip(v[1], (VAL[a] for a in row["a"]))) or len(v[1]) < len(row["a"]):
            return f"{what}: call with {row}: the multimethod saw {v[1]}"
    return None


def replay(case):
    if "oop" in case:
        return replay_oop(case)
    if "curry" in case:
        return replay_curry(case)
    reg = case["reg"]
    # same name in the same scope
    src = "".join(f"@generic\ndef f({params(s)}):\n{body(i + 1, s)}" for i, s in enumerate(reg))
    # the rest added with augment, from another module
    for form in ("generic", "augment", "nested"):
        if form == "generic":
            ns, fn = build(src)
            f = ns["f"]
        elif form == "nested":
            ns, fn = build("def outer():\n" + "".join("    " + line for line in src.splitlines(True)) + "    return f\n")
            f = ns["outer"]()
        else:
            ns, fn = build(f"@generic\ndef f({params(reg[0])}):\n{body(1, reg[0])}")
            f = ns["f"]
            for i, s in enumerate(reg[1:]):
                ns2, fn2 = build(f"@augment(f)\ndef other{i}({params(s)}):\n{body(i + 2, s)}", {"f": f})
                if ns2[f"other{i}"] is not f:
                    return "augment does not return the dispatcher"
        if isgeneric(f) != "generic":
            return "isgeneric"
        if len(list_methods(f)) != len(reg):
            return f"{form}: list_methods reports {len(list_methods(f))} multimethods, {len(reg)} registered"
        bad = tableok(f, case["table"], lambda r: r or None, f"{form} {[params(s) for s in reg]}")
        linecache.cache.pop(fn, None) if form != "augment" and not bad else None
        if bad:
            return bad
    if len(reg) == 1:
        ns, fn = build(src.replace("@generic", "@typed"))
        f = ns["f"]
        bad = tableok(f, case["table"], lambda r: r or None, f"typed {params(reg[0])}")
        if bad:
            return bad
        _, e = attempt(lambda: build(f"@augment(f)\ndef g(x: int):\n    return 1\n", {"f": f}))
        if not e:
            return "a typed function accepts another multimethod"
        bad = tableok(f, case["table"], lambda r: r or None, f"typed, after a refused registration {params(reg[0])}")
        if bad:
            return bad
    return None


HIER = {"chain": (("P", ""), ("Q", "(P)"), ("S", "(Q)")),
        "diamond": (("P", ""), ("Q", "(P)"), ("T", "(P)"), ("S", "(Q, T)")),
        "vee": (("P", ""), ("Q", "(P)"), ("T", ""), ("S", "(Q, T)"))}


def replay_oop(case):
    oop = case["oop"]
    for kind in ("instance", "falsy", "classmethod", "this", "onclass"):
        me = {"classmethod": "cls", "this": "this"}.get(kind, "self")
        src = ""
        for c, base in HIER[case["hier"]]:
            src += f"class {c}{base}:\n    pass\n"
            if not base and kind == "falsy":
                src += "    def __len__(self):\n        return 0\n"
            for i, s in enumerate(oop[c]):
                src += ("    @classmethod\n" if kind == "classmethod" else "") + f"    @generic\n    def m({params(s, [me])}):\n    " + body([c, i + 1], s, me)
        ns, fn = build(src)
        for c, _ in HIER[case["hier"]]:
            K = ns[c]
            rows = [r for r in case["table"] if r["c"] == c]
            if not rows:
                continue
            o = K()
            f = K.m if kind == "classmethod" else (lambda *a, K=K, o=o, **k: K.m(o, *a, **k)) if kind == "onclass" else o.m
            bad = tableok(f, rows, lambda r: r if r[1] else None, f"{kind} {({k: [params(s) for s in v] for k, v in oop.items()})} on {c}")
            if bad:
                return bad
            for row in rows:
                if row["r"][1]:
                    if call(f, row["a"], False)[2] is not (K if kind == "classmethod" else o):
                        return f"{kind}: the multimethod got another self"
                    break
        linecache.cache.pop(fn, None)
    return None


def replay_curry(case):
    reg = case["curry"]
    ns, fn = build("".join(f"@generic\ndef f({params(s)}):\n{body(i + 1, s)}" for i, s in enumerate(reg)))
    f = ns["f"]
    desc = [params(s) for s in reg]
    for row in case["table"]:
        for ctx in (False, True):
            cur = curry(f)
            seen = []
            with (dyn.let(curry_context=["x"]) if ctx else dyn.let()):
                for j, (chunk, exp) in enumerate(zip(row["chunks"], row["r"])):
                    seen += [VAL[a] for a in chunk]
                    v, e = attempt(lambda: cur(*[VAL[a] for a in chunk]))
                    act, i, k = exp
                    if act == "keep":
                        if e or not iscurried(v):
                            return f"curry of {desc}: {row['chunks'][:j + 1]}: {e or v!r}, specification: keep currying"
                        cur = v
                        continue
                    if act == "err" or (act == "pass" and not ctx):
                        if not e:
                            return f"curry of {desc}: {row['chunks'][:j + 1]} (context {ctx}): {v!r}, specification: TypeError"
                        break
                    if act == "call":
                        good = not e and isinstance(v, tuple) and v[0] == i and all(x is y for x, y in zip(v[1], seen))
                    else:
                        good = not e and isinstance(v, Values) and v.rets[0][0] == i and all(x is y for x, y in zip(v.rets[0][1], seen[:k])) and \
                            len(v.rets) == 1 + len(seen) - k and all(x is y for x, y in zip(v.rets[1:], seen[k:]))
                    if not good:
                        return f"curry of {desc}: {row['chunks'][:j + 1]} (context {ctx}): {e or v!r}, specification {exp}"
    linecache.cache.pop(fn, None)
    return None
