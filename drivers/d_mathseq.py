"""Replays MathSeq.tla."""
import itertools
import math
import operator

import unpythonic as U
from unpythonic import mathseq as M


class Src:
    """An iterable that counts what has been read and can be read only once."""
    def __init__(self, items):
        self.items, self.n = items, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.n >= len(self.items):
            raise StopIteration
        self.n += 1
        return self.items[self.n - 1]


class T:
    def __init__(self, s):
        self.s = s

    def __hash__(self):
        return hash(self.s)


def _t(x):
    return x.s


def _add(o, names):
    for nm, refl in names:
        if refl:
            setattr(T, nm, lambda self, other, o=o: T(f"({_t(other)} {o} {self.s})"))
        else:
            setattr(T, nm, lambda self, other, *mod, o=o: T(f"({self.s} {o} {_t(other)}" + "".join(f" mod {m}" for m in mod) + ")"))


BIN = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv, "floordiv": operator.floordiv, "mod": operator.mod, "divmod": divmod,
       "pow": operator.pow, "lshift": operator.lshift, "rshift": operator.rshift, "and": operator.and_, "xor": operator.xor, "or": operator.or_, "lt": operator.lt,
       "le": operator.le, "eq": operator.eq, "ne": operator.ne, "ge": operator.ge, "gt": operator.gt}
UN = {"neg": operator.neg, "pos": operator.pos, "abs": abs, "invert": operator.invert, "round": round, "trunc": math.trunc, "floor": math.floor, "ceil": math.ceil}
CMP = {"lt": "gt", "le": "ge", "eq": "eq", "ne": "ne", "ge": "le", "gt": "lt"}
for _o in BIN:
    _add(_o, [(f"__{_o}__", False)])
for _o in UN:
    setattr(T, f"__{_o}__", lambda self, *a, o=_o: T(f"({o} {self.s}" + "".join(f" {x}" for x in a) + ")"))


def build(a, mk):
    return T(a["v"]) if a["q"] == "x" else mk([build(x, list) for x in a["k"]])


def show(x):
    return x.s if isinstance(x, T) else [show(e) for e in x]


def want(r):
    return r["v"] if r["q"] == "x" else [want(e) for e in r["k"]]


def flip(w, o, a):
    """`scalar op seq` with a comparison is delegated by Python to the reflected comparison."""
    if isinstance(w, list):
        return [flip(x, o, a) for x in w]
    l, r = w[1:-1].split(f" {o} ")
    return f"({r} {CMP[o]} {l})"


def op(case):
    c, r = case["c"], want(case["r"])
    o = c["o"]
    if c["g"] == "op1":
        f = getattr(M, "s" + o)
        for lab, v in (("function, list", lambda: f(build(c["a"], list))), ("function, iterator", lambda: f(build(c["a"], iter))), ("infix", lambda: UN[o](M.imathify(build(c["a"], iter))))):
            got = show(v())
            if got != r:
                return f"{o} ({lab}) of {c['a']}: {got}, specification {r}"
        if o == "round":
            got = show(round(M.imathify(build(c["a"], iter)), 2))
            if got != [x if isinstance(x, list) else x[:-1] + " 2)" for x in r] and not any(isinstance(x, list) for x in r):
                return f"round with digits: {got}"
        src = Src(build(c["a"], list))
        for k, _ in enumerate(UN[o](M.imathify(src)), 1):
            if src.n > k:
                return f"{o}: {src.n} items read at output {k}"
        return None
    f = getattr(M, "s" + o)
    mk = {"list": list, "iterator": iter, "infix": lambda xs: M.imathify(iter(xs))}
    for lab in mk:
        m = mk[lab]
        a, b = build(c["a"], m), build(c["b"], m)
        w = r
        if lab == "infix":
            if isinstance(a, T):    # a scalar on the left; the symbolic scalar gives way to the sequence
                a = Scalar(a.s)
            if isinstance(b, T):
                b = Scalar(b.s)
            got = show2(BIN[o](a, b))
            if c["a"]["q"] == "x" and o in CMP:
                w = flip(r, o, None)
        else:
            got = show(f(a, b))
        if got != w:
            return f"{o} ({lab}) of {c['a']}, {c['b']}: {got}, specification {w}"
    sa, sb = (Src(build(c[x], list)) if c[x]["q"] == "s" else build(c[x], list) for x in "ab")
    res = f(sa, sb)
    for k, _ in enumerate(res, 1):
        if any(isinstance(x, Src) and x.n > k for x in (sa, sb)):
            return f"{o}: more than {k} items read at output {k}"
    if o == "pow" and c["a"]["q"] == c["b"]["q"] == "s" and all(x["q"] == "x" for x in c["a"]["k"] + c["b"]["k"]):
        got = [pow(x, y, 7) for x, y in zip([2, 3, 4], [5, 6])]
        if list(pow(M.imathify([2, 3, 4]), M.imathify([5, 6]), 7)) != got or list(M.spow([2, 3, 4], [5, 6], 7)) != got:
            return "pow with a modulus"
    return None


class Scalar:
    """A scalar operand that knows nothing of the operation: Python must delegate to the sequence."""
    def __init__(self, s):
        self.s = s


def show2(x):
    return x.s if isinstance(x, (T, Scalar)) else [show2(e) for e in x]


for _o in BIN:      # T op Scalar and Scalar op T, elementwise
    if _o not in CMP:
        setattr(T, f"__r{_o}__", lambda self, other, o=_o: T(f"({other.s} {o} {self.s})"))
del T.__hash__
T.__hash__ = lambda self: hash(self.s)


def close(x, q):
    v = q[0] / q[1] if len(q) == 2 else q[0] * float(q[1]) ** (q[2] / q[3])
    return abs(x - v) <= 1e-8 * max(1.0, abs(v))


def spec(case):
    c, r = case["c"], case["r"]
    args = list(c["t"]) + [...] + ([c["last"]] if c["last"] != 9999 else [])
    for conv in (lambda x: x, float):
        a = [x if x is ... else conv(x) for x in args]
        try:
            g = U.s(*a)
        except SyntaxError:
            if r["ok"]:
                return f"s{tuple(a)}: refused, specification {r['kind']}: {r['terms']}"
            continue
        if not r["ok"]:
            return f"s{tuple(a)}: gives {list(itertools.islice(g, 6))}, specification: refused"
        got = list(itertools.islice(g, 3000)) if r["n"] else list(itertools.islice(g, len(r["terms"])))
        if r["n"]:
            if len(got) != r["n"] or abs(got[-1] - c["last"]) > 1e-8 * max(1.0, abs(c["last"])):
                return f"s{tuple(a)}: {len(got)} terms, {got[:5]}...{got[-2:]}, specification {r['n']}"
            got = got[:len(r["terms"])]
        if len(got) != len(r["terms"]) or not all(close(x, q) for x, q in zip(got, r["terms"])):
            return f"s{tuple(a)}: {got}, specification {r['kind']}: {r['terms']}"
        if conv is not float and r["kind"] in ("const", "arith") and not all(isinstance(x, int) for x in got):
            return f"s{tuple(a)}: {got}, not integers"
    return None


def diag(case):
    c, d = case["c"], case["r"]["d"]
    la, lb, req = c["la"], c["lb"], c["req"]
    sa, sb = Src([("a", i) for i in range(la)]), Src([("b", i) for i in range(lb)])
    g = U.diagonal_reduce(sa, sb, combine=lambda x, y: list(zip(x, y)), reduce=lambda z: [[p[0][1], p[1][1]] for p in z if p[0][0] == "a" and p[1][0] == "b"], require=req)
    got = []
    for x in g:
        got.append(x)
        if max(sa.n, sb.n) > len(got):
            return f"diagonal_reduce({la}, {lb}, {req}): {sa.n}, {sb.n} items read at output {len(got)}"
    if got != d:
        return f"diagonal_reduce({la}, {lb}, {req}): {got}, specification {d}"
    a, b = [2 * i + 3 for i in range(la)], [5 ** i for i in range(lb)]
    w = [sum(a[i] * b[j] for i, j in ps) for ps in d]
    for mk in (list, iter, M.imathify):
        got = list(U.cauchyprod(mk(a), mk(b), require=req))
        if got != w:
            return f"cauchyprod({a}, {b}, {req}): {got}, specification {w}"
    if req == "any" and list(U.cauchyprod(a, b)) != w:
        return f"cauchyprod({a}, {b}) by default"
    return None


def cyc(case):
    c, w = case["c"], case["r"]["out"]
    try:
        got = list(itertools.islice(U.s(*c["i"], c["r"], ...), 8))
    except SyntaxError:
        got = None
    if got != (w if c["r"] else None):
        return f"s({c['i']}, {c['r']}, ...): {got}, specification {w}"
    try:
        if c["r"]:
            U.s(*c["i"], c["r"])
            return "a cyclic sequence without a final ... is not refused"
    except SyntaxError:
        pass
    if c["i"] and list(U.s(*c["i"])) != c["i"]:
        return f"s{tuple(c['i'])}: {list(U.s(*c['i']))}"
    return None


def nums(case):
    r = case["r"]
    ps = [i + 1 for i, x in enumerate(r["primes"]) if x]
    for opt in ("speed", "memory"):
        a, b = iter(U.primes(optimize=opt)), iter(U.primes(optimize=opt))
        ga = list(itertools.islice(a, len(ps) // 2))
        gb = list(itertools.islice(b, len(ps)))
        ga += list(itertools.islice(a, len(ps) - len(ga)))
        if ga != ps or gb != ps:
            return f"primes({opt}): {ga[:20]}... {gb[:20]}..., specification {ps[:20]}..."
    if list(itertools.islice(U.fibonacci(), len(r["fib"]))) != r["fib"] or list(itertools.islice(U.triangular(), len(r["tri"]))) != r["tri"]:
        return "fibonacci or triangular"
    return None


def replay(case):
    return {"spec": spec, "op1": op, "op2": op, "diag": diag, "cyc": cyc, "nums": nums}[case["c"]["g"]](case)
