"""Replays Fix.tla into fix and fixtco."""
import typing
import threading
from unpythonic import fix, fixtco, jump, trampolined
import unpythonic.fix  # noqa: F401
import sys
fixmod = sys.modules["unpythonic.fix"]


class Boom(Exception):
    pass


class Base(BaseException):
    pass


def build(case, how, log, hook=lambda: None):
    g, opt = case["g"], case["opt"]
    deco = fixtco if opt["tco"] else fix
    exc = (Boom, Base, TypeError)[how % 3]
    bottoms = {0: dict(bottom=lambda name, *a, **k: ("bot", name, a, k)), 1: {}, 2: dict(bottom=None)}
    d = deco(memo=opt["memo"], **bottoms[how % 3])

    def body(i, names):
        log.append(i)
        hook()
        nd = g[i - 1]
        acc = []
        for j in nd["calls"]:
            if nd["catch"]:
                try:
                    acc.append(names[j % 2](j))
                except exc as err:
                    acc.append("!" + str(err))
            else:
                acc.append(names[j % 2](j))
        e = nd["end"]["e"]
        if e == "ret":
            return (i, acc)
        if e == "raise":
            raise exc(f"boom{i}")
        j = nd["end"]["to"]
        if opt["tco"]:
            return jump(names[j % 2], j) if how % 2 else jump(names[j % 2], i=j)
        return names[j % 2](j)

    # two mutually recursive functions: even nodes are calls of f, odd nodes are calls of h
    @d
    def f(i):
        return body(i, names)

    @d
    def h(i):
        return body(i, names)
    names = [f, h]
    return names, exc


def show(v, how):
    if how % 3 == 0 and isinstance(v, tuple) and len(v) == 4 and v[0] == "bot":
        (_, name, a, k) = v
        j = a[0] if a else k["i"]
        if len(a) + len(k) != 1 or name != ("f", "h")[j % 2]:
            return f"bad bottom call {v!r}"
        return f"bot{j}"
    if how % 3 == 1 and v is typing.NoReturn:
        return "bot"
    if how % 3 == 2 and v is None:
        return "bot"
    if isinstance(v, str):
        return v
    i, acc = v
    return f"({i}" + "".join(show(x, how) for x in acc) + ")"


def strip(s):
    out = []
    k = 0
    while k < len(s):
        out.append(s[k])
        if s[k:k + 3] == "bot":
            out.append("ot")
            k += 4
        else:
            k += 1
    return "".join(out)


def once(names, exc, i, how):
    try:
        r = names[i % 2](i)
    except exc as err:
        return {"k": "exc", "v": str(err)}
    return {"k": "ok", "v": show(r, how)}


def clean():
    e = fixmod._get_threadlocals() if hasattr(fixmod, "_get_threadlocals") else None
    if e is not None and (getattr(e, "visited", None) or getattr(e, "tco_stack", None)):
        return f"left over after the call: {e!r}"
    return None


DEEP = []


def deep():
    """A long chain of tail calls needs no stack."""
    @fixtco()
    def down(n):
        return jump(down, n - 1) if n else "end"
    return None if down(3000) == "end" else "long tail chain"


def replay(case):
    if not DEEP:
        DEEP.append(deep())
    if DEEP[0]:
        return DEEP[0]
    acyc = all(("bot" not in x["r"]["v"]) for x in case["r"])
    for how in range(6):
        log = []
        names, exc = build(case, how, log)
        for k, (i, want) in enumerate(zip(case["top"], case["r"])):
            log.clear()
            got = once(names, exc, i, how)
            w = dict(want["r"])
            if how % 3:
                w["v"] = strip(w["v"])
            if got != w:
                return f"call {k + 1} (node {i}) gives {got}, specification {w}; bottom variant {how}"
            if len(log) != want["n"]:
                return f"call {k + 1} (node {i}) ran {log}, specification {want['n']} bodies"
    if not case["opt"]["memo"]:
        # another thread, while this one is in the middle of a computation
        busy, go = threading.Event(), threading.Event()
        main = threading.current_thread()
        state = {"n": 0}

        def hook():
            if threading.current_thread() is not main:
                state["n"] += 1
                if state["n"] == case["r"][0]["n"]:   # the last body entered by the other thread
                    busy.set()
                    go.wait(10)
        names, exc = build(case, 0, [], hook)
        box = []
        t = threading.Thread(target=lambda: box.append(once(names, exc, case["top"][0], 0)), daemon=True)
        t.start()
        busy.wait(10)
        mine = [once(names, exc, i, 0) for i in case["top"]]
        go.set()
        t.join(10)
        if mine != [x["r"] for x in case["r"]] or box != [case["r"][0]["r"]]:
            return f"with another thread in the middle of a computation: {mine}, {box}, specification {[x['r'] for x in case['r']]}"
    return None
