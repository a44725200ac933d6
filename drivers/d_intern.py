"""Symbols and singletons: histories of Intern.tla, and concurrent runs."""
import copy
import os
import pickle
import sys
import types

from vp import sched
PKG = sched.install(os.environ["VP_REPO"])
FILES = (os.path.join(PKG, "symbol"), os.path.join(PKG, "singleton"))

from unpythonic.symbol import sym, gensym       # noqa: E402
from unpythonic.singleton import Singleton       # noqa: E402
from drivers import machine       # noqa: E402

mod = types.ModuleType("vp_classes")
sys.modules["vp_classes"] = mod


class S1(Singleton):
    def __init__(self, v):
        self.v = v


class S2(S1):
    pass


class Mixin:
    def __init__(self, v):
        self.v = v


class S3(Mixin, Singleton):
    pass


for c in (S1, S2, S3):
    c.__module__, c.__qualname__ = "vp_classes", c.__name__
    setattr(mod, c.__name__, c)
CLS = dict(S1=S1, S2=S2, S3=S3)
NAMES = {"a": "cat", "b": "", "c": ("t", 1)}


class World:
    def __init__(self):
        self.slot, self.blob, self.gens = {}, {}, {}


def fresh(case):
    w = World()
    w.slots = range(1, 1 + len((case["h"] + (case.get("t") or []))[0]["r"]["show"]))
    return w


def attr(o):
    return getattr(o, "v", 0)


def apply(w, o):
    op, s, k, n = o["op"], o["s"], o["k"], o["n"]
    try:
        if op == "make":
            if k == "gensym":
                new = gensym("cat" if n == 0 else "dog")
                w.gens[new.uid] = f"g{len(w.gens) + 1}"
            elif k in CLS:
                new = CLS[k](n)
            else:
                new = sym(NAMES[k])
            if not hasattr(new, "v"):
                new.v = 0
            w.slot[s] = new
        elif op == "drop":
            w.slot.pop(s, None)
        elif op == "set":
            w.slot[s].v = n
        elif op == "assign":
            w.slot[s] = w.slot[n]
        elif op == "copy":
            w.slot[s] = copy.copy(w.slot[n])
        elif op == "deepcopy":
            w.slot[s] = copy.deepcopy([w.slot[n]])[0]
        elif op == "dumps":
            w.blob[n] = pickle.dumps(w.slot[s], protocol=2 + n % 4)
        elif op == "loads":
            w.slot[s] = pickle.loads(w.blob[n])
        return {"kind": "none", "v": ""}
    except TypeError:
        return {"kind": "TypeError", "v": ""}


def key(w, o):
    if isinstance(o, S1) or isinstance(o, S3):
        return type(o).__name__
    if isinstance(o, sym):
        r = [k for k, n in NAMES.items() if n == o.name]
        if r:
            if str(o) != str(NAMES[r[0]]):
                return "str() of a symbol is not its name"
            return r[0]
    return w.gens.get(getattr(o, "uid", None), repr(o))


def observe(w):
    out = []
    for s in w.slots:
        if s not in w.slot:
            out.append(["", 0, 0])
        else:
            o = w.slot[s]
            out.append([key(w, o), attr(o), min(q for q in w.slot if w.slot[q] is o)])
    return {"show": out}


def replay(case):
    return machine.run(case, fresh, apply, observe)


def record(case):
    events, keep, serial = [], {}, {}
    blobs = {}
    for k in ("a", "b"):
        blobs[k] = pickle.dumps(sym(NAMES[k]))
    blobs["G"] = pickle.dumps(gensym("cat"))
    x = S1(0)
    blobs["S1"] = pickle.dumps(x)
    del x
    cur = {}
    graveyard = []      # so that numbers are not reused: attributes tell objects apart

    def number(o):
        if "serial" not in o.__dict__:
            graveyard.append(1)
            o.serial = len(graveyard)
        return f"o{o.serial}"

    def worker(name, ops):
        def run():
            for op, k in ops:
                events.append({"e": "call", "t": name, "op": op if not (op == "new" and k not in CLS) else "get", "k": k})
                try:
                    if op == "drop":
                        r = ""
                        cur.pop(name, None)
                    else:
                        if op == "load":
                            v = pickle.loads(blobs[k])
                        elif k in CLS:
                            v = CLS[k](0)
                        else:
                            v = sym(NAMES[k])
                        cur[name] = v
                        del v
                        r = None
                except TypeError:
                    r = "TypeError"
                if r is None:
                    r = number(cur[name])
                events.append({"e": "ret", "t": name, "r": r})
        return run
    s = sched.Sched(FILES, {int(a): b for a, b in case["preempt"]}, order=sorted(case["plan"]), opcodes=not case.get("lines"))
    s.run({n: worker(n, p) for n, p in case["plan"].items()})
    cur.clear()
    if s.exc:
        n, e = next(iter(s.exc.items()))
        return {"fail": f"thread {n} ended with {type(e).__name__}: {e} (schedule {case['preempt']}, plan {case['plan']})"}
    return {"trace": events, "steps": s.step}
