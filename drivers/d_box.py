"""Replays Box.tla into box, ThreadLocalBox, unbox and Shim."""
import threading
import queue
from unpythonic import box, ThreadLocalBox, unbox, Shim, Some, foldr
from . import machine

VALS = {"0": 0, "None": None, "a": [], "w": "w", "fq": 0.5}
BACK = {"0": lambda v: v is VALS["0"], "None": lambda v: v is None, "a": lambda v: v is VALS["a"], "w": lambda v: v == "w", "fq": lambda v: v == 0.5}


def name(v):
    for k, f in BACK.items():
        if f(v):
            return k
    return repr(v)


class Obj:
    pass


class Falsy:
    def __len__(self):
        return 0


class Worker(threading.Thread):
    def __init__(self):
        super().__init__(daemon=True)
        self.q, self.r = queue.Queue(), queue.Queue()
        self.start()

    def run(self):
        while (f := self.q.get()) is not None:
            try:
                self.r.put((True, f()))
            except BaseException as e:
                self.r.put((False, e))

    def __call__(self, f):
        self.q.put(f)
        ok, v = self.r.get(timeout=20)
        if ok:
            return v
        raise v


POOL = {}


class World:
    """A fresh set of boxes; every operation runs in the thread that the behaviour names."""
    def __init__(self, case, variant):
        self.case, self.variant = case, variant
        self.objs = {"A": Obj(), "B": (Obj, Falsy)[variant % 2](), "F": (Obj, Falsy)[variant // 2 % 2]()}
        self.objs["F"].q = VALS["fq"]
        cls = ThreadLocalBox if case["local"] else box
        self.b = cls(VALS["0"])
        self.t = cls(self.objs["A"])
        if case["fb"]:
            fb = self.objs["F"]
            how = variant % 3
            if how == 1:
                fb = box(fb)
            elif how == 2:
                fb = Shim(box(Obj()), fb)     # a chain of fallbacks
            self.s = Shim(self.t, fb)
        else:
            self.s = Shim(self.t)
        # new threads for thread-local boxes: what a thread has seen before must not matter
        self.workers = {}

    def worker(self, t):
        if t not in POOL:
            POOL[t] = Worker()
        return POOL[t]

    def apply(self, o):
        return self.worker(o["t"])(lambda: self.do(o["op"], o["x"], o["y"]))

    def do(self, op, x, y):
        v = self.variant
        try:
            if op == "get":
                r = unbox(self.b) if v % 2 else self.b.get()
                (item,) = self.b
                if item is not r or len(self.b) != 1 or r not in self.b or "other" in self.b or not (self.b == r) or self.b == "other" or self.b != box(r) or self.b == box("other"):
                    return {"kind": "inconsistent", "v": repr(r)}
                return {"kind": "ok", "v": name(r)}
            if op == "set":
                r = (self.b << VALS[x]) if v % 2 else self.b.set(VALS[x])
                return {"kind": "ok", "v": name(r)}
            if op == "point":
                r = (self.t << self.objs[x]) if v % 2 else self.t.set(self.objs[x])
                return {"kind": "ok", "v": x if r is self.objs[x] else "?"}
            if op == "clear":
                self.b.clear()
            elif op == "unpoint":
                self.t.clear()
            elif op == "setdefault":
                self.b.setdefault(VALS[x])
            elif op == "deftarget":
                self.t.setdefault(self.objs[x])
            elif op == "getdefault":
                return {"kind": "ok", "v": name(self.b.getdefault())}
            elif op == "owrite":
                setattr(self.objs[x], y, "w")
            elif op == "write":
                setattr(self.s, x, VALS[y])
            elif op == "read":
                return {"kind": "ok", "v": name(getattr(self.s, x))}
            return {"kind": "ok", "v": ""}
        except AttributeError:
            return {"kind": "AttributeError", "v": ""}


def replay(case):
    for v in range(6):
        r = machine.run(case, lambda c: World(c, v), lambda w, o: w.apply(o), lambda w: {})
        if r:
            return f"variant {v}: {r}"
    for bad in (42, None, [1]):
        for f in (unbox, Shim):
            try:
                f(bad)
                return f"{f.__name__} accepts {bad!r}"
            except TypeError:
                pass
    s = Some(None)
    if unbox(s) is not None or list(s) != [None] or len(s) != 1 or s is None or None not in s or s.get() is not None:
        return "Some(None)"
    return None
