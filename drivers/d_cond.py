"""Replays behaviours of Cond.tla: the script runs as genuinely nested blocks and handlers."""
import threading
import warnings

from unpythonic import conditions as U
from unpythonic.collections import unbox


EXPECT = threading.local()


class Noted:
    """If the library is to make the instance (a class was signalled), note which one it made."""
    def __init__(self, *args):
        super().__init__(*args)
        f = getattr(EXPECT, "f", None)
        if f:
            EXPECT.f = None
            f(self)

    def __str__(self):
        return super().__str__() if self.args else f"<{type(self).__name__}>"


class A(Noted, Exception):
    pass


class B(A):
    pass


class C(Noted, Warning):
    pass


class D(Noted, Exception):
    pass


TYPES = {"A": A, "B": B, "C": C, "D": D, "E": U.ControlError}
PROTO = {"signal": U.signal, "error": U.error, "cerror": U.cerror, "warn": U.warn}


class Mismatch(BaseException):
    pass


class EndOfScript(BaseException):
    pass


class Boom(Exception):
    pass


class Script:
    """Hands out the steps; with several threads, each step to the thread it belongs to."""
    def __init__(self, case):
        self.case, self.pos = case, 0
        self.cv = threading.Condition()
        self.failed = None
        self.multi = len({s["t"] for s in case}) > 1

    def take(self, t):
        if not self.multi:
            if self.pos >= len(self.case):
                raise EndOfScript
            self.pos += 1
            return self.pos, self.case[self.pos - 1]
        with self.cv:
            while True:
                if self.failed or self.pos >= len(self.case) or not any(s["t"] == t for s in self.case[self.pos:]):
                    raise EndOfScript
                if self.case[self.pos]["t"] == t and not self.busy:
                    self.busy = True
                    return self.pos + 1, self.case[self.pos]
                if not self.cv.wait(20):
                    raise Mismatch("stuck")
    busy = False

    def done(self):
        if self.multi:
            with self.cv:
                self.pos += 1
                self.busy = False
                self.cv.notify_all()

    def fail(self, msg):
        with self.cv:
            self.failed = self.failed or msg
            self.cv.notify_all()


class Machine:
    def __init__(self, t, script):
        self.t, self.script = t, script
        self.pending = None      # step whose outcome has not been seen yet
        self.conds = {}          # step -> condition instance signalled
        self.restart_owner = {}  # function -> block id
        self.handler_owner = {}  # function -> [block id, index]
        self.objs = {}           # (block, name) -> restart object

    # --- control arrives somewhere: compare with what the specification says
    def arrive(self, at, ret, check_extra=None):
        n, st = self.pending
        self.pending = None
        r = st["ret"]
        want = (st["at"], r["k"], r["id"], r["name"])
        got = (at,) + ret
        if want != got:
            raise Mismatch(f"step {n} {st['op']}({st['arg']}): control went to (block, how, of, what)={got}, specification: {want}")
        if check_extra:
            msg = check_extra(st)
            if msg:
                raise Mismatch(f"step {n} {st['op']}: {msg}")
        # scope of restarts and handlers, as the library reports them
        vis = {}
        for name, fn in U.available_restarts():
            if not name.startswith("_"):
                vis[name] = self.restart_owner.get(fn, None)
            if U.find_restart(name) is None:
                raise Mismatch(f"step {n}: available restart {name!r} is not found by find_restart")
        exp = dict(st["rs"] or {})
        if set(vis) != set(exp) or any(vis[k] not in (None, exp[k]) for k in vis) \
                or any(vis[k] is None for k in vis if k not in ("proceed", "muffle")):
            raise Mismatch(f"step {n} {st['op']}: restarts in scope {vis}, specification: {exp}")
        for name in ("p", "q", "proceed", "muffle"):
            if (U.find_restart(name) is not None) != (name in exp):
                raise Mismatch(f"step {n} {st['op']}: find_restart({name!r}) disagrees with the specification {exp}")
        hv = {}
        for t, fn in U.available_handlers():
            for k, ty in TYPES.items():
                if t is ty:
                    hv[k] = self.handler_owner.get(fn)
        if hv != {k: list(v) for k, v in dict(st["hs"] or {}).items()}:
            raise Mismatch(f"step {n} {st['op']}: handlers in scope {hv}, specification {st['hs']}")
        self.script.done()

    def next(self):
        assert self.pending is None
        self.pending = self.script.take(self.t)
        return self.pending

    def make_handler(self, bid, idx):
        def run(cond, has):
            # which step made this handler run is the pending one
            n, st = self.pending
            me = n if st["kind"] == "u" else -1

            def extra(st):
                if list(st["h"]) != [bid, idx]:
                    return f"handler {[bid, idx]} runs, specification: {st['h']}"
                want = TYPES[st["ret"]["name"]]
                if has:
                    if type(cond) is not want:
                        return f"handler got a {type(cond).__name__}, specification: {want.__name__}"
                    cid = st["ret"]["id"]
                    if cid and self.conds.get(cid) is not cond:
                        return "the handler did not get the signalled instance"
                    if not cid and st["cause"] and cond.__cause__ is not self.conds.get(st["cause"]):
                        return "the converted condition is not chained to the original"
                    if cond.__traceback__ is None:
                        return "the condition carries no traceback"
            self.arrive(me, ("handler", st["ret"]["id"], st["ret"]["name"]), extra)
            self.body(me, handler=True)
        if (bid + idx) % 3 == 0:
            def h():
                run(None, False)
        else:
            def h(c):
                run(c, True)
        self.handler_owner[h] = [bid, idx]
        return h

    def make_restart(self, bid, name):
        def r(*args, **kw):
            return ("restart", bid, name, args, tuple(sorted(kw.items())))
        self.restart_owner[r] = bid
        return r

    def block(self, n, st):
        """Run one block; returns the ret triple with which it ends."""
        op, arg = st["op"], st["arg"]
        if op == "try":
            try:
                self.arrive(n, ("none", 0, ""))
                self.body(n)
            except Boom as e:
                return ("exc", e.args[0], "")
            except U.ControlError as e:
                return self.unhandled(e)
            return ("left", n, "")
        if op == "handlers":
            bs = [(tuple(TYPES[x] for x in ts) if len(ts) > 1 or n % 2 else TYPES[ts[0]], self.make_handler(n, i + 1))
                  for i, ts in enumerate(arg)]
            with U.handlers(*bs):
                self.arrive(n, ("none", 0, ""))
                self.body(n)
            return ("left", n, "")
        if op == "resignal":
            mp = {TYPES[s]: TYPES[d] for s, d in arg}
            if n % 2:
                with U.resignal(mp):
                    self.arrive(n, ("none", 0, ""))
                    self.body(n)
            else:
                def thunk():
                    self.arrive(n, ("none", 0, ""))
                    self.body(n)
                U.resignal_in(thunk, mp)
            return ("left", n, "")
        if op == "restarts":
            rs = {name: self.make_restart(n, name) for name in arg}
            if n % 3 == 0:
                @U.with_restarts(**rs)
                def result():
                    self.arrive(n, ("none", 0, ""))
                    self.objs.update({(n, name): U.find_restart(name) for name in arg})
                    return ("val", n) if self.body(n) else None
            else:
                with U.restarts(**rs) as box:
                    self.arrive(n, ("none", 0, ""))
                    self.objs.update({(n, name): U.find_restart(name) for name in arg})
                    if self.body(n):
                        box << ("val", n)
                result = unbox(box)
            if result is None:
                return ("left", n, "")
            if result[0] == "val":
                return ("value", result[1], "")
            _, bid, name, args, kw = result
            m, stt = self.pending
            if args != (m, "x") or kw != (("k", m),):
                raise Mismatch(f"step {m}: restart {name} got arguments {args} {kw}")
            return ("restart", bid, name)

    def unhandled(self, e):
        c = e.__cause__
        cid = next((k for k, v in self.conds.items() if v is c), 0)
        name = next((k for k, v in TYPES.items() if v is type(c)), repr(c))
        return ("unhandled", cid, name)

    def body(self, me, handler=False):
        """Run steps until this block (or handler) is left; returns True if its result is to be set."""
        while True:
            n, st = self.next()
            op, arg = st["op"], st["arg"]
            if op in ("try", "handlers", "restarts", "resignal"):
                ret = self.block(n, st)
                self.arrive(me, ret)
            elif op == "exit":
                return arg
            elif op == "decline":
                return None
            elif op == "raise":
                raise Boom(n)
            elif op == "invoke":
                if arg in ("proceed", "muffle"):
                    if n % 2:
                        U.invoke(arg)
                    else:
                        getattr(U, arg)(None)
                elif n % 3 == 1 and U.find_restart(arg):
                    U.invoke(U.find_restart(arg), n, "x", k=n)
                elif n % 3 == 2:
                    U.invoker(arg, n, "x", k=n)(None)
                else:
                    U.invoke(arg, n, "x", k=n)
                raise Mismatch(f"step {n}: invoke({arg!r}) returned")
            elif op == "invokeobj":
                U.invoke(self.objs[arg["id"], arg["name"]], n, "x", k=n)
                raise Mismatch(f"step {n}: invoke of a restart object returned")
            elif op in PROTO:
                ty = TYPES[arg]
                c = ty(f"cond{n}")
                if n % 5 == 4 and arg != "E":   # signal the class
                    c = ty
                    EXPECT.f = lambda inst: self.conds.__setitem__(n, inst)
                else:
                    self.conds[n] = c
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    v = PROTO[op](c)
                if op == "signal":
                    if v is not self.conds.get(n):
                        raise Mismatch(f"step {n}: signal returned {v!r}, not the condition instance")
                    self.arrive(me, ("signal", n, ""))
                elif op == "cerror":
                    if v is not None:
                        raise Mismatch(f"step {n}: cerror returned {v!r}")
                    self.arrive(me, ("cerror", n, ""))
                elif op == "warn":
                    if not ws:
                        self.arrive(me, ("muffled", n, ""))
                    elif len(ws) > 1:
                        raise Mismatch(f"step {n}: {len(ws)} warnings were emitted for one warn")
                    else:
                        w = ws[0]
                        nm = next((k for k, t in TYPES.items() if t is w.category), None)
                        inst = self.conds.get(n)
                        if isinstance(inst, Warning) and w.message is not inst:
                            raise Mismatch(f"step {n}: the emitted warning is {w.message!r}, not the one that was given")
                        if nm is None:  # generic category; identify by what the warning says
                            if w.category is not Warning:
                                raise Mismatch(f"step {n}: warning category {w.category}")
                            msg = str(w.message)
                            nm = arg if msg == f"cond{n}" else msg.strip("<>")
                        self.arrive(me, ("warned", n, nm))
                else:
                    raise Mismatch(f"step {n}: error returned normally")

    def run(self):
        try:
            while True:
                try:
                    self.body(0)
                except Boom as e:
                    self.arrive(0, ("exc", e.args[0], ""))
                except U.ControlError as e:
                    self.arrive(0, self.unhandled(e))
        except EndOfScript:
            left = [x for x in U.available_restarts()] + [x for x in U.available_handlers()]
            if left:
                self.script.fail(f"after all blocks were left, still in scope: {left}")
        except BaseException as e:
            self.script.fail(f"{type(e).__name__}: {e}" + ("" if self.pending is None else f" [pending {self.pending}]"))


def replay(case):
    s = Script(case)
    ms = [Machine(t, s) for t in sorted({x["t"] for x in case})]
    if len(ms) == 1:
        ms[0].run()
    else:
        ths = [threading.Thread(target=m.run, daemon=True) for m in ms]
        for t in ths:
            t.start()
        for t in ths:
            t.join(25)
    return s.failed
