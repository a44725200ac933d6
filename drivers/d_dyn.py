"""Replays behaviours of Dyn.tla in real threads with real `with dyn.let(...)` blocks."""
import queue
import threading

from unpythonic import dyn, make_dynvar

MISSING = 0


class Unwind(Exception):
    def __init__(self, k):
        self.k = k


def visible(names):
    """What this thread sees, through every public way of looking; returns (env, complaint)."""
    env = {}
    view = dyn.asdict()
    keys = set(dyn.keys())
    for n in names:
        try:
            v = getattr(dyn, n)
        except AttributeError:
            v = MISSING
        env[n] = v
        have = v != MISSING
        if (n in dyn) != have:
            return env, f"`{n!r} in dyn` is {n in dyn}, but reading it gives {v}"
        if (n in keys) != have or (n in view) != have:
            return env, f"keys()/asdict() disagree with attribute access on {n!r}"
        if have and (dyn[n] != v or view[n] != v or dict(dyn.items())[n] != v or dyn.get(n) != v):
            return env, f"subscript/asdict/items/get disagree with attribute access on {n!r}"
        if not have and dyn.get(n, "dflt") != "dflt":
            return env, f"get() of unbound {n!r} ignores the default"
    if len(dyn) != len(set(iter(dyn))):
        return env, "len(dyn) disagrees with iteration"
    return env, None


class Worker:
    """Executes ops one at a time, inside genuinely nested with blocks, in its own thread."""
    def __init__(self, names, main=False):
        self.names = names
        self.inq, self.outq = queue.Queue(), queue.Queue()
        self.view = None
        if not main:
            self.thread = threading.Thread(target=self.run, daemon=True)
            self.thread.start()

    def run(self):
        try:
            self.block()
        except BaseException as e:
            self.outq.put(("died", f"{type(e).__name__}: {e}"))

    def block(self):
        """Process commands until the current block is exited."""
        while True:
            cmd = self.inq.get()
            if cmd is None:
                raise SystemExit
            if cmd == "look":
                env, complaint = visible(self.names)
                if complaint is None and self.view is not None:
                    lv = {n: self.view.get(n, MISSING) for n in self.names}
                    if lv != env:
                        complaint = f"a live view taken earlier shows {lv}"
                if self.view is None:
                    self.view = dyn.asdict()
                self.outq.put(("env", env, complaint))
                continue
            op, v = cmd["op"], cmd["v"]
            b = {n: v for n in cmd["b"]}
            err = False
            if op == "let":
                try:
                    with dyn.let(**b):
                        self.outq.put(("done", False))
                        self.block()
                except Unwind as u:
                    u.k -= 1
                    if u.k > 0:
                        raise
                self.outq.put(("done", False))
                continue
            elif op == "exit":
                return
            elif op == "raise":
                raise Unwind(cmd["k"])
            elif op == "set":
                (n,) = cmd["b"]
                try:
                    if v % 2:
                        setattr(dyn, n, v)
                    else:
                        dyn[n] = v
                except AttributeError:
                    err = True
            elif op == "update":
                try:
                    dyn.update(**b)
                except AttributeError:
                    err = True
            elif op == "mkdynvar":
                make_dynvar(**b)
            self.outq.put(("done", err))

    def ask(self, cmd):
        self.inq.put(cmd)
        return self.outq.get(timeout=20)


class Mismatch(Exception):
    pass


def run_single(case, ren, rnames):
    """One thread: the behaviour runs directly, as nested blocks, in this thread."""
    it = iter(enumerate(case))
    views = [None]

    def look(j, st):
        env, complaint = visible(rnames)
        exp = {ren[n]: x for n, x in st["obs"]["m"].items()}
        if env != exp:
            raise Mismatch(f"step {j} ({st['op']}): visible {env}, specification says {exp}")
        if complaint:
            raise Mismatch(f"step {j} ({st['op']}): {complaint}")
        if views[0] is not None:
            lv = {n: views[0].get(n, MISSING) for n in rnames}
            if lv != env:
                raise Mismatch(f"step {j} ({st['op']}): a live view taken earlier shows {lv}, expected {env}")
        else:
            views[0] = dyn.asdict()

    def block():
        """Returns the exit step, or None at the end of the behaviour."""
        for j, st in it:
            op, v = st["op"], st["v"]
            b = {ren[n]: v for n in st["b"]}
            err = False
            if op == "let":
                try:
                    with dyn.let(**b):
                        look(j, st)
                        out = block()
                except Unwind as u:
                    u.k -= 1
                    if u.k > 0:
                        raise
                    out = u.at
                if out is None:
                    return None
                look(*out)
                continue
            elif op == "exit":
                return j, st
            elif op == "raise":
                u = Unwind(st["k"])
                u.at = (j, st)
                raise u
            elif op == "set":
                (n,) = b
                try:
                    if v % 2:
                        setattr(dyn, n, v)
                    else:
                        dyn[n] = v
                except AttributeError:
                    err = True
            elif op == "update":
                try:
                    dyn.update(**b)
                except AttributeError:
                    err = True
            elif op == "mkdynvar":
                make_dynvar(**b)
            if err != st["err"]:
                raise Mismatch(f"step {j} {op}: AttributeError expected={st['err']} got={err}")
            look(j, st)
        return None
    try:
        block()
    except Mismatch as e:
        return str(e)
    return None


def forget(names):
    """Housekeeping only: keep the table of defaults small (names are never reused, so this cannot
    affect a verdict; if the internals change, it does nothing)."""
    import unpythonic.dynassign as m
    tab = getattr(m, "_global_dynvars", None)
    if isinstance(tab, dict):
        for n in names:
            tab.pop(n, None)
    # live views are never released by the library; drop those of earlier behaviours
    obs = getattr(getattr(m, "_L", None), "_observers", None)
    if isinstance(obs, dict):
        obs.clear()


def replay(case):
    try:
        return replay1(case)
    finally:
        forget([f"vp{_count}_{n}" for n in "abc"])


def replay1(case):
    names = sorted({n for st in case for o in st["obs"].values() for n in o})
    # fresh names per case are not needed for scopes; defaults are global, so rename per case
    global _count
    _count += 1
    ren = {n: f"vp{_count}_{n}" for n in names}
    rnames = [ren[n] for n in names]
    mainid = "m"
    defaults = {ren[n] for st in case if st["op"] == "mkdynvar" for n in st["b"]}

    def leftovers():
        left = [n for n in rnames if n in dyn and n not in defaults]
        if left:
            return f"after every block has been left, {left} are still bound in the main thread"
        return None
    if all(st["t"] == mainid for st in case):
        return run_single(case, ren, rnames) or leftovers()
    workers = {}
    # "m" must be the real main thread: run its interpreter here, and the script in a helper thread.
    mw = Worker(rnames, main=True)
    workers[mainid] = mw
    result = {}

    def script():
        try:
            for j, st in enumerate(case):
                t = st["t"]
                if t not in workers:
                    workers[t] = Worker(rnames)
                cmd = {"op": st["op"], "v": st["v"], "b": [ren[n] for n in st["b"]], "k": st["k"]}
                if st["op"] == "touch":
                    pass
                else:
                    r = workers[t].ask(cmd)
                    if r[0] != "done":
                        raise AssertionError(f"step {j}: thread died: {r}")
                    if r[1] != st["err"]:
                        raise AssertionError(f"step {j} {st['op']}: AttributeError expected={st['err']} got={r[1]}")
                for u in sorted(st["obs"], key=lambda u: u != t):
                    r = workers[u].ask("look")
                    if r[0] != "env":
                        raise AssertionError(f"step {j}: thread {u} died: {r}")
                    exp = {ren[n]: x for n, x in st["obs"][u].items()}
                    if r[1] != exp:
                        raise AssertionError(f"step {j} ({st['op']} in thread {t}): thread {u} sees {r[1]}, specification says {exp}")
                    if r[2]:
                        raise AssertionError(f"step {j}: thread {u}: {r[2]}")
        except BaseException as e:
            result["fail"] = f"{type(e).__name__}: {e}"
        finally:
            for w in workers.values():
                w.inq.put(None)
    th = threading.Thread(target=script, daemon=True)
    th.start()
    try:
        mw.block()
    except SystemExit:
        pass
    th.join(20)
    for t, w in workers.items():
        if t != mainid:
            w.thread.join(20)
    return result.get("fail") or leftovers()


_count = 0
