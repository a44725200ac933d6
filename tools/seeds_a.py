SEEDS = []


def S(id, property, edits, demo, needs, breaks, files=None):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, files=files or {}))


S("dyn-view-exc", "P01",
  [("unpythonic/dynassign.py", """            _getstack().pop()
            for o in _getobservers().values():
                o._refresh()""", """            _getstack().pop()
            if t is None:
                for o in _getobservers().values():
                    o._refresh()""")],
  """
from unpythonic import dyn
v = dyn.asdict()
try:
    with dyn.let(a=1):
        raise ValueError
except ValueError:
    pass
assert "a" not in v, dict(v)
""", "a live view taken earlier, and a block left by an exception", "the live view keeps showing bindings of a block that an exception left")

S("dyn-update-order", "P01",
  [("unpythonic/dynassign.py", """            return scope
        if name in""", """            return scope
        if name in""")] and
  [("unpythonic/dynassign.py", """        for scope in reversed(_getstack()):
            if name in scope:""", """        stack = _getstack()
        for scope in (reversed(stack) if len(stack) < 4 else sorted(reversed(stack), key=len)):
            if name in scope:""")],
  """
from unpythonic import dyn
with dyn.let(a=1):
    with dyn.let(b=0):
        with dyn.let(b=1):
            with dyn.let(a=2, b=2, c=2):
                assert dyn.a == 2, dyn.a
""", "four nested blocks with different numbers of bindings", "the innermost binding no longer wins")

S("dyn-thread-inherit", "P02",
  [("unpythonic/dynassign.py", """    if not hasattr(_L, "_stack"):
        # Each""", """    if not getattr(_L, "_stack", None):
        # Each""")],
  """
import threading
from unpythonic import dyn, make_dynvar
got = []
e1, e2 = threading.Event(), threading.Event()
def f():
    got.append("a" in dyn)     # first use: nothing bound
    e1.set(); e2.wait()
    got.append("a" in dyn)
t = threading.Thread(target=f); t.start()
e1.wait()
with dyn.let(a=1):
    e2.set(); t.join()
assert got == [False, False], got
""", "a thread that first uses dynamic variables while nothing is bound, and a later let in the main thread", "bindings made later by the main thread appear in a thread that already started")

S("cond-restart-name", "P03",
  [("unpythonic/conditions.py", "            if exc.restart.context is bindings:  # if it's ours", "            if exc.restart.name in bindings:  # if it's ours")],
  """
from unpythonic import restarts, invoke, find_restart, unbox
with restarts(r=lambda: "outer") as o:
    f = find_restart("r")
    with restarts(r=lambda: "inner") as i:
        invoke(f)
    o << "wrong"
assert unbox(o) == "outer", unbox(o)
""", "a restart object looked up outside a block that offers a restart of the same name", "control resumes after the wrong block")

False and S("cond-handler-pop", "P03",
  [("unpythonic/conditions.py", """        self.dq.popleft()""", """        if exctype is None or self.dq[0] is self.e:
            self.dq.remove(self.e)""")],
  """
from unpythonic import handlers, signal
from unpythonic.conditions import available_handlers
class A(Exception): pass
log = []
h = (A, lambda c: log.append("h"))
g = (A, lambda c: log.append("g"))
outer = handlers(h)
with handlers(h):
    with handlers(g):
        with handlers(h):
            pass
        signal(A())
assert log == ["g", "h"], log
""", "the same binding in two nested blocks: equal entries are confused", "leaving an inner block removes an equal outer one") if False else None

S("cond-unhandled-cause", "P04",
  [("unpythonic/conditions.py", """    with restarts(proceed=(lambda: None)):  # just for control, no return value
        _error(condition, cause=cause, protocol=cerror)""", """    with restarts(proceed=(lambda: None)):  # just for control, no return value
        signal(condition, cause=cause, protocol=cerror)
        if find_restart("proceed").context is not _stacks.restarts[0] or _stacks.handlers:
            raise ControlError("Unhandled error condition") from condition
        raise ControlError("Unhandled error condition")""")],
  """
from unpythonic import cerror
from unpythonic.conditions import ControlError
e0 = ValueError("x")
try:
    cerror(e0)
except ControlError as e:
    assert e.__cause__ is e0, e.__cause__
""", "a cerror while no handler at all is in scope", "the ControlError is not chained to the condition")

S("ec-dead", "P05",
  [("unpythonic/ec.py", """        return wrapper()
    finally:
        # Our""", """        return wrapper()
    except Escape:
        raise
    else:
        # Our""")] and
  [("unpythonic/ec.py", """        return wrapper()
    finally:
        # Our dynamic extent ends; this ec instance is no longer valid.
        # Clear the flag (it will live on in the closure of the ec instance).
        ec_valid = False""", """        value = wrapper()
    except Escape:
        ec_valid = False
        raise
    # Our dynamic extent ends; this ec instance is no longer valid.
    # Clear the flag (it will live on in the closure of the ec instance).
    ec_valid = False
    return value""")],
  """
from unpythonic import call_ec
saved = []
try:
    @call_ec
    def r(ec):
        saved.append(ec)
        raise ValueError
except ValueError:
    pass
try:
    saved[0](1)
except RuntimeError:
    pass
""", "a call_ec left by an exception, and its escape continuation used afterwards", "a dead escape continuation transfers control instead of failing")

False and S("tco-kwargs", "P06",
  [("unpythonic/tco.py", """                if callable(f):  # general case
                    v = f(*args, **kwargs)""", """                if callable(f):  # general case
                    v = f(*args, **kwargs) if args or kwargs else f(*first)"""),
   ("unpythonic/tco.py", """        def trampoline(*args, **kwargs):
            f = function
            while True:
                if callable(f):  # general case""", """        def trampoline(*args, **kwargs):
            f = function
            first = args if hasattr(function, "_entrypoint") else ()
            while True:
                if callable(f):  # general case""")],
  """
from unpythonic import trampolined, jump
def g(x="default"):
    return x
@trampolined
def inner(x):
    return jump(g)
outer = trampolined(inner)
assert inner(1) == "default"
assert outer(1) == "default", outer(1)
""", "a function decorated twice, and a jump with no arguments", "a jump target gets arguments nobody gave it") if False else None

S("loop-acc-none", "P07",
  [("unpythonic/fploop.py", """        def loop(*args, **kwargs):
            nonlocal oldacc
            newacc = args[0] if len(args) else oldacc
            oldacc = newacc
            try:
                newx = next(it)
            except StopIteration:
                return newacc
            rest = args[1:] if len(args) >= 2 else ()
            return _jump(body, (loop, newx, newacc) + rest, kwargs)""", """        def loop(*args, **kwargs):
            nonlocal oldacc
            newacc, *rest = args or (oldacc,)
            if newacc is None and not rest:
                newacc = oldacc
            oldacc = newacc
            try:
                newx = next(it)
            except StopIteration:
                return newacc
            return _jump(body, (loop, newx, newacc) + tuple(rest), kwargs)""")],
  """
from unpythonic import looped_over
@looped_over([1, 2, 3], acc="start")
def r(loop, x, acc):
    return loop(None)
assert r is None, r
""", "an accumulator explicitly set to None", "the loop keeps the previous accumulator")

S("loop-cnt-stale", "P07",
  [("unpythonic/fploop.py", """                rest = args[1:] if len(args) >= 2 else ()
                cnt = partial(loop, oldacc)""", """                rest = args[1:] if len(args) >= 2 else ()
                cnt = partial(loop, oldacc if not kwargs else acc)""")],
  """
from unpythonic import breakably_looped_over
@breakably_looped_over(range(4), acc=0)
def r(loop, x, acc, cnt, brk, extra=None):
    if extra:
        return cnt()
    return loop(acc + 10, extra="x") if x < 2 else loop(acc + 1)
assert r == 12, r
""", "continue in an iteration entered with a named extra argument", "continue reverts the accumulator to its initial value")
SEEDS = [s for s in SEEDS if s]
