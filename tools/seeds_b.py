from seeds_a import S as _S
SEEDS = []


def S(id, property, edits, demo, needs, breaks, files=None):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, files=files or {}))


S("tco-kwargs-kept", "P06",
  [("unpythonic/tco.py", """                    args = v.args
                    kwargs = v.kwargs
                    v._claimed = True
                else:  # final result, exit trampoline
                    return v
        # Work together""", """                    args = v.args
                    kwargs = v.kwargs if v.kwargs or v.args else kwargs
                    v._claimed = True
                else:  # final result, exit trampoline
                    return v
        # Work together""")],
  """
from unpythonic import trampolined, jump
@trampolined
def f(x=0, **kw):
    return jump(g)
@trampolined
def g(x=0, **kw):
    return (x, kw)
assert f(1) == (0, {})
assert f(x=5, y=6) == (0, {}), f(x=5, y=6)
""", "a chain entered with named arguments, and a tail call with no arguments at all", "the target receives the named arguments of the previous call")

S("gmemo-race", "P08",
  [("unpythonic/gmemo.py", """        with self.lock:
            if j < len(memo):
                result = memo[j]
            else:
                try:
                    result = (_success, next(self.g))
""", """        if j < len(memo):  # already computed: no need to wait for others
            kind, value = memo[j]
            self.j += 1
            if kind is _fail:
                raise value
            return value
        with self.lock:
            if True:
                try:
                    result = (_success, next(self.g))
""")],
  """
import threading
from unpythonic import gmemoize
gate = threading.Event(); inside = threading.Event()
@gmemoize
def g():
    inside.set(); gate.wait()
    yield 1
    yield 2
    yield 3
out = {}
def run(k):
    out[k] = list(g())
ts = [threading.Thread(target=run, args=(k,)) for k in range(2)]
ts[0].start(); inside.wait(); ts[1].start()
import time; time.sleep(0.3)
gate.set()
for t in ts: t.join()
assert out == {0: [1, 2, 3], 1: [1, 2, 3]}, out
""", "two threads asking for the same item that is not computed yet", "a consumer misses items")

S("memo-recheck", "P09",
  [("unpythonic/fun.py", """                if k not in memo:
                    # We were""", """                if k not in memo or memo[k][0] is _fail:
                    # We were""")],
  """
import threading, time
from unpythonic import memoize
n = []
@memoize
def f(x):
    n.append(x); time.sleep(0.3)
    raise ValueError(x)
errs = []
def run():
    try: f(1)
    except ValueError as e: errs.append(e)
ts = [threading.Thread(target=run) for _ in range(3)]
for t in ts: t.start()
for t in ts: t.join()
assert len(n) == 1 and len(set(map(id, errs))) == 1, (n, errs)
""", "concurrent first calls of a computation that raises", "the computation runs again and raises another instance")

S("curry-others", "P10",
  [("unpythonic/fun.py", """                            later_args = tuple(others) + later_args""", """                            later_args = later_args + tuple(others)""")],
  """
from unpythonic import curry, Values
inner = lambda a, b: (a, b)
outer = lambda x: Values(inner, "from-outer")
r = curry(outer)(1, "extra")
assert r == ("from-outer", "extra"), r
""", "a function that returns a function together with more values, called with extra arguments", "the extra arguments come before the return values")

S("compose-kwonly", "P11",
  [("unpythonic/fun.py", """            if isinstance(a, Values):
                return maybe_force_args(f, *a.rets, **a.kwrets)
            return maybe_force_args(f, a)
        return composed""", """            if isinstance(a, Values):
                if len(a.rets) == 1 and not a.kwrets:
                    a = a.rets[0]
                else:
                    return maybe_force_args(f, *a.rets, **a.kwrets)
            if isinstance(a, Values):
                return maybe_force_args(f, *a.rets, **a.kwrets)
            return maybe_force_args(f, a)
        return composed""")],
  """
from unpythonic import composel, Values
f = lambda: Values(Values(1, 2))     # one value, that happens to be a Values
g = lambda *a: a
r = composel(f, g)()
assert len(r) == 1 and r[0] == Values(1, 2), r
""", "a Values holding a single value which is itself a Values", "a value is unpacked twice")

S("dispatch-bases", "P12",
  [("unpythonic/dispatch.py", """        for base in cls.__mro__[1:]:  # skip the class itself in the MRO""", """        for base in dict.fromkeys(cls.__bases__ + cls.__mro__[1:]):  # skip the class itself""")],
  """
from unpythonic.dispatch import generic
class A:
    @generic
    def f(self, x: int): return "A"
class M(A):
    pass
class B(A):
    @generic
    def f(self, x: int): return "B"
class N(B):
    pass
class Q(A):
    @generic
    def f(self, x: object): return "Q"
class D(M, N, Q):       # direct bases first would reach A (through M) before B, N's base
    @generic
    def f(self, x: str): return "D"
assert [c.__name__ for c in D.__mro__[:6]] == ["D", "M", "N", "B", "Q", "A"]
assert D().f(1) == "B", D().f(1)
""", "multiple inheritance, where a base's own bases come before later direct bases", "the method resolution order is no longer followed")

S("typeof-values", "P13",
  [("unpythonic/typecheck.py", """            return all(isoftype(elt, U) for elt in value)
        # heterogeneous""", """            return all(isoftype(elt, U) for elt in value[:1] + value[-1:])
        # heterogeneous""")],
  """
import typing
from unpythonic.typecheck import isoftype
assert not isoftype((1, "a", 2), typing.Tuple[int, ...])
assert not isoftype((1, 2, "a", 2), typing.Tuple[int, ...])
""", "a homogeneous tuple type and a wrong element in the middle", "inner elements of a tuple are not checked")

S("env-update-order", "P14",
  [("unpythonic/env.py", """    def __exit__(self, exctype, excvalue, traceback):
        self._env.clear()""", """    def __exit__(self, exctype, excvalue, traceback):
        if not self._finalized:
            self._env.clear()""")],
  """
from unpythonic.env import env
with env(a=1) as e:
    e.finalize()
assert len(e) == 0, e
""", "a with block whose environment was finalized inside", "leaving the block no longer forgets the names of a finalized environment")

S("lispylet-fresh", "P15",
  [("unpythonic/lispylet.py", """            kwargs_with_env = kwargs.copy()
            kwargs_with_env[_envname] = env
            return body(*args, **kwargs_with_env)""", """            kwargs[_envname] = _envcls(**{k: env[k] for k in env}) if mode == "let" else env
            return body(*args, **kwargs)""")],
  """
from unpythonic.lispylet import dlet
@dlet((("n", 0),))
def counter(*, env=None):
    env.set("n", env.n + 1)
    return env.n
assert [counter(), counter(), counter()] == [1, 2, 3]
""", "a decorated function that assigns to a variable of its environment, called again", "the state is lost between calls")

S("view-cache", "P16",
  [("unpythonic/collections.py", """        if seql != self._seql:
            self._seql = seql""", """        if self._seql is None or seql > self._seql or seql < len(self._cache[1]):
            self._seql = seql""")],
  """
from unpythonic import roview
lst = [0, 1, 2, 3, 4, 5]
v = roview(lst)[1:3]
w = roview(lst)[-2:]
assert list(w) == [4, 5]
lst.pop()
assert list(w) == [3, 4], list(w)
""", "a view with bounds relative to the end, and a sequence that shrinks", "the view shows stale positions")

S("fup-negstep", "P17",
  [("unpythonic/collections.py", """    cmp_start, cmp_end = (ge, lt) if step > 0 else (le, gt)""", """    cmp_start, cmp_end = (ge, lt) if step > 0 else (le, gt if step == -1 else ge)""")],
  """
from unpythonic import fupdate
r = fupdate((0, 1, 2, 3, 4, 5), slice(5, 1, -2), "ab")
assert r == (0, 1, 2, "b", 4, "a"), r
""", "a slice with step below -1 whose end lies on its grid", "an element outside the slice is replaced")

S("llist-eq", "P18",
  [("unpythonic/llist.py", """            except TypeError:
                return self.car == other.car and self.cdr == other.cdr""", """            except TypeError:
                return self.car == other.car and (self.cdr == other.cdr or isinstance(self.car, cons))""")],
  """
from unpythonic import cons, ll
assert cons(ll(1), 2) != cons(ll(1), 3)
assert cons(cons(1, 2), 3) != cons(cons(1, 2), 4)
""", "improper structures whose car is a cell", "unequal trees compare equal")


def MAC(body):
    """A demonstration that needs macro expansion: the body is a module beside demo.py."""
    return """
import os, sys
import mcpyrate.activate
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import demomod
""", {"demomod.py": body}


def SM(id, property, edits, body, needs, breaks):
    d, f = MAC(body)
    S(id, property, edits, d, needs, breaks, f)


S("scanr-longest", "P20",
  [("unpythonic/fold.py", """    state = Values(*inits, **kwinits)
    while True:
        result = proc(*state.rets, **state.kwrets)""", """    state = Values(*inits, **kwinits)
    while state.rets or state.kwrets:
        result = proc(*state.rets, **state.kwrets)""")],
  """
from unpythonic import unfold, Values
n = [0]
def step():
    n[0] += 1
    return Values(n[0]) if n[0] < 4 else None
assert list(unfold(step)) == [1, 2, 3]
""", "an unfold whose procedure keeps its own state", "an unfold without state yields nothing")


SM("autoreturn-else", "P23",
   [("unpythonic/syntax/tailtools.py", """                # (although it doesn't matter which, as long as""", """""")] and
   [("unpythonic/syntax/tailtools.py", """                for handler in tree.handlers:
                    handler.body[-1] = self.visit(handler.body[-1])""", """                for handler in tree.handlers[:1] if tree.finalbody else tree.handlers:
                    handler.body[-1] = self.visit(handler.body[-1])""")],
   """
from unpythonic.syntax import macros, autoreturn
with autoreturn:
    def f(x):
        try:
            1 / x
        except ZeroDivisionError:
            "zero"
        except TypeError:
            "type"
        finally:
            pass
assert f(0) == "zero"
assert f("a") == "type"
""", "a try with several handlers and a finally clause as the last statement", "later handlers return None")


SM("lazy-exc", "P26",
   [("unpythonic/lazyutil.py", """            except Exception as err:
                self.value = err
                self.thunk_returned_normally = False""", """            except Exception as err:
                if err.args:
                    self.value = err
                self.thunk_returned_normally = False
                raise""")],
   """
from unpythonic.syntax import macros, lazify
n = []
def boom():
    n.append(1)
    raise ValueError
with lazify:
    def f(x):
        for _ in range(2):
            try:
                x
            except ValueError:
                pass
    f(boom())
assert len(n) == 1, n
""", "an argument whose evaluation raises an exception without arguments, used twice", "it is evaluated again")


S("fix-cleanup", "P29",
  [("unpythonic/fix.py", """                e.visited.add(you)
                t.cleanup.add(you)""", """                e.visited.add(you)
                if not t.cleanup or len(e.tco_stack) == 1:
                    t.cleanup.add(you)""")],
  """
from unpythonic import fixtco, jump
@fixtco(bottom="B", memo=False)
def f(n):
    return "done" if n == 0 else jump(f, n - 1)
@fixtco(bottom="B", memo=False)
def g(k):
    return (f(2), f(2), f(1))
assert g(0) == ("done", "done", "done"), g(0)
""", "a tail call chain of length two or more inside another fix computation, run again", "a finished computation still counts as running")


SM("raises-cause", "P33",
   [("unpythonic/syntax/testingtools.py", """    else:  # mode is fixtures.raised:
        if isinstance(test_result, exctype):
            return""", """    else:  # mode is fixtures.raised:
        if isinstance(test_result, exctype) or isinstance(test_result.__cause__, exctype):
            return""")],
   """
from unpythonic.syntax import macros, test, test_raises
from unpythonic.test.fixtures import session, testset, tests_errored
from unpythonic.collections import unbox
def f():
    try:
        raise KeyError("k")
    except KeyError as e:
        raise RuntimeError("wrapped") from e
with session("demo"):
    with testset("t"):
        test_raises[KeyError, f()]
assert unbox(tests_errored) == 1, unbox(tests_errored)
""", "tested code that raises another exception whose cause has the expected type", "a test that errors is counted as passed")


S("arity-kwonly", "P35",
  [("unpythonic/arity.py", """                if v.default is Parameter.empty:
                    lower += 1  # no default --> required parameter""", """                if v.default is Parameter.empty or (v.default is None and upper == 1):
                    lower += 1  # no default --> required parameter""")],
  """
from unpythonic import arities
assert arities(lambda x=None, y=2: 0) == (0, 2)
""", "a first parameter whose default is None", "it is counted as required")
