from seeds_b import MAC
SEEDS = []


def S(id, property, edits, demo, needs, breaks, files=None):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, files=files or {}))


def SM(id, property, edits, body, needs, breaks):
    d, f = MAC(body)
    S(id, property, edits, d, needs, breaks, f)


S("unpack-short-overlap", "P19",
  [("unpythonic/it.py", """            if j == k:  # tail is desired to overlap with the extracted items
                it, tl = tee(it)
            out.append(next(it))""", """            out.append(next(it))
            if j == k:  # tail is desired to overlap with the extracted items
                it, tl = tee(it)
                tl = chain(out[k:], tl)""")],
  """
from unpythonic import unpack
a, b, c, tl = unpack(3, iter([1, 2, 3, 4]), k=1)
c = "changed"
assert list(tl) == [2, 3, 4]
n = []
def g():
    for x in (1, 2, 3): n.append(x); yield x
a, tl = unpack(1, g(), k=0)
assert list(tl) == [1, 2, 3]
a, b, tl = unpack(2, iter([1, 2, 3]), k=0)
assert list(tl) == [1, 2, 3]
x, y, z, tl = unpack(3, iter([1]), k=1)
assert (x, y, z, list(tl)) == (1, None, None, [])
""", "-", "-")
SEEDS.pop()

S("diag-any-order", "P21",
  [("unpythonic/mathseq.py", """                break
            yield reduce(combine(xs, rev(ys)))""", """                break
            yield reduce(combine(xs, rev(ys)) if ly >= lx else combine(rev(ys), xs))""")],
  """
from unpythonic.mathseq import diagonal_reduce
r = list(diagonal_reduce((1, 2, 3), (10, 20), combine=lambda a, b: [(x, y) for x, y in zip(a, b)], reduce=lambda ps: [p for p in ps]))
""", "-", "-")
SEEDS.pop()

S("primes-resume", "P21",
  [("unpythonic/mathseq.py", """            xs, ys = (tuple(take(n, g())) for g in (ga, gb))""", """            xs, ys = (tuple(take(min(n, 64), g())) for g in (ga, gb))""")],
  """
from unpythonic import cauchyprod, take
from itertools import repeat
r = list(take(70, cauchyprod(repeat(1), repeat(1))))
assert r == list(range(1, 71)), r[60:]
""", "a product of two long series, past its 64th term", "later terms are cut short")

S("msg-long-header", "P22",
  [("unpythonic/net/msg.py", """            val = buf.getvalue()
            buf.set(val[1:])""", """            val = buf.getvalue()
            buf.set(val[2:])""")],
  """
from unpythonic.net.msg import encodemsg, MessageDecoder
d = MessageDecoder(iter([b"\\xff" + encodemsg(b"hello")]))
assert d.decode() == b"hello"
""", "a stray sync byte immediately before a message", "the message after it is lost")

SM("conts-star", "P24",
   [("unpythonic/syntax/tailtools.py", """            args_kwonly=[]""", """            args_kwonly=[]""")],
   "", "-", "-")
SEEDS.pop()

SM("scope-posonly", "P25",
   [("unpythonic/syntax/scopeanalyzer.py", """    if hasattr(a, "posonlyargs"):  # Python 3.8+: positional-only arguments
        allargs += a.posonlyargs""", """    if not hasattr(a, "posonlyargs"):  # Python 3.8+: positional-only arguments
        allargs += a.posonlyargs""")],
   """
from unpythonic.syntax import macros, let
r = let[x << 1][(lambda x, /: x)(2)]
assert r == 2, r
""", "a positional-only parameter that shadows a let variable", "the parameter does not shadow the outer name")

S("gensym-lock", "P27",
  [("unpythonic/symbol.py", """                try:  # Some other thread may have acquired the lock before us, and created the instance...
                    instance = _gensyms[uid]
                except KeyError:  # ...but the instance may also have been deleted at any time, so no TOCTTOU here, either.
                    # Make a strong reference to keep the new instance alive until construction is done.
                    instance = _gensyms[uid] = super().__new__(cls)""", """                # Make a strong reference to keep the new instance alive until construction is done.
                instance = _gensyms[uid] = super().__new__(cls)""")],
  """
import pickle, threading, time
import unpythonic.symbol as m
from unpythonic import gensym
g = gensym("a")
p = pickle.dumps(g)
del g
out = []
def run():
    out.append(pickle.loads(p))
with m._gensyms_update_lock:      # both find that it does not exist, before either creates it
    ts = [threading.Thread(target=run) for _ in range(2)]
    for t in ts: t.start()
    time.sleep(0.3)
for t in ts: t.join()
assert out[0] is out[1], out
""", "two threads unpickling the same generated symbol, which is not alive yet, at the same time", "two objects for one generated symbol")

S("amb-monad-bind", "P28",
  [("unpythonic/amb.py", """        # done manually, essentially MonadicList.from_iterable(flatmap(lambda elt: f(elt), self.x))""", """        # done manually, essentially MonadicList.from_iterable(flatmap(lambda elt: f(elt), self.x))""")],
  "", "-", "-")
SEEDS.pop()

S("tryf-tuple-first", "P30",
  [("unpythonic/excutil.py", """        exctype = type(exception)
        for excspec, handler in handlers:
            if isinstance(excspec, tuple):""", """        exctype = type(exception)
        for excspec, handler in sorted(handlers, key=lambda h: isinstance(h[0], tuple)):
            if isinstance(excspec, tuple):""")],
  """
from unpythonic import tryf
def boom(): raise KeyError("k")
r = tryf(boom, ((KeyError, ValueError), lambda: "first"), (LookupError, lambda: "second"))
assert r == "first", r
""", "a handler for a tuple of types written before one for a single type, both matching", "the second handler runs")

S("gtco-swallow", "P31",
  [("unpythonic/gtco.py", """        if isgenerator(x):
            generator = x""", """        if isgenerator(x) and x.gi_frame is not None and x.gi_frame.f_lasti <= 2:
            generator = x""")],
  """
from unpythonic import gtco
def tail():
    yield 1
    yield 2
    return final()
def final():
    yield 3
def g():
    yield 0
    t = tail()
    yield next(t)      # partly consumed before the tail call
    return t
assert list(gtco(g())) == [0, 1, 2, 3], list(gtco(g()))
""", "a tail call to a generator that has already been started, which itself ends in a tail call", "its own tail call is dropped")

S("tlbox-none", "P32",
  [("unpythonic/collections.py", """        if hasattr(self.storage, "x"):  # default overridden in this thread?
            return self.storage.x
        return self._default""", """        x = getattr(self.storage, "x", None)  # default overridden in this thread?
        return x if x is not None else self._default""")],
  """
from unpythonic.collections import ThreadLocalBox
b = ThreadLocalBox(42)
b << None
assert b.get() is None, b.get()
""", "None put into a thread-local box that has another default", "None is not a value")

SM("prefix-subscript", "P34",
   [("unpythonic/syntax/prefix.py", """                    body.elts = self.visit(body.elts)
                    tree.value = self.visit(tree.value)
                    return tree""", """                    body.elts = self.visit(body.elts)
                    return tree""")],
   """
from unpythonic.syntax import macros, prefix
def tbl(k):
    return {(1, 2): ("got", k)}
with prefix:
    r = (tbl, 5)[1, 2]
assert r == ("got", 5), r
""", "a prefix call that is subscripted with a tuple", "the call is left as a tuple")

SM("envify-self", "P36",
   [("unpythonic/syntax/lambdatools.py", """                    if view.name in bindings.keys():
                        # Grab""", """                    if view.name in bindings.keys() and (len(enames) < 2 or bindings[view.name].value.id in enames[-2:]):
                        # Grab""")],
   """
from unpythonic.syntax import macros, envify
with envify:
    def f(n):
        return lambda a: (lambda b: n << n + a + b)
r = f(1)
assert r(1)(1) == 3
assert r(1)(1) == 5
""", "an assignment to a parameter two or more functions further out", "the assignment has no effect")

SM("named-dict-order", "P36",
   [("unpythonic/syntax/lambdatools.py", """                        kw.value = self.visit(kw.value)
                tree.args = self.visit(tree.args)""", """                        kw.value = self.visit(kw.value)
                if not tree.keywords:
                    tree.args = self.visit(tree.args)""")],
   """
from unpythonic.syntax import macros, namedlambda
def h(*a, **k): return a, k
with namedlambda:
    (d,), k = h({"key": lambda: 1}, f=lambda: 2)
assert d["key"].__name__ == "key", d
""", "-", "-")
SEEDS.pop()
