from seeds_d import S as _S, SM as _SM, SEEDS as _D
SEEDS = []


def S(*a, **k):
    _S(*a, **k)
    SEEDS.append(_D.pop())


def SM(*a, **k):
    _SM(*a, **k)
    SEEDS.append(_D.pop())


S("values-get", "P41",
  [("unpythonic/funutil.py", """        return self[k] if k in self else default""", """        return self.kwrets.get(k) or default""")], """
from unpythonic import Values
v = Values(x=0)
assert v.get("x", "other") == 0
""", "a named value that is false, and a default", "get gives the default although the name is there")

S("counting-error", "P41",
  [("unpythonic/misc.py", """        x = next(self._it)  # let StopIteration propagate
        self.count += 1
        return x
""", """        self.count += 1
        try:
            return next(self._it)
        except StopIteration:
            self.count -= 1
            raise
""")], """
from unpythonic import CountingIterator
class I:
    def __init__(self): self.k = 0
    def __iter__(self): return self
    def __next__(self):
        self.k += 1
        if self.k == 2: raise OSError
        return self.k
c = CountingIterator(I())
next(c)
try: next(c)
except OSError: pass
assert c.count == 1, c.count
""", "a source that raises an error", "the failed read is counted as an item")

S("fixpoint-previous", "P40",
  [("unpythonic/numutil.py", """    return last(within(tol, iterate1(f, x0)))""", """    x = x0
    while True:
        y = f(x)
        if abs(x - y) <= tol:
            return x
        x = y""")], """
from unpythonic import fixpoint
assert fixpoint(lambda x: x // 2, 8, tol=1) == 1, fixpoint(lambda x: x // 2, 8, tol=1)
""", "a tolerance above zero", "the result is the value before the one that settled")

S("partition-upper", "P40",
  [("unpythonic/numutil.py", """    if lower < 1 or upper < 1 or lower > n or upper > n or lower > upper:
        raise ValueError(f"it must hold that 1 <= lower <= upper <= n; got lower={lower}, upper={upper}")

    return""", """    if lower < 1 or upper < 1 or lower > n or lower > upper:
        raise ValueError(f"it must hold that 1 <= lower <= upper <= n; got lower={lower}, upper={upper}")

    return""")], """
from unpythonic import partition_int
try:
    partition_int(3, 1, 5)
except ValueError:
    pass
else:
    assert False
""", "an upper limit above n", "the limit is accepted silently")
