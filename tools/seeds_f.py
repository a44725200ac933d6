from seeds_d import S as _S, SM as _SM, SEEDS as _D
SEEDS = []


def S(*a, **k):
    _S(*a, **k)
    SEEDS.append(_D.pop())


def SM(*a, **k):
    _SM(*a, **k)
    SEEDS.append(_D.pop())


S("escape-exception", "P05",
  [("unpythonic/ec.py", "class Escape(BaseException):", "class Escape(Exception):")], """
from unpythonic import call_ec
@call_ec
def r(ec):
    try:
        ec(1)
    except Exception:
        return 2
assert r == 1, r
""", "an ordinary handler of Exception between the escape and its catch point", "the escape is swallowed by the handler")

S("isoftype-sample", "P13",
  [("unpythonic/typecheck.py", """            U = typeargs[0]
            return all(isoftype(elt, U) for elt in value)
""", """            U = typeargs[0]
            seen = set()  # don't check the same run-time type over and over again in a homogeneous collection
            for elt in value:
                if type(elt) not in seen and not isoftype(elt, U):
                    return False
                seen.add(type(elt))
            return True
""")], """
from typing import List
from unpythonic.typecheck import isoftype
assert isoftype([[1], ["a"]], List[List[int]]) is False
""", "a nested collection whose first element matches and another of the same class does not", "elements of a class that was seen before are not checked")

S("frozendict-hash", "P17",
  [("unpythonic/collections.py", """        return hash(frozenset(self.items()))""", """        return hash(tuple(self.items()))""")], """
from unpythonic import frozendict
a, b = frozendict({"x": 1, "y": 2}), frozendict({"y": 2, "x": 1})
assert a == b and hash(a) == hash(b)
""", "two equal frozendicts that were filled in another order", "equal frozendicts have different hashes")

S("scanr1-falsy", "P20",
  [("unpythonic/fold.py", """    return scanr(proc, _uselast if init is None else init, iterable)""",
    """    return scanr(proc, init or _uselast, iterable)""")], """
from unpythonic import scanr1
assert tuple(scanr1(lambda x, acc: x + acc, [1, 2], 0)) == (0, 2, 3), tuple(scanr1(lambda x, acc: x + acc, [1, 2], 0))
""", "an initial value that is false", "the initial value is ignored")

S("negidx-wrap", "P17",
  [("unpythonic/collections.py", """    on_grid = (i - start) % step == 0
    return at_or_after_start and on_grid and before_stop
""", """    on_grid = abs(i - start) % abs(step) == 0
    return at_or_after_start and on_grid and (before_stop or i == start == stop)
""")], """
from unpythonic import in_slice
assert not in_slice(2, slice(2, 2), 5)
""", "an empty slice at the index", "the start of an empty slice counts as inside")
