"""Replays Env.tla."""
import copy
import pickle

from unpythonic.env import env
from unpythonic.assignonce import assignonce
from drivers import machine

CLS = {"env": env, "assignonce": assignonce}
VAL = {"v0": 0, "v1": "one", "v2": None}
BACK = {repr(v): k for k, v in VAL.items()}


def out(v):
    if isinstance(v, (list, tuple)):
        return [out(x) for x in v]
    if isinstance(v, bool) or v in ("default", "a", "b", "c"):
        return v
    return BACK.get(repr(v), repr(v))


class Box:
    def __init__(self, e):
        self.e = e


def fresh(case):
    return Box(CLS[case["cls"]]())


def apply(bx, o):
    e, op, n, v = bx.e, o["op"], o["n"], VAL.get(o["v"])
    if o["v"] == "":
        v = None
    r, kind = "", "ret"
    try:
        if op == "setattr":
            r, kind = "", "none"
            setattr(e, n, v)
        elif op == "setitem":
            kind = "none"
            e[n] = v
        elif op == "set":
            r = out(e.set(n, v))
        elif op == "lshift":
            kind = "self" if (e << (n, v)) is e else "notself"
        elif op == "setdefault":
            r = out(e.setdefault(n, v))
        elif op == "update":
            kind = "none"
            e.update({n: v})
        elif op == "updatepairs":
            kind = "none"
            e.update([(n, v)])
        elif op == "updatekw":
            kind = "none"
            e.update(**{n: v})
        elif op == "update2":
            kind = "none"
            e.update({n: v}, **{{"a": "b", "b": "a"}[n]: v})
        elif op == "getattr":
            r = out(getattr(e, n))
        elif op == "getitem":
            r = out(e[n])
        elif op == "get":
            r = out(e.get(n, "default"))
            if n not in e and e.get(n) is not None:
                r = "get without default is not None"
        elif op == "contains":
            r = n in e
        elif op == "delattr":
            kind = "none"
            delattr(e, n)
        elif op == "delitem":
            kind = "none"
            del e[n]
        elif op == "pop":
            r = out(e.pop(n))
        elif op == "popdefault":
            r = out(e.pop(n, "default"))
        elif op == "popitem":
            r = out(e.popitem())
        elif op == "clear":
            kind = "none"
            e.clear()
        elif op == "finalize":
            kind = "none"
            e.finalize()
        elif op == "exit":
            kind = "none"
            with e as e2:
                if e2 is not e:
                    kind = "with gives another object"
        elif op == "len":
            r = len(e)
        elif op == "names":
            r = list(e)
            if list(e.keys()) != r:
                r = "keys() differs from iteration"
        elif op == "items":
            r = out(list(e.items()))
        elif op == "values":
            r = out(list(e.values()))
        elif op == "eq":
            d = dict(e.items())
            r = e == d and d == e and not (e == {**d, "zz": 1}) and e == env(**d)
        elif op == "repickle":
            x = pickle.loads(pickle.dumps(e))
            r = type(x) is type(e) and list(x.items()) == list(e.items()) and same_frozen(x, e)
        elif op == "copy":
            x = copy.deepcopy(e)
            r = type(x) is type(e) and list(x.items()) == list(e.items()) and same_frozen(x, e)
        elif op == "rector":
            x = type(e)(**dict(e.items()))
            r = list(x.items()) == list(e.items())
    except (AttributeError, ValueError, TypeError, KeyError) as err:
        r, kind = "", type(err).__name__
    return {"kind": kind, "v": r}


def frozen(e):
    try:
        e.probe = 1
    except AttributeError:
        return True
    del e["probe"]
    return False


def same_frozen(x, e):
    return frozen(x) == frozen(e)


def observe(bx):
    e = bx.e
    b = out([list(kv) for kv in e.items()])
    for n, v in b:
        if out(getattr(e, n)) != v or out(e[n]) != v or n not in e:
            b.append(f"attribute or subscript access to {n} disagrees")
    return {"b": b, "fin": frozen(e)}


def replay(case):
    return machine.run(case, fresh, apply, observe)
