"""Replays Exc.tla into tryf, raisef, reraise_in and reraise."""
from unpythonic import tryf, raisef
from unpythonic.excutil import reraise_in, reraise


class A(Exception):
    pass


class B(A):
    pass


class C(Exception):
    def __bool__(self):
        return False   # a falsy exception object is an exception all the same


class K(BaseException):
    pass


CLS = {"A": A, "B": B, "C": C, "K": K, "Exception": Exception, "Base": BaseException}
CAUSE = C("the cause")
MADE = {}


def make(c, l):
    e = CLS[c](l)
    MADE[l] = e
    return e


def spec(s, how):
    t = tuple(CLS[c] for c in s)
    return t if len(t) > 1 or how % 2 else t[0]


def ev(x, log, how):
    """The thunk of a term."""
    t = x["t"]
    if t in ("ret", "nil"):
        def leaf():
            log.append(["leaf", x["l"]])
            return x["l"] if t == "ret" else None
        return leaf
    if t in ("raise", "cause"):
        def leaf():
            log.append(["leaf", x["l"]])
            e = make(x["c"], x["l"])
            if t == "cause":
                return raisef(e, cause=CAUSE)
            return raisef(e)
        return leaf
    body = ev(x["body"], log, how)
    if t == "try":
        hs = []
        for h in x["hs"]:
            hb = ev(h["h"], log, how)
            if h["a"]:
                def handler(exc, hb=hb):
                    log.append(["got", exc.args[0]])
                    if MADE.get(exc.args[0]) is not exc and exc.args[0] < 100:
                        raise RuntimeError("the handler got another exception object")
                    return hb()
            else:
                handler = hb
            hs.append((spec(h["s"], how), handler))
        kw = {}
        if x["els"]:
            kw["elsef"] = ev(x["els"][0], log, how)
        if x["fin"]:
            kw["finallyf"] = ev(x["fin"][0], log, how)
        return lambda: tryf(body, *hs, **kw)
    assert t == "map"
    mapping = {}
    for m in x["ms"]:
        # a mapping may name a class or an instance to raise
        mapping[spec(m["s"], how)] = CLS[m["to"]](m["l"])
    if how % 2:
        return lambda: reraise_in(body, mapping)

    def withform():
        with reraise(mapping):
            return body()
    return withform


def number(e):
    return 99 if e is CAUSE else (0 if e is None else e.args[0])


def replay(case):
    exp = case["r"]
    for how in range(4):
        log = []
        MADE.clear()
        try:
            v = ev(case["x"], log, how)()
            got = {"k": "ok", "v": v if v is not None else 0, "c": "", "l": 0, "cause": 0}
        except RuntimeError:
            raise
        except BaseException as e:
            if not isinstance(e, (A, B, C, K)):
                return f"unexpected {e!r}"
            got = {"k": "exc", "v": 0, "c": type(e).__name__, "l": e.args[0], "cause": number(e.__cause__)}
            if e.args[0] < 100 and MADE[e.args[0]] is not e:
                return "another exception object"
        if got != exp["r"] or log != exp["log"]:
            return f"{got} after {log}, specification {exp['r']} after {exp['log']} (variant {how})"
    # a handler specification that is not an exception type is refused, and nothing is run
    if case["x"]["t"] == "try":
        for bad in (42, "A", (A, 42), int, [A]):
            ran = []
            try:
                tryf(lambda: ran.append(1), (bad, lambda: None))
                return f"tryf accepted the specification {bad!r}"
            except TypeError:
                if ran:
                    return "tryf ran the body before refusing"
    # a class to raise, instead of an instance
    try:
        reraise_in(lambda: raisef(B), {C: A, A: K})
        return "reraise_in with classes"
    except K as e:
        if type(e.__cause__) is not B:
            return "reraise_in with classes: cause"
    return None
