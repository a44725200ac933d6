"""Replays Testing.tla: test modules for the test framework, through the macros."""
import mcpyrate.activate  # noqa: F401
import re
import sys
import types
import warnings
from mcpyrate.compiler import run as mrun
from unpythonic.test import fixtures
from unpythonic.test.fixtures import session, testset, terminate, catch_signals, TestConfig, returns_normally
from unpythonic.collections import unbox
from unpythonic import conditions

TestConfig.use_color = False


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class W(UserWarning):
    pass


def raises(cls):
    raise cls("raised")


FALSY = [0, None, "", [], 0.0, ()]


class Fns:
    def __init__(self, how):
        self.n = how

    def falsy(self):
        self.n += 1
        return FALSY[self.n % len(FALSY)]

    def ns(self):
        return {"falsy": self.falsy, "truthy": lambda: 7, "boom": lambda: raises(E1), "boomsub": lambda: raises(E2), "boomother": lambda: raises(E3),
                "sig": lambda: (conditions.signal(E1("sig")), True)[1], "sigsub": lambda: (conditions.signal(E2("sig")), True)[1],
                "sigother": lambda: (conditions.signal(E3("sig")), True)[1], "csig": lambda: (conditions.cerror(E1("csig")), True)[1],
                "esig": lambda: conditions.error(E1("esig")), "wsig": lambda: conditions.warn(W("wsig")),
                "E1": E1, "session": session, "testset": testset, "terminate": terminate, "catch_signals": catch_signals, "returns_normally": returns_normally}


CALL = {"ok": "truthy()", "falsy": "falsy()", "raise": "boom()", "sub": "boomsub()", "other": "boomother()", "signal": "sig()", "cerror": "csig()",
        "subsig": "sigsub()", "othersig": "sigother()", "inner": "inner()"}


def render(prog, how):
    lines = ["from unpythonic.syntax import macros, test, test_raises, test_signals, fail, error, warn, the", "",
             "def inner():", "    test[falsy(), 'inner']", "    return True", "",
             "def main():", "    with session('s'):"]
    ind = [8]

    def put(s):
        lines.append(" " * ind[-1] + s)
    put("pass")
    for i, l in enumerate(prog):
        op, b, v = l["op"], l["b"], (i + how) % 4
        if op == "open":
            put({"plain": ("with testset():", "with testset('name'):")[v % 2], "post": "with testset('p', postproc=terminate):",
                 "quiet": "with catch_signals(False):", "loud": "with catch_signals(True):"}[b])
            ind.append(ind[-1] + 4)
            put("pass")
        elif op == "close":
            ind.pop()
        elif op == "test":
            x = CALL[b]
            if v == 0:
                put(f"test[{x}]")
            elif v == 1:
                put(f"test[the[{x}], 'message']")
            elif v == 2:
                put("with test('message'):")
                put(f"    y = {x}")
                put("    return the[y]")
            else:
                put(f"test[returns_normally({x})]" if b in ("raise", "cerror") else f"test[bool({x})]")
        elif op in ("test_raises", "test_signals"):
            x = CALL[b]
            if v in (0, 1):
                put(f"{op}[E1, {x}" + (", 'message']" if v else "]"))
            else:
                put(f"with {op}(E1):" if v == 2 else f"with {op}(E1, 'message'):")
                put(f"    {x}")
        elif op in ("fail", "error", "warn"):
            put(f"{op}['because']")
        elif op == "terminate":
            put("terminate()")
        else:
            put({"signal": "sig()", "cerror": "csig()", "errorsig": "esig()", "warnsig": "wsig()", "raise": "boom()"}[b])
    return "\n".join(lines) + "\n"


END = re.compile(r"END: Pass (-?\d+), Fail (\d+), Error (\d+), Total (\d+) \(\d+% pass\)(?: \+ (\d+) Warn)?")


def classify(s):
    m = re.match(r"(\**) ?", s)
    lv = len(m.group(1)) // TestConfig.indent_per_level
    body = s[m.end():]
    rec = {"k": "", "lv": lv, "r": 0, "f": 0, "e": 0, "w": 0}
    if body.startswith("TERMINATING SESSION"):
        return dict(rec, k="TERMINATING", lv=0)
    if body.startswith("SESSION"):
        return None
    if body.startswith("Testset received signal"):
        return dict(rec, k="SIGNAL")
    if body.startswith("Testset terminated by exception"):
        return dict(rec, k="EXCEPTION")
    if body.startswith("Testset"):
        m = END.search(body)
        if m:
            p, f, e, r, w = (int(x or 0) for x in m.groups())
            if p != r - f - e:
                return dict(rec, k=f"bad sum {body}")
            return dict(rec, k="END", r=r, f=f, e=e, w=w)
        return dict(rec, k="BEGIN")
    for k in ("FAIL", "ERROR", "WARNING"):
        if body.startswith(k + ": "):
            return dict(rec, k=k)
    return dict(rec, k=f"unknown {s!r}")


def replay(case):
    known = None
    for how in range(2):
        code = render(case["prog"], how)
        mod = types.ModuleType("testing_case")
        mod.__file__ = "testing_case.py"
        mod.__dict__.update(Fns(how).ns())
        sys.modules["testing_case"] = mod
        out = []
        TestConfig.printer = out.append
        for c in (fixtures.tests_run, fixtures.tests_failed, fixtures.tests_errored, fixtures.tests_warned):
            fixtures._reset(c) if hasattr(fixtures, "_reset") else c.set(0)
        mrun(code, mod)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                mod.main()
            except Exception as e:
                return f"{code}\nthe session raised {e!r}"
        got = [x for x in map(classify, out) if x]
        cnt = {k: unbox(b) for k, b in (("r", fixtures.tests_run), ("f", fixtures.tests_failed), ("e", fixtures.tests_errored), ("w", fixtures.tests_warned))}
        if (got, cnt) == (case["out"], case["cnt"]):
            continue
        if (got, cnt) == (case["out2"], case["cnt2"]):     # exactly the known deviation
            known = {"fail": f"{code}\nterminate ended only the innermost testset", "sig": "terminate-swallowed"}
            continue
        if got != case["out"]:
            n = next((i for i, (a, b) in enumerate(zip(got, case["out"])) if a != b), min(len(got), len(case["out"])))
            return f"{code}\nline {n + 1} of the report: {got[n:n + 1]}, specification {case['out'][n:n + 1]}"
        return f"{code}\ncounters {cnt}, specification {case['cnt']}"
    return known
