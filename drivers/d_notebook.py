"""Runs the programs of Notebook.tla."""
import io
import sys
import types
import zlib
import json
from contextlib import redirect_stdout

import mcpyrate.activate  # noqa: F401
from mcpyrate.compiler import run as mrun
import unpythonic.syntax  # noqa: F401
from unpythonic import dyn

CASE_TIMEOUT = 60
NV = "None"


def val(v):
    return None if v == NV else int(v)


def text(e, inner=False):
    """As Python source; inside a shown expression, an inner dbg is already expanded (None: not compared)."""
    t, a = e["t"], e["a"]
    if t == "const":
        return str(e["n"])
    if t == "var":
        return "_" if e["n"] == "u" else e["n"]
    if t == "f":
        return f"f({text(a[0])})"
    if t == "dbg":
        return f"dbg[{text(a[0])}]"
    if t == "lam":
        return f"(lambda: {text(a[0])})()"
    return f"{e['n']}({', '.join(text(x) for x in a)})"


def plain(e):
    """Whether the source text of the expression is what is shown: no macro or transformed call in it."""
    return e["t"] not in ("dbg", "print", "lam") and all(plain(x) for x in e["a"])


HEAD = {"nb": "with nb:", "nbpr": "with nb[prt]:", "dbg": "with dbg:", "dbgpr": "with dbg[prt]:", "plain": "if 1:"}


def replay(case):
    mode, log = case["mode"], []
    seed = zlib.crc32(json.dumps(case["prog"]).encode())
    lines = ["from unpythonic.syntax import macros, nb, dbg", "from ioput import *", "x = 1", "y = None", HEAD[mode]]
    where = []
    for n, c in enumerate(case["prog"]):
        src = text(c["e"])
        if c["s"] == "expr":
            lines.append("    " + src)
        elif c["s"] == "assign":
            lines.append(f"    {c['x']} = {src}")
        elif c["s"] == "nested":
            lines += ["    if True:", "        " + src]
        else:
            lines += [f"    def g{n}():", "        " + src, f"    h = g{n}()"]
        where.append(len(lines) - (c["s"] == "def"))
    if mode in ("dbg", "dbgpr", "plain"):
        lines.append("    pass")
    m = types.ModuleType("notebook_case")
    m.__file__ = "<notebook>"
    sys.modules["notebook_case"] = m

    def f(v):
        log.append(["call", "f", None, [v]])
        return {0: 1, 1: None, None: 0}[v]

    def prt(*a, **kw):
        if kw:
            ks, vs = a
            if kw.get("filename") != "<notebook>" or not isinstance(kw.get("lineno"), int) or not 1 <= kw["lineno"] <= len(lines):
                bad.append(f"shown with {kw}")
            log.append(["show", "prt", list(ks), list(vs)])
        else:
            log.append(["call", "prt", None, list(a)])

    def shownexpr(k, v, *, filename, lineno):
        if filename != "<notebook>" or not isinstance(lineno, int):
            bad.append(f"dbg with {filename}:{lineno}")
        log.append(["dbg", "", [k], [v]])
        return v

    class Out(io.StringIO):
        """Whole lines become log entries."""
        part = ""

        def write(self, s):
            self.part += s
            while "\n" in self.part:
                line, self.part = self.part.split("\n", 1)
                log.append(["line", line])
    bad = []
    inp = types.ModuleType("ioput")
    inp.f, inp.prt = f, prt
    inp.__all__ = ["f", "prt"]
    sys.modules["ioput"] = inp
    hook = seed % 2
    src = "\n".join(lines) + "\n"
    with redirect_stdout(Out()):
        try:
            if hook:
                with dyn.let(dbgprint_expr=shownexpr):
                    mrun(src, m)
            else:
                mrun(src, m)
        except Exception as e:
            return f"{type(e).__name__}: {e}; in\n{src}"
    if bad:
        return f"{bad[0]}; in\n{src}"
    st = {k: val(v) for k, v in case["st"].items()}
    got = {"x": m.x, "y": m.y, "u": getattr(m, "_", None)}
    if got != st:
        return f"variables {got}, specification {st}; in\n{src}"
    want = case["log"]
    if len(log) != len(want):
        return f"{len(log)} events {log}, specification {len(want)}: {want}; in\n{src}"
    for g, w in zip(log, want):
        vs = [val(v) for v in w["v"]]
        name = w["n"]
        texts = [text(e) if plain(e) else None for e in w["e"]]
        if w["k"] == "dbg" and not hook or w["k"] == "show" and name == "print":
            if g[0] != "line" or not g[1].startswith("[<notebook>:"):
                return f"{g} instead of a debug line {w}; in\n{src}"
            ln, rest = g[1][len("[<notebook>:"):].split("] ", 1)
            if not ln.isdigit() or int(ln) not in where:
                return f"line number in {g[1]!r}; in\n{src}"
            if all(t is not None for t in texts):
                exp = ", ".join(f"{t}: {v}" for t, v in zip(texts, vs))
                if rest != exp:
                    return f"shows {rest!r}, specification {exp!r}; in\n{src}"
            elif vs and not rest.endswith(f": {vs[-1]}"):
                return f"shows {rest!r}, specification {vs}; in\n{src}"
        elif w["k"] == "call" and name == "print":
            if g != ["line", " ".join(map(str, vs))]:
                return f"{g}, specification: print {vs}; in\n{src}"
        else:
            if g[0] != w["k"] or g[1] != name or g[3] != vs:
                return f"{g}, specification {w}; in\n{src}"
            for a, b in zip(g[2] or [], texts):
                if b is not None and a != b:
                    return f"shows {a!r}, specification {b!r}; in\n{src}"
            if g[2] is not None and len(g[2]) != len(vs):
                return f"{g}: names and values differ in number; in\n{src}"
    return None
