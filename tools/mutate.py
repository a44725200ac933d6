"""python tools/mutate.py WORKDIR N SEED P..: mutation campaign against the checks (development tool, not a check).

For each property, small changes are made to its anchored files in a scratch clone; a change that the
file's own test module and the property's check both let pass is run through the whole test suite, and
if that passes too it is appended to WORKDIR/survivors.txt for review."""
import ast
import difflib
import json
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sites(src):
    """[(description, new source)]"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = src.encode()

    def seg(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = seg(n)
        return raw[a:b].decode()
    out = []

    def rep(n, new, what):
        a, b = seg(n)
        s = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(s)
        except SyntaxError:
            return
        out.append((f"{what} line {n.lineno}", s))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module, ast.AsyncFunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0]))
            skip.add(id(n.body[0].value))
        if isinstance(n, (ast.Raise, ast.Assert, ast.JoinedStr, ast.Import, ast.ImportFrom)):
            for m in ast.walk(n):
                if not isinstance(n, ast.Raise) or m is not n:
                    skip.add(id(m))
    infunc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for m in ast.walk(n):
                if m is not n:
                    infunc.add(id(m))
    SW = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
    for n in ast.walk(tree):
        if id(n) in skip or id(n) not in infunc or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, f"{text(n.left)} {SW[type(n.ops[0])]} {text(n.comparators[0])}", "compare")
        if isinstance(n, ast.BoolOp):
            op = " and " if isinstance(n.op, ast.Or) else " or "
            rep(n, "(" + op.join(text(v) for v in n.values) + ")", "boolop")
            for i in range(len(n.values)):
                o = " or " if isinstance(n.op, ast.Or) else " and "
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                rep(n, "(" + o.join(rest) + ")", "drop operand")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, f"bool({text(n.operand)})", "not")
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), "bool const")
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), "int const")
                if n.value > 0:
                    rep(n, str(n.value - 1), "int const")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            rep(n, f"{text(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {text(n.right)}", "arith")
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            rep(n, f"({text(n.right)} + {text(n.left)})", "swap +")
        if isinstance(n, (ast.If, ast.While)) and not isinstance(n, ast.While):
            rep(n.test, "True", "if true")
            rep(n.test, "False", "if false")
        if isinstance(n, ast.IfExp):
            rep(n, text(n.body), "ifexp then")
            rep(n, text(n.orelse), "ifexp else")
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
            f = text(n.func)
            if f not in ("isinstance", "getattr", "setattr", "hasattr", "zip"):
                args = [text(a) for a in n.args] + [text(k.value) if k.arg is None else f"{k.arg}={text(k.value)}" for k in n.keywords if k.arg]
                args[0], args[1] = args[1], args[0]
                if all(k.arg for k in n.keywords):
                    rep(n, f"{f}({', '.join(args)})", "swap args")
        if isinstance(n, ast.Call) and n.keywords and all(k.arg for k in n.keywords):
            for i in range(len(n.keywords)):
                args = [text(a) for a in n.args] + [f"{k.arg}={text(k.value)}" for j, k in enumerate(n.keywords) if j != i]
                rep(n, f"{text(n.func)}({', '.join(args)})", "drop keyword")
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield, ast.YieldFrom)):
            rep(n, "pass", "drop statement")
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            rep(n, "pass", "drop assignment") if isinstance(n, ast.AugAssign) or any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in ts) or True else None
        if isinstance(n, ast.Delete):
            rep(n, "pass", "drop del")
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant)):
            rep(n, "return None", "return None")
        if isinstance(n, ast.Return) and n.value is None:
            rep(n, "pass", "drop return")
        if isinstance(n, ast.Break):
            rep(n, "continue", "break")
            rep(n, "pass", "drop break")
        if isinstance(n, ast.Continue):
            rep(n, "break", "continue")
            rep(n, "pass", "drop continue")
        if isinstance(n, ast.Raise):
            rep(n, "pass", "drop raise")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            rep(n, f"{text(n.value)}[:]", "whole slice")
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            rep(n.type, "()", "no except")
            rep(n.type, "Exception", "wide except")
        if isinstance(n, ast.Starred) and False:
            pass
        if isinstance(n, ast.Try) and n.finalbody:
            for st in n.finalbody:
                rep(st, "pass", "drop finally")
        if isinstance(n, ast.With) and len(n.items) == 1 and n.items[0].optional_vars is None:
            rep(n.items[0].context_expr, "__import__('contextlib').nullcontext()", "drop with")
    return out


def sh(cmd, timeout, env=None, cwd=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, errors="replace", timeout=timeout, env=env, cwd=cwd, start_new_session=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        subprocess.run(["pkill", "-f", cmd[-1] if len(cmd) > 1 else cmd[0]])
        return 99, str(e.stdout)


def main():
    work, n, seed, props = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4:]
    os.makedirs(work, exist_ok=True)
    tree = os.path.join(work, "tree")
    if not os.path.exists(tree):
        subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
    subprocess.run(["git", "-C", tree, "checkout", "-q", "."])
    subprocess.run(["git", "-C", tree, "pull", "-q", "/repo", "HEAD"], check=True)
    us = os.path.join(work, "unpy")
    if not os.path.exists(us):
        os.makedirs(us)
        for f in os.listdir("/opt/vp/unpy"):
            p = os.path.join("/opt/vp/unpy", f)
            if f.endswith(".py"):
                open(os.path.join(us, f), "w").write(open(p).read().replace("/repo", tree).replace("    if m.startswith(\"unpythonic.net.\"):\n        run(m)", "    pass"))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    rows = {r["id"]: r for r in map(json.loads, open(os.path.join(HERE, "properties.jsonl")))}
    by_file = {}
    for p in props:
        for f in FILES.get(p) or rows[p]["anchors"]["files"]:
            by_file.setdefault(f, []).append(p)
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONHASHSEED="0", VP_REPO=tree)

    def tests(mods):
        """names of stable tests that no longer pass"""
        logs = os.path.join(work, "logs")
        subprocess.run(["rm", "-rf", logs, os.path.join(work, "pyc")])
        os.makedirs(logs)
        e = dict(env, PYTHONPYCACHEPREFIX=os.path.join(work, "pyc"))
        if mods is None:
            sh([PY, os.path.join(us, "run_all.py"), logs], 600, dict(e, JOBS="3"))
            want = {t for t in base if not t.startswith("unpythonic.net")}
        else:
            for m in mods:
                sh([PY, os.path.join(us, "worker.py"), m, os.path.join(logs, m + ".log")], 120, e, tree)
            want = {t for t in base if t.split("::")[0] in mods}
        out = os.path.join(work, "out.json")
        sh(["/usr/bin/python3", "/opt/vp/results.py", out, f"lines:{logs}/*.log"], 60)
        try:
            d = json.load(open(out))
        except Exception:
            return {"?"}
        return want - set(d.get("passed") or d.get("stable") or [])
    stat = {}
    for f, ps in by_file.items():
        path = os.path.join(tree, f)
        src = open(path).read()
        ss = sites(src)
        rng = random.Random(seed + f)
        rng.shuffle(ss)
        stem = os.path.basename(f)[:-3]
        d = os.path.dirname(f)
        rel = [x for x in {stem, stem + "s"} if os.path.exists(os.path.join(tree, d, "tests", f"test_{x}.py"))]
        mods = [f"{d}/tests/test_{x}".replace("/", ".") for x in rel]
        # anything else that mentions the module
        done = 0
        for what, new in ss:
            if done >= n:
                break
            open(path, "w").write(new)
            diff = "".join(difflib.unified_diff(src.splitlines(1), new.splitlines(1), f"a/{f}", f"b/{f}", n=2))
            try:
                if mods and tests(mods):
                    res = "tests"
                else:
                    res = None
                    for p in ps:
                        rc, o = sh([os.path.join(HERE, "bin/check"), p, "quick"], 900, env, HERE)
                        if rc == 1 and f"VIOLATION property={p}" in o:
                            res = f"caught {p}"
                            break
                        if rc not in (0, 1):
                            res = f"broken {p} rc={rc}"
                    done += 1
                    if res is None or res.startswith("broken"):
                        t = tests(None)
                        res = ("tests2" if t else "SURVIVED") + (" " + res if res else "")
            finally:
                open(path, "w").write(src)
            stat[res] = stat.get(res, 0) + 1
            with open(os.path.join(work, "log.txt"), "a") as fh:
                fh.write(f"{res}\t{ps}\t{f}\t{what}\n")
            if "SURVIVED" in res:
                with open(os.path.join(work, "survivors.txt"), "a") as fh:
                    fh.write(f"=== {res} {ps} {f} {what}\n{diff}\n")
    print(stat)


FILES = {}
if __name__ == "__main__":
    main()
