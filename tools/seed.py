"""Development tool: build and confirm planted bugs from tools/seeds_*.py in a scratch copy of /repo.

    python tools/seed.py [--check-only] [--all] ID...

For each: apply the edits in a scratch copy, run build + stable tests there, run the demo with and without, run the
property's quick check against the copy, and (if it counts) write /verif/seeded/<ID>/."""
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
BASE = "ab7f0f5"
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="seedwt-")
    wt, tl = d + "/repo", d + "/vp"
    sh(f"cp -a {os.environ.get("SEED_BASE", "/repo")} {wt} && cp -a /opt/vp {tl}")
    sh(f"grep -rlE '/repo|/opt/vp' {tl} | xargs sed -i 's#/opt/vp#{tl}#g; s#/repo#{wt}#g'")
    return d, wt, tl


def stable(tl):
    b = sh(f"bash {tl}/build.sh")
    if b.returncode:
        return "build fails: " + (b.stderr or b.stdout)[-500:]
    sh(f"bash {tl}/test.sh {tl}/out.json")
    B = json.load(open("/opt/vp/BASELINE.json"))
    base = set(next(B[k] for k in ("passed", "stable", "tests", "stable_pass") if k in B))
    got = set(json.load(open(f"{tl}/out.json"))["passed"])
    miss = sorted(base - got)
    return f"{len(miss)} stable tests fail, e.g. {miss[:3]}" if miss else None


def demo(d, wt):
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONDONTWRITEBYTECODE")}
    env["DEMO_REPO"] = wt
    s = tempfile.mkdtemp(prefix="demo-")
    shutil.copytree(d, s, dirs_exist_ok=True)
    # the demo runs with cwd = the tree
    r = subprocess.run(["bash", s + "/demo.sh"], cwd=wt, env=env, capture_output=True, text=True, timeout=300)
    shutil.rmtree(s)
    return r


def main():
    args = sys.argv[1:]
    check_only = "--check-only" in args
    ids = [a for a in args if not a.startswith("-")]
    seeds = {}
    for p in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds_*.py"))):
        m = importlib.import_module(os.path.basename(p)[:-3])
        for s in m.SEEDS:
            seeds[s["id"]] = s
    if not ids:
        ids = [i for i in seeds if "--all" in args or not os.path.exists(f"{ROOT}/seeded/{i}/patch.diff")]
    d, wt, tl = scratch()
    try:
        for i in ids:
            s = seeds[i]
            sh("git checkout -q -- .", cwd=wt)
            for fn, old, new in s["edits"]:
                p = os.path.join(wt, fn)
                t = open(p).read()
                if t.count(old) != 1:
                    print(f"{i}: edit text occurs {t.count(old)} times in {fn}")
                    break
                open(p, "w").write(t.replace(old, new))
            else:
                if not check_only:
                    out = os.path.join(ROOT, "seeded", i)
                    tmpd = tempfile.mkdtemp()
                    diff = sh("git diff", cwd=wt).stdout
                    for fn in {e[0] for e in s["edits"]}:
                        base = set(sh(f"git show {BASE}:{fn}", cwd=wt).stdout.split("\n"))
                        dl = sh(f"git diff -- {fn}", cwd=wt).stdout.split("\n")
                        mine = [x[1:] for x in dl if x.startswith("-") and not x.startswith("---") and x[1:] not in base]
                        if mine:
                            print(f"{i}: WARNING: changes lines that are not the original repository's: {mine[:3]}")
                    open(tmpd + "/patch.diff", "w").write(diff)
                    with open(tmpd + "/demo.sh", "w") as f:
                        f.write('#!/bin/bash\n# run in the tree\'s root: exit 0 if the behaviour is right\n'
                                'export PYTHONPYCACHEPREFIX="$(mktemp -d)"\ntrap \'rm -rf "$PYTHONPYCACHEPREFIX"\' EXIT\n'
                                'PYTHONPATH="$PWD" timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                    with open(tmpd + "/demo.py", "w") as f:
                        f.write(s["demo"].lstrip())
                    for fn, txt in s.get("files", {}).items():
                        open(os.path.join(tmpd, fn), "w").write(txt.lstrip())
                    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                              open(tmpd + "/meta.json", "w"), indent=1)
                    bad = stable(tl)
                    r1 = demo(tmpd, wt)
                    sh("git stash -q", cwd=wt)
                    r0 = demo(tmpd, wt)
                    sh("git stash pop -q", cwd=wt)
                    ok = not bad and r1.returncode != 0 and r0.returncode == 0
                    print(f"{i}: tests: {bad or 'pass'}; demo unchanged={r0.returncode} patched={r1.returncode}" + ("" if ok else " -- DOES NOT COUNT"))
                    if r0.returncode:
                        print(r0.stdout[-800:], r0.stderr[-1500:])
                    if ok:
                        shutil.rmtree(out, ignore_errors=True)
                        shutil.copytree(tmpd, out)
                    shutil.rmtree(tmpd)
                    if not ok:
                        continue
                env = dict(os.environ, VP_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick")
                r = subprocess.run([f"{ROOT}/bin/check", s["property"], "quick"], env=env, capture_output=True, text=True)
                hit = r.returncode == 1 and f"VIOLATION property={s['property']}" in r.stdout
                print(f"{i}: check {s['property']} " + ("CAUGHT" if hit else f"MISSED rc={r.returncode} {r.stdout[-300:]} {r.stderr[-500:]}"), flush=True)
                if hit and "-v" in args:
                    print(r.stdout[:1500])
    finally:
        shutil.rmtree(d)


main()
