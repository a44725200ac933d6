"""Shared harness: run TLC, replay the behaviours it emits into the real code, validate
recorded traces with TLC, write evidence, and produce a total verdict (exit 0 / exit 1)."""
import contextlib
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """Something of ours (not of the code under test) is broken."""


class TLCResult:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.emitted = []
        self.ok = False
        self.out = ""
        self.violation = None
        self.coverage = {}


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = seed
        self.rng = random.Random(f"{pid}/{seed}")
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"vp-{pid}-")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.distinct_traces = 0
        self.samples = []
        self.failures = []       # list of dict(driver, case, detail, sig)
        self.known_hits = []
        self.parts = []
        self.assumptions = []
        self.exhaustive_parts = []
        self._warm = None

    def sample(self, cases, cap):
        """A reproducible sample (TLC with several workers emits in no particular order)."""
        if len(cases) <= cap:
            return cases
        keyed = sorted(cases, key=lambda c: json.dumps(c, sort_keys=True))
        return self.rng.sample(keyed, cap)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, *, consts=None, init="Init", next="Next", spec=None, invariants=(),
            properties=(), constraint=None, view=None, postcondition=None, simulate=None, depth=None,
            deadlock=False, workers="auto", timeout=800, env=None, dfs=False, expect_ok=True,
            symmetry=None, heap="6g", note=None, raw_consts=None, coverage=False):
        """Run TLC on spec/<module>.tla with a generated configuration. Returns TLCResult."""
        cfg = []
        if spec:
            cfg.append(f"SPECIFICATION {spec}")
        else:
            cfg.append(f"INIT {init}\nNEXT {next}")
        for k, v in (consts or {}).items():
            cfg.append(f"CONSTANT {k} = {tla(v)}")
        for k in (raw_consts or {}):
            cfg.append(f"CONSTANT {k} <- c_{k}")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for p in properties:
            cfg.append(f"PROPERTY {p}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if symmetry:
            cfg.append(f"SYMMETRY {symmetry}")
        if view:
            cfg.append(f"VIEW {view}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        cfgp = os.path.join(d, f"{module}.cfg")
        with open(cfgp, "w") as f:
            f.write("\n".join(cfg) + "\n")
        target = os.path.join(SPEC, f"{module}.tla")
        if raw_consts:   # constants that a configuration file cannot express
            target = os.path.join(d, f"MC{module}.tla")
            with open(target, "w") as f:
                f.write(f"---- MODULE MC{module} ----\nEXTENDS {module}\n")
                for k, v in raw_consts.items():
                    f.write(f"c_{k} == {v}\n")
                f.write("====\n")
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={d}", f"-DTLA-Library={SPEC}"]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", JARS, "tlc2.TLC", "-config", cfgp, "-workers", str(workers),
                "-metadir", os.path.join(d, "m"), "-noGenerateSpecTE"]
        if simulate:
            nw = 8 if workers == "auto" else int(workers)   # TLC counts simulated behaviours per worker
            cmd[cmd.index("-workers") + 1] = str(nw)
            cmd += ["-simulate", f"num={-(-simulate // nw)}", "-seed", str(self.seed)]
        if depth:
            cmd += ["-depth", str(depth)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd.append(target)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as f:
            try:
                rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = -9
        res = TLCResult()
        rest = []
        with open(outp, errors="replace") as f:
            for line in f:
                if line.startswith('"@@'):
                    try:
                        res.emitted.append(json.loads(json.loads(line)[2:]))
                    except ValueError as err:
                        raise MachineryError(f"unparsable TLC output line {line[:200]!r}: {err}")
                else:
                    rest.append(line)
        out = "".join(rest)
        res.out = out
        m = None
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?,? ([\d,]+) distinct states found", out):
            pass
        if m:
            res.states = int(m.group(1).replace(",", ""))
            res.distinct = int(m.group(2).replace(",", ""))
        m = re.search(r"The number of states generated: ([\d,]+)", out)
        if m and not res.states:
            res.states = res.distinct = int(m.group(1).replace(",", ""))
        res.ok = (rc == 0)
        if not res.ok:
            mm = re.search(r"(Invariant \S+ is violated|Action property \S+ is violated|Temporal properties were violated|Error: .*)", out)
            res.violation = mm.group(1) if mm else f"TLC exit {rc}"
        self.states += res.distinct
        self.transitions += res.states
        self.parts.append({"tlc": module, "note": note or "", "mode": "simulate" if simulate else "bfs",
                           "states_generated": res.states, "distinct": res.distinct,
                           "behaviours_emitted": len(res.emitted), "wall_s": round(time.time() - t, 1)})
        if expect_ok and not res.ok:
            raise MachineryError(f"TLC failed on {module}: {res.violation}\n{out[-4000:]}")
        shutil.rmtree(os.path.join(d, "m"), ignore_errors=True)
        return res

    # ------------------------------------------------------------- subprocess
    def warm_macros(self):
        """Start compiling the library's own macro-using modules into a bytecode cache that the drivers of this run share
        (fresh for every run, so that it always reflects the working tree)."""
        env = self._env(os.path.join(self.tmp, "pycm"))
        code = ("import sys; sys.path.insert(0, sys.argv[1]); import mcpyrate.activate, unpythonic.syntax, unpythonic.dialects; "
                "import unpythonic.syntax.testingtools, unpythonic.test.fixtures")
        self._warm = subprocess.Popen([PY, "-c", code, REPO], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=self.tmp, start_new_session=True)

    @staticmethod
    def _env(prefix):
        env = dict(os.environ)
        for k in ("PYTHONDONTWRITEBYTECODE", "PYTHONPATH"):
            env.pop(k, None)
        env["PYTHONHASHSEED"] = "0"
        env["PYTHONPYCACHEPREFIX"] = prefix
        env["VP_REPO"] = REPO
        env["VP_ROOT"] = ROOT
        return env

    def drive(self, driver, payload, *, procs=1, timeout=600, mode="replay", extra=None):
        """Run `drivers/<driver>.py` in `procs` processes over slices of `payload` (list of cases).
        Returns list of result objects (one per case, in order, None when missing) ."""
        n = len(payload)
        procs = max(1, min(procs, n))
        jobs = []
        if self._warm:
            with contextlib.suppress(subprocess.TimeoutExpired):
                self._warm.wait(300)
        for p in range(procs):
            d = tempfile.mkdtemp(prefix="drv-", dir=self.tmp)
            idx = list(range(p, n, procs))
            with open(os.path.join(d, "in.jsonl"), "w") as f:
                for i in idx:
                    f.write(json.dumps(payload[i]) + "\n")
            with open(os.path.join(d, "conf.json"), "w") as f:
                json.dump({"mode": mode, "seed": self.seed, "tier": self.tier, "extra": extra or {}}, f)
            env = self._env(os.path.join(self.tmp, "pycm" if self._warm else f"pyc{p}"))
            cmd = [PY, "-X", "faulthandler", os.path.join(ROOT, "vp", "drvmain.py"), driver, d]
            err = open(os.path.join(d, "err.txt"), "w")
            jobs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env, cwd=d,
                                          start_new_session=True), d, idx, err))
        deadline = time.time() + timeout
        results = [None] * n
        problems = []
        for proc, d, idx, err in jobs:
            try:
                rc = proc.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                rc = "timeout"
            with contextlib.suppress(ProcessLookupError):
                os.killpg(proc.pid, 9)
            proc.wait()
            err.close()
            got = []
            op = os.path.join(d, "out.jsonl")
            if os.path.exists(op):
                with open(op) as f:
                    for line in f:
                        with contextlib.suppress(ValueError):
                            got.append(json.loads(line))
            for k, r in enumerate(got):
                if k < len(idx):
                    results[idx[k]] = r
            if rc != 0 or len(got) < len(idx):
                with open(os.path.join(d, "err.txt"), errors="replace") as f:
                    tail = f.read()[-3000:]
                bad = idx[len(got)] if len(got) < len(idx) else None
                problems.append((rc, bad, tail))
        return results, problems

    def replay(self, driver, cases, *, procs=8, timeout=600, label=None, extra=None, sample=3):
        """Replay spec behaviours; every mismatch becomes a failure."""
        t = time.time()
        if not cases:
            raise MachineryError(f"no behaviours to replay into {driver} ({label})")
        if len(cases) < 64:
            procs = 1 if len(cases) < 8 else min(procs, 4)
        results, problems = self.drive(driver, cases, procs=procs, timeout=timeout, extra=extra)
        nbad = 0
        for c, r in zip(cases, results):
            if r is not None and r.get("fail"):
                nbad += 1
                self.fail(driver, c, r["fail"], r.get("sig", ""), extra)
        for rc, bad, tail in problems:
            case = cases[bad] if bad is not None else None
            self.fail(driver, case, f"the driver process ended abnormally (rc={rc}) while running this behaviour:\n{tail}",
                      f"abnormal:{driver}:{rc}", extra)
        done = sum(1 for r in results if r is not None)
        self.traces += done
        self.distinct_traces += len({json.dumps(c, sort_keys=True) for c in cases})
        for c in cases[:: max(1, len(cases) // sample)][:sample]:
            self.samples.append({"driver": driver, "case": c})
        self.parts.append({"replay": driver, "label": label or "", "behaviours": len(cases), "replayed": done,
                           "mismatches": nbad, "wall_s": round(time.time() - t, 1)})
        return results

    def record(self, driver, cases, *, procs=8, timeout=600, label=None, extra=None):
        """Run a recording driver; returns traces (list). Abnormal ends become failures."""
        t = time.time()
        results, problems = self.drive(driver, cases, procs=procs, timeout=timeout, mode="record", extra=extra)
        for rc, bad, tail in problems:
            case = cases[bad] if bad is not None else None
            self.fail(driver, case, f"the recording driver ended abnormally (rc={rc}):\n{tail}", f"abnormal:{driver}:{rc}", extra)
        out = []
        for c, r in zip(cases, results):
            if r is None:
                continue
            if r.get("fail"):
                self.fail(driver, c, r["fail"], r.get("sig", ""), extra)
                continue
            if "trace" in r:
                out.append(r["trace"])
        self.parts.append({"record": driver, "label": label or "", "runs": len(cases), "traces": len(out),
                           "wall_s": round(time.time() - t, 1)})
        return out

    def validate(self, module, traces, *, consts=None, label=None, timeout=600, per_batch=400, raw_consts=None,
                 describe=None, driver=None, view=None, max_reports=3):
        """Check recorded traces against spec/<module>.tla. The module reads the ndjson file named by
        the environment variable TRACES (one JSON array of events per line), starts one behaviour per
        trace, and prints an '@@' record {t, n} each time it has matched n events of trace t; a trace is
        accepted iff all of its events have been matched."""
        if not traces:
            if self.failures:
                return
            raise MachineryError(f"no traces to validate against {module}")
        for b in range(0, len(traces), per_batch):
            batch = traces[b:b + per_batch]
            p = os.path.join(self.tmp, f"traces-{module}-{b}.ndjson")
            with open(p, "w") as f:
                for tr in batch:
                    f.write(json.dumps(tr) + "\n")
            res = self.tlc(module, consts=consts, raw_consts=raw_consts, init="TraceInit", next="TraceNext",
                           invariants=["TraceEmit"], env={"TRACES": p}, workers="auto", timeout=timeout, note=label,
                           view=view)
            best = [0] * len(batch)
            for r in res.emitted:
                best[r["t"] - 1] = max(best[r["t"] - 1], r["n"])
            k = 0
            for tr, n in zip(batch, best):
                if n < len(tr):
                    k += 1
                    self.fail(driver or module, {"trace": tr}, f"recorded trace is not a behaviour of {module}: first {n} of {len(tr)} "
                              f"events are explainable, event {n + 1} = {json.dumps(tr[n])} is not", f"trace:{module}", None)
        self.traces += len(traces)
        self.distinct_traces += len({json.dumps(t, sort_keys=True) for t in traces})
        self.samples.append({"trace_of": driver or module, "trace": traces[0][:12]})

    # ---------------------------------------------------------------- verdict
    def fail(self, driver, case, detail, sig, extra=None):
        self.failures.append({"property": self.pid, "driver": driver, "case": case, "detail": detail, "sig": sig or "",
                              "extra": extra or {}})

    def selfcheck(self, cond, what):
        if not cond:
            raise MachineryError(f"self-check failed: {what}")

    def finish(self, level="model_checking"):
        kf = load_known(self.pid)
        new = []
        for f in self.failures:
            for k in kf:
                if k["sig"] == f["sig"]:
                    self.known_hits.append(k)
                    break
            else:
                new.append(f)
        seen = set()
        for k in self.known_hits:
            if k["what"] not in seen:
                seen.add(k["what"])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "distinct_traces": self.distinct_traces,
               "samples": self.samples[:6] or [{"note": "no sample"}],
               "parts": self.parts}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if os.environ.get("VP_GROUP"):   # development aid
            groups = {}
            for f in new:
                groups.setdefault(re.sub(r"^(step \d+|then): ", "", f["detail"].split("\n")[0])[:200], []).append(f)
            for g, fs in sorted(groups.items(), key=lambda x: -len(x[1]))[:40]:
                print(f"{len(fs):6d} {g}")
                if g.startswith("unexpected"):
                    print("       ", json.dumps(fs[0]["case"])[:300], fs[0]["detail"][-600:])
            return 1 if new else 0
        if new:
            rd = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            for f in new[:5]:
                h = hashlib.sha1(json.dumps(f, sort_keys=True).encode()).hexdigest()[:10]
                p = os.path.join(rd, f"{self.pid}-{h}.json")
                with open(p, "w") as fh:
                    json.dump(f, fh, indent=1)
                print(f"--- {self.pid}: {f['driver']}: {f['detail'][:1500]}")
                print(f"    case: {json.dumps(f['case'])[:1500]}")
                print(f"VIOLATION property={self.pid} replay={p}")
            print(f"{len(new)} violation(s); replay one with: bin/replay <file>")
            return 1
        print(f"OK property={self.pid} tier={self.tier} states={self.states} behaviours={self.traces} wall={ev['wall_s']}s")
        return 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    r = json.loads(line)
                    if r.get("status") == "known" and r["property"] == pid:
                        out.append(r)
    return out


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    raise MachineryError(f"cannot write {v!r} as a TLC constant")
