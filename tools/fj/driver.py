"""Runs a check: cases of a profile are run, recorded and validated against the specification."""
import hashlib
import itertools
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

from . import env, runner, tlc, values
from .env import VERIF, log
from .gen import Gen, all_paths
from .runner import Run, case_rec, execute


class CheckError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.full = tier == "thorough"
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.progs = {}
        self.known = load_known()
        self.known_seen = {}
        self.violations = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, evaluations=0, distinct_nontrivial=0, rule="", samples=[])
        self.hashes = set()
        self.notes = {}
        self.assumptions = []
        self.level = "model_checking"
        self.timeouts = 0
        self.r = random.Random("%s/%d" % (prop, seed))
        self.cmds = {}

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # Programs ---------------------------------------------------------------
    def prog(self, kind=""):
        with self.lock:
            if kind not in self.progs:
                if kind == "":
                    self.progs[kind] = env.build()
                elif kind == "csvequals":
                    self.progs[kind] = env.build("./cmd/csvequals", name="csvequals")
                elif kind == "yield":
                    self.progs[kind] = self.build_yield()
                elif kind == "lib":
                    self.progs[kind] = self.build_lib()
            return self.progs[kind]

    def build_yield(self):
        d = os.path.join(env.tmp(), "yield")
        os.makedirs(d + "/src", exist_ok=True)
        e = env.goenv()
        e["GOFLAGS"] = ""
        try:
            p = subprocess.run(["go", "build", "-o", d + "/yield", "."], cwd=os.path.join(VERIF, "tools", "yield"), env=e, capture_output=True)
            if p.returncode != 0:
                raise env.BuildError(p.stderr.decode())
            p = subprocess.run([d + "/yield", os.path.join(env.REPO, "flatjsonl"), d + "/src"], capture_output=True)
            if p.returncode != 0:
                raise env.BuildError(p.stderr.decode())
            return env.build(overlay=json.loads(p.stdout), name="flatjsonl-yield")
        except (env.BuildError, ValueError, OSError) as ex:
            log("schedules are not perturbed:", str(ex)[:300])
            self.notes["perturbed_build"] = "failed"
            if "" not in self.progs:
                self.progs[""] = env.build()
            return self.progs[""]

    def build_lib(self):
        try:
            return env.build("./cmd/veriflib", overlay={os.path.join(env.REPO, "cmd", "veriflib", "main.go"): os.path.join(VERIF, "tools", "lib", "main.go.txt")}, name="veriflib")
        except (env.BuildError, OSError) as ex:
            log("the library is not used directly:", str(ex)[:300])
            self.notes["library_build"] = "failed"
            if "" not in self.progs:
                self.progs[""] = env.build()
            return self.progs[""]

    # Cases --------------------------------------------------------------------
    def prepare(self, case, cid):
        case["id"] = cid
        if any("._sequence".startswith(p) for p in case["cfg"]["transpose"]):
            case["cfg"]["seq"] = False  # The prefix ends inside of the name.
        for k, run in enumerate(case["runs"]):
            if run.prog is None and run.fsize is None and not run.prof and not case.get("loop") and self.r.random() < .06:
                run.prog = self.prog("lib")
                use = self.r.choice(["new", "mem", "mem,chunk", "twice", "twice,mem", "par", "par,mem,chunk"])
                if run.form not in ("file", "inline"):
                    use = "new" + self.r.choice(["", ",twice", ",par"])
                run.env = dict(run.env or {}, VERIF_LIB=use)
            if run.prog is None:
                run.prog = self.prog("")
            if run.conc != 1 and "flat" not in run.show:
                run.show = ("flat",) + tuple(run.show)
            if run.prog == self.progs.get("yield") and "yield" in self.progs and not (run.env or {}).get("VERIF_YIELD"):
                run.env = dict(run.env or {}, VERIF_YIELD=str(self.r.randrange(1 << 30)))
            if run.conc != 1 and "GOMAXPROCS" not in (run.env or {}) and self.r.random() < .4:
                run.env = dict(run.env or {}, GOMAXPROCS=str(self.r.choice([1, 2, 3, 8])))
            if k == 0 and run.conc != 1 and len(case["runs"]) > 1:
                raise CheckError("the first run has several workers: " + cid)
            if run.bufsize is None and run.fsize is None and not case.get("loop") and self.r.random() < .35:
                # Lines fill the buffer of the reader many times.
                longest = max((len(runner.line_bytes(l)) for f in run.files or case["files"] for l in f), default=0)
                run.bufsize = longest + 2 + self.r.choice([0, 0, 1, 50])
            if run.verbosity == "0" and run.fsize is None and self.r.random() < .15:
                run.verbosity = self.r.choice(["1", "2", "3"])
            run.timeout = min(run.timeout, 30)
            if run.fsize is None and not run.prof and run.prog != self.progs.get("lib") and self.r.random() < .02:
                run.prof = self.r.choice([("cpu",), ("mem",), ("cpu", "mem")])
            if run.fsize is None and self.r.random() < .06:
                run.stale = self.r.choice([1, 500, 20000])
            if run.fsize is None and self.r.random() < .03:
                run.nop = self.r.choice([("raw",), ("pg",), ("raw", "pg")])
            c = case["cfg"]
            if "info" in run.show and c["include"] and not all_paths(case["files"]):
                run.show = tuple(x for x in run.show if x != "info")  # listed keys stand for the ones that were not found
            if "raw" in run.outs and "csv" not in run.outs and (
                    c["keep"] or c["ptime"] or 0 < c["children"] < 100 or any(l.get("lax") for f in case["files"] for l in f)):
                run.outs = ("csv",) + tuple(run.outs)  # text of containers is taken from there
        return case

    def record(self, case):
        """Runs a case; a run that does not end in time is repeated alone."""
        obs = []
        for run in case["runs"]:
            if self.timeouts >= 6:
                return None
            o = execute(case, run)
            st = str(o["status"])
            if st.startswith("timeout") or st.startswith("exit -9"):
                with self.lock:
                    self.timeouts += 1
                run.timeout = 90
                o = execute(case, run)
            if case.get("schemafull") and "schema" in o:
                o["schemafull"] = True
            obs.append(o)
        return case_rec(case, obs)

    def judge(self, cases):
        """Runs and validates cases; collects violations."""
        cases = list(cases)
        recs = [r for r in runner.parallel(self.record, cases) if r is not None]
        by = {c["id"]: c for c in cases}
        verdicts, st = tlc.validate(recs)
        self.cov["states"] += st[1]
        self.cov["transitions"] += st[0]
        for r in recs:
            self.cov["evaluations"] += len(r["runs"])
            h = hashlib.sha1(json.dumps([r["cfg"], r["files"]], sort_keys=True).encode()).digest()
            n = sum(len(f) for f in r["files"])
            if h not in self.hashes and n >= 1:
                self.hashes.add(h)
            vs = verdicts[r["id"]]
            for v in vs:
                if v["what"] == "KNOWN":
                    self.known_hit(v["why"], by[r["id"]], r, v)
            if any(v["what"] == "REJECT" for v in vs):
                v = [v for v in vs if v["what"] == "REJECT"][0]
                self.violation(v["why"], v, by[r["id"]], r)
            else:
                self.cov["traces_validated_against_impl"] += len(r["runs"])
                if len(self.cov["samples"]) < 3 and 1 <= n <= 12:
                    self.cov["samples"].append(sample(by[r["id"]], r))
        self.cov["distinct_nontrivial"] = len(self.hashes)
        return not self.violations

    def known_hit(self, why, case, r, v):
        f = self.known.get((self.prop, why))
        if f is None:
            # The finding belongs to another property, which reports it.
            if not any(k[1] == why for k in self.known):
                self.violation(why, v, case, r)
            return
        self.known_seen[why] = f

    def violation(self, why, detail, case=None, rec=None, files=None):
        self.violations.append(why)
        k = len(self.violations)
        if k > 5:
            return
        d = os.path.join(VERIF, "evidence", "replay", "%s-%d" % (self.prop, k))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "verdict.json"), "w") as f:
            json.dump({"property": self.prop, "why": why, "detail": detail}, f, indent=1, ensure_ascii=False, default=str)
        if rec is not None:
            with open(os.path.join(d, "case.ndjson"), "w") as f:
                f.write(json.dumps(rec) + "\n")
        if case is not None:
            write_replay(case, d)
        for name, b in (files or {}).items():
            with open(os.path.join(d, name), "wb") as f:
                f.write(b)
        print("VIOLATION property=%s replay=%s" % (self.prop, d), flush=True)
        log("  %s: %s" % (why, json.dumps(detail, ensure_ascii=False, default=str)[:1500]))

    def counts(self, n, t0=None):
        return n

    # Evidence -------------------------------------------------------------------
    def finish(self):
        for why, f in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f), flush=True)
        cov = dict(self.cov)
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        fn = os.path.join(VERIF, "evidence", self.prop + ".json")
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        return 1 if self.violations else 0


def load_known():
    """Known findings: lines 'known: property=<id> why=<reason of the specification> <what fails>'."""
    res = {}
    fn = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            if line.startswith("known:"):
                p, w, rest = line[len("known:"):].split(None, 2)
                res[(p.split("=")[1], w.split("=")[1])] = rest.strip()
    return res


def sample(case, r):
    lines = [[runner.line_bytes(l).decode("utf-8", "replace")[:300] for l in f] for f in case["files"]]
    cfg = {k: v for k, v in runner.config_obj(case["cfg"]).items()}
    return {"lines": lines, "config": cfg, "flags": runner.flags_of(case["cfg"], case["runs"][0]), "runs": [x["name"] for x in r["runs"]],
            "rows": [x["csv"]["rows"][:3] for x in r["runs"] if "csv" in x][:1]}


def write_replay(case, d):
    """Writes inputs, configuration and commands of a case."""
    out = []
    for i, run in enumerate(case["runs"]):
        rd = os.path.join(d, "run%d" % i)
        os.makedirs(rd)
        try:
            a, _ = runner.command(case, run, rd)
        except Exception as e:  # noqa
            out.append("# %s" % e)
            continue
        a[0] = "./flatjsonl"
        import shlex
        e = " ".join("%s=%s" % kv for kv in (run.env or {}).items())
        out.append("cd %s && mkdir -p out && %s %s" % (rd, e, " ".join(shlex.quote(x) for x in a)))
    with open(os.path.join(d, "commands.sh"), "w") as f:
        f.write("# flatjsonl is built from /repo; variables VERIF_YIELD only perturb the schedule of the instrumented build\n" + "\n".join(out) + "\n")


def numbered(ctx, cases, tag):
    for i, c in enumerate(cases):
        yield ctx.prepare(c, "%s-%s-%d" % (ctx.prop, tag, i))


def batches(it, n):
    while True:
        b = list(itertools.islice(it, n))
        if not b:
            return
        yield b


def gen(ctx, tag):
    return Gen("%s/%s/%d" % (ctx.prop, tag, ctx.seed))
