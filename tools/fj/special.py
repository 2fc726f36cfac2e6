"""Checks with procedures of their own: faults (C18), comparison of tables (C29), long inputs (C26), rejected configurations (C30)."""
import copy
import csv
import gzip
import io
import os
import re
import shutil
import subprocess
import tempfile

from . import decode, props, runner, tlc
from .env import tmp
from .gen import ODD, PLAIN, STRS
from .props import R, one
from .runner import new_cfg
from .values import A, N, O, S


def trace(ctx, recs, module, files=None, chunk=4000):
    """Validates recorded outcomes with a trace specification."""
    for b in [recs[i:i + chunk] for i in range(0, len(recs), chunk)]:
        verdicts, st = tlc.validate([{k: v for k, v in r.items() if k not in ("show", "files")} for r in b], module=module + ".tla", cfg=module + ".cfg")
        ctx.cov["states"] += st[1]
        ctx.cov["transitions"] += st[0]
        for r in b:
            ctx.cov["evaluations"] += 1
            vs = verdicts[r["id"]]
            bad = [v for v in vs if v["what"] == "REJECT"]
            if bad:
                ctx.violation(bad[0]["why"], dict(bad[0], case=r.get("show")), files=r.get("files"))
            else:
                ctx.cov["traces_validated_against_impl"] += 1
                ctx.hashes.add(r["id"] if "show" not in r else repr(r["show"]))
                if len(ctx.cov["samples"]) < 6 and r.get("show") and ctx.r.random() < .05:
                    ctx.cov["samples"].append(r["show"])
        ctx.cov["distinct_nontrivial"] = len(ctx.hashes)
        if ctx.violations:
            return False
    return True


def model(ctx, module, cfg=None, env=None, workers=4, timeout=600):
    """Checks a bounded model; a violation there is an error of the specification, not of the program."""
    rc, out = tlc.tlc(module + ".tla", (cfg or module) + ".cfg", env, workers=workers, timeout=timeout)
    if rc != 0:
        raise tlc.TLCError("model %s: TLC ended with %d\n%s" % (cfg or module, rc, tlc.errors(out)))
    gen, dist = tlc.stats(out)
    ctx.cov["states"] += dist
    ctx.cov["transitions"] += gen
    ctx.notes.setdefault("models", {})[cfg or module] = dist
    return tlc.said(out)


def checked(ctx, module, consts, props, invs, bad=False, spec="SPECIFICATION Spec", workers=4, timeout=600):
    """Checks a model with the given constants; with bad, the model has a defect that its properties have to reveal."""
    cfg = os.path.join(tmp(), "m%d.cfg" % ctx.r.randrange(1 << 60))
    with open(cfg, "w") as f:
        f.write(spec + "\nCONSTANTS\n" + "".join("  %s %s\n" % (k, v) for k, v in consts.items()))
        f.write("".join("INVARIANT %s\n" % i for i in invs) + "".join("PROPERTY %s\n" % x for x in props) + "CHECK_DEADLOCK FALSE\n")
    rc, out = tlc.tlc(module + ".tla", cfg, None, workers=workers, timeout=timeout)
    gen, dist = tlc.stats(out)
    name = "%s(%s)" % (module, ", ".join("%s %s" % (k, v) for k, v in consts.items()))
    if bad != ("is violated" in out or "was violated" in out) or (rc != 0 and not bad):
        raise tlc.TLCError("model %s: TLC ended with %d\n%s" % (name, rc, tlc.errors(out)))
    ctx.cov["states"] += dist
    ctx.cov["transitions"] += gen
    ctx.notes.setdefault("models", {})[name] = "defect revealed" if bad else dist
    return tlc.said(out)


def pipeline_models(ctx):
    inv = ["InOrder", "NoGap", "OwnLine", "OnePlace", "CleanPool", "Complete", "Honest"]

    def m(lines, workers, fails="{}", panics="{}", variant="ok"):
        checked(ctx, "MCPipeline", {"Lines": "<- " + lines, "Workers =": workers, "Fails =": fails, "Panics =": panics, "Variant =": '"%s"' % variant},
                ["Ends"], inv, bad=variant != "ok")
    m("L3", 2)
    m("L21", 2, "{2}")
    if ctx.full:
        for a in (("L4", 2), ("L22", 2), ("L3", 3), ("L121", 3), ("L4", 2, "{2}"), ("L22", 2, "{}", "{1}"), ("L3", 3, "{1, 3}")):
            m(*a)
        for a in (("L3", 2, "{}", "{}", "put first"), ("L3", 2, "{}", "{}", "one row"), ("L3", 2, "{2}", "{}", "leak")):
            m(*a)


def keyscan_models(ctx):
    def m(work, limit, variant="ok"):
        checked(ctx, "MCKeyScan", {"Work": "<- " + work, "Limit =": limit, "Variant =": '"%s"' % variant}, ["Ends"], ["Once", "Collapse", "Confluent"], bad=variant != "ok")
    m("Mixed", 3)
    m("Mixed", 2)
    if ctx.full:
        for a in (("Same", 1), ("Long3", 3), ("Long3", 2), ("Same", 1, "stale"), ("Same", 1, "no second look")):
            m(*a)


def throttle_models(ctx):
    for v in ("ok",) + (("wait", "skip") if ctx.full else ()):
        checked(ctx, "Throttle", {"Lines =": 4, "Variant =": '"%s"' % v}, ["Ends"], ["NothingLost"], bad=v != "ok")


def loop_models(ctx):
    def m(size, limit, chunk, variant="ok"):
        checked(ctx, "Loop", {"Size =": size, "Limit =": limit, "Chunk =": chunk, "Variant =": '"%s"' % variant}, ["Ends"], ["Repeated", "Enough", "Whole"], bad=variant != "ok")
    m(3, 7, 3)
    m(0, 2, 1)
    if ctx.full:
        for a in ((4, 9, 2), (5, 10, 5), (1, 4, 1), (3, 1, 2), (3, 7, 2, "no rewind"), (3, 7, 2, "count kept"), (0, 2, 1, "empty")):
            m(*a)
    return True


def orders(ctx):
    """Replays the finishing orders of module Orders: a line takes the longer to parse the later it has to finish."""
    pipeline_models(ctx)
    todo = []
    plans = [("L6", 3), ("L42", 2)] if not ctx.full else [("L6", 3), ("L6", 4), ("L42", 2), ("L33", 3), ("L7", 3), ("L7", 2), ("L5", 5)]
    for files, k in plans:
        todo += checked(ctx, "MCOrders", {"Files": "<- " + files, "K =": k}, [], [], spec="INIT Init\nNEXT Next")
    ctx.notes["finishing_orders"] = len(todo)
    g = driver_gen(ctx, "orders")
    pad = {}

    def do(job):
        t, cols, prog, out = job
        n = sum(t["files"])
        d = tempfile.mkdtemp(prefix="o", dir=tmp())
        try:
            ins, i = [], 0
            for fi, m in enumerate(t["files"]):
                ins.append(os.path.join(d, "in%d.jsonl" % fi))
                with open(ins[-1], "w") as f:
                    for _ in range(m):
                        i += 1
                        rank = t["order"].index(i) - min(t["order"].index(j) for j in range(sum(t["files"][:fi]) + 1, sum(t["files"][:fi]) + m + 1))
                        if rank not in pad:
                            pad[rank] = ",".join(["[1,2,{}]"] * (4000 * rank))
                        f.write("{" + ",".join(['"n":%d' % i] + ['"k%d":%d' % (c, i) for c in cols[i - 1]] + ['"w":[%s]' % pad[rank]]) + "}\n")
            fn = os.path.join(d, "o.csv" if out == "csv" else "o.raw")
            a = [prog, "-verbosity", "0", "-concurrency", str(t["k"]), "-config", '{"includeKeys":[".n",".k0",".k1",".k2"]}', "-raw-delim", ",", "-" + out, fn] + ins
            env = dict(os.environ, VERIF_YIELD=str(job[1].__repr__().__hash__() % 1000 + 1))
            try:
                p = subprocess.run(a, capture_output=True, timeout=120, env=env)
                st = "ok" if p.returncode == 0 else "exit %d" % p.returncode
            except subprocess.TimeoutExpired:
                return {"status": "timeout", "out": []}
            rows = [x.split(",") for x in open(fn).read().splitlines()][1 if out == "csv" else 0:] if st == "ok" else []
            try:
                res = [{"seq": int(r[0]), "has": sorted({int(x) for x in r if x != ""}), "cols": [j - 1 for j in range(1, 4) if r[j] != ""]} for r in rows]
            except (ValueError, IndexError):
                st, res = "unreadable output", []
            return {"status": st, "out": res}
        finally:
            shutil.rmtree(d, ignore_errors=True)

    jobs = []
    for t in todo:
        cols = [sorted(g.r.sample(range(3), g.r.randrange(4))) for _ in range(sum(t["files"]))]
        jobs.append((t, cols, ctx.prog(g.pick(["", "", "yield"])), g.pick(["csv", "csv", "raw"])))
    recs = [dict(o, id="o%d" % i, n=sum(j[0]["files"]), lines=j[1], show={"order": j[0], "columns": j[1], "output": j[3]})
            for i, (j, o) in enumerate(zip(jobs, runner.parallel(do, jobs, 4)))]
    return trace(ctx, recs, "OrdersTrace")


# --- C18 ---------------------------------------------------------------------
EXPECTED = re.compile(r"^(scanning keys\.\.\.|flattening data\.\.\.|lines: \d+, keys: \d+|waiting pending.*|preparing keys.*|)$")


def snapshot(out):
    """Decoded contents of the output files."""
    res = {}
    for f in sorted(os.listdir(out)):
        fn = os.path.join(out, f)
        try:
            if f.endswith(".sqlite"):
                res[f] = decode.sqlite_output(fn)
            elif os.path.isfile(fn):
                res[f] = decode.read(fn)
            else:
                res[f] = "other"
        except (decode.Bad, OSError) as e:
            res[f] = "unreadable: %s" % e
    return res


class Sut:
    """Runs a case with faults."""

    def __init__(self, ctx, case, run):
        self.ctx, self.case, self.run = ctx, case, run
        self.ref, self.sizes, st, msg = None, None, 0, 0
        o = self.go()
        self.ref_status = o
        self.n = sum(len(f) for f in case["files"])

    def go(self, fsize=None, before=None, args=None, bufsize=None, timeout=60, lib=None):
        d = tempfile.mkdtemp(prefix="f", dir=tmp())
        try:
            run = copy.copy(self.run)
            run.bufsize = bufsize
            a, _ = runner.command(self.case, run, d)
            if before is not None:
                before(d, a)
            if args is not None:
                a = args(a, d)
            e = {"PATH": os.environ.get("PATH", ""), "HOME": d, "TZ": "UTC"}
            e.update(run.env or {})
            if lib:
                e["VERIF_LIB"] = lib
            try:
                p = subprocess.run(a, cwd=d, env=e, capture_output=True, timeout=timeout, preexec_fn=runner.limit(fsize) if fsize is not None else None)
            except subprocess.TimeoutExpired:
                return {"status": -9, "same": [], "msg": 0, "err": "timeout"}
            err = p.stderr.decode("utf-8", "replace")
            msg = len([x for x in err.splitlines() if not EXPECTED.match(x)])
            out = os.path.join(d, "out")
            snap = snapshot(out)
            if self.ref is None:
                self.ref = snap
                self.sizes = {f: os.path.getsize(os.path.join(out, f)) for f in os.listdir(out)}
            same = [f in snap and snap[f] == self.ref[f] for f in sorted(self.ref)]
            return {"status": p.returncode, "same": same, "msg": msg, "err": err[-400:]}
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def plan(self, cap=None, nofile=False, ins=None, cfgbad=False, only=None):
        outs = [{"recs": [0] * self.n + [0, self.sizes[f]], "bufsize": 0, "cap": cap if cap is not None and (only is None or f in only) else -1,
                 "nofile": nofile and (only is None or f in only)} for f in sorted(self.sizes)]
        for o, f in zip(outs, sorted(self.sizes)):
            o["recs"] = [self.sizes[f]] + [0] * sum(i["n"] for i in (ins or [{"n": 1}]))
        return {"cfgbad": cfgbad, "ins": ins or [{"n": 1, "bad": -1}], "outs": outs}


def fault_bases(ctx, g):
    small = [[{"pre": "", "v": O(("n", N(i)), ("s", S("line %d" % i)), ("t", A(N(i), S("x"))))} for i in range(4)]]
    kid = new_cfg(transpose={".t": "kid"})
    singles = [("csv", ""), ("raw", ""), ("pg", ""), ("sqlite", ""), ("csv", "gz"), ("csv", "zst"), ("raw", "gz"), ("raw", "zst"), ("pg", "gz"), ("pg", "zst")]
    for o, c in singles:
        yield small, g.pick([new_cfg(), new_cfg(include=[".n", ".s"])]), (o,), c, 2
        yield small, kid, (o,), c, 3
    for outs in (("csv", "raw"), ("csv", "sqlite"), ("raw", "pg"), ("csv", "raw", "sqlite", "pg")):
        yield small, g.pick([new_cfg(), kid]), outs, "", 3
    yield small, kid, ("csv", "raw"), "gz", 3


def big_bases(ctx, g):
    for o, c in (("csv", ""), ("raw", ""), ("pg", ""), ("sqlite", ""), ("csv", "gz"), ("pg", "zst"), ("raw", "zst")):
        ls = [{"pre": "", "v": O(("n", N(i)), ("s", S("".join(g.pick("abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(g.r.randrange(5, 90))))),
                                 ("t", A(*[N(g.r.randrange(10 ** 6)) for _ in range(g.r.randrange(0, 5))])))} for i in range(3000)]
        yield [ls], g.pick([new_cfg(), new_cfg(transpose={".t": "kid"})]), (o,), c


def c18(ctx, budget):
    g = driver_gen(ctx, "q")
    model(ctx, "MCSession")
    ctx.level = "fault_enumeration"
    ctx.cov["rule"] = ("a case is a run with one fault plan: output size limit at a byte position, full device, file that can not be created, "
                       "damaged, truncated, missing or over-long input; distinct by plan and input; all have at least one line of input")
    k = 0
    while True:
        if not c18_round(ctx, g, k):
            return
        k += 1
        if not ctx.full or ctx.left(budget) < 150:
            return


def driver_gen(ctx, tag):
    from .driver import gen
    return gen(ctx, tag)


def c18_round(ctx, g, k):
    jobs = []

    def add(what, sut, plan, maybe=False, **kw):
        jobs.append((what, sut, plan, maybe, kw))

    every = 1 if ctx.full else 9
    normal = []
    # Output size limits at byte positions.
    for files, cfg, outs, comp, den in fault_bases(ctx, g):
        case = one(files, cfg, [])
        sut = Sut(ctx, case, R(prog=ctx.prog(), outs=outs, ocomp=comp, conc=g.pick([1, 2, 4])))
        normal.append(sut)
        top = max(sut.sizes.values())
        if "sqlite" in outs:
            ks = sorted(set(list(range(0, top + 1, 4096)) + [top - 1, top, top + 1, top + 4096] + [g.r.randrange(top) for _ in range(4)]))
        else:
            ks = [x for x in range(0, top) if (x + k) % (every * den) == 0]
            ks = sorted(set(ks + [0, 1, top - 2, top - 1, top, top + 1] + list(sut.sizes.values()) + [s - 1 for s in sut.sizes.values()]))
        for n in ks:
            if n < 0:
                continue
            add("files limited to %d bytes" % n, sut, sut.plan(cap=n), fsize=n)
    for files, cfg, outs, comp in big_bases(ctx, g):
        case = one(files, cfg, [])
        sut = Sut(ctx, case, R(prog=ctx.prog(g.pick(["", "yield"])), outs=outs, ocomp=comp, conc=g.pick([1, 3, 8])))
        normal.append(sut)
        top = max(sut.sizes.values())
        for n in sorted(set([4095, 4096, 4097, top // 2, top - 1, top] + [g.r.randrange(top) for _ in range(10 if ctx.full else 3)])):
            add("files limited to %d of %d bytes" % (n, top), sut, sut.plan(cap=n), fsize=n)
    # Outputs that can not be created or written.
    for outs, comp in ((("csv",), ""), (("raw",), ""), (("pg",), ""), (("sqlite",), ""), (("csv",), "gz"), (("raw",), "zst"), (("pg",), "gz"),
                       (("csv", "raw", "sqlite", "pg"), "")):
        files = [[{"pre": "", "v": O(("n", N(i)), ("t", A(N(i))))} for i in range(g.pick([1, 5, 400]))]]
        cfg = g.pick([new_cfg(), new_cfg(transpose={".t": "kid"})])
        sut = Sut(ctx, one(files, cfg, []), R(prog=ctx.prog(), outs=outs, ocomp=comp, conc=g.pick([1, 4])))
        normal.append(sut)
        for f in sorted(sut.sizes):
            if f.endswith(".sqlite"):
                def garbage(d, a, f=f):
                    with open(os.path.join(d, "out", f), "wb") as h:
                        h.write(b"this is not a database" * 100)
                add(f + " is not a database", sut, sut.plan(nofile=True, only=[f]), before=garbage)
            else:
                def full(d, a, f=f):
                    os.symlink("/dev/full", os.path.join(d, "out", f))
                add(f + " is a full device", sut, sut.plan(cap=0, only=[f]), before=full)

            def isdir(d, a, f=f):
                os.mkdir(os.path.join(d, "out", f))
            add(f + " is a directory", sut, sut.plan(nofile=True, only=[f]), before=isdir)

            def nodir(d, a, f=f):
                os.symlink("missing/" + f, os.path.join(d, "out", f))
            add(f + " can not be created", sut, sut.plan(nofile=True, only=[f]), before=nodir)
    # Inputs.
    for rnd in range(2 if not ctx.full else 4):
        nf = g.pick([1, 2, 3])
        files = [[{"pre": "", "v": O(("n", N(i * 100 + j)), ("s", S("line %d" % j)))} for j in range(g.pick([1, 3, 12]))] for i in range(nf)]
        for icomp in ("", "gz", "zst"):
            for cfg in (new_cfg(), new_cfg(include=[".n"])):
                sut = Sut(ctx, one(files, cfg, []), R(prog=ctx.prog(), outs=g.pick([("csv",), ("raw",), ("sqlite",), ("pg",)]), icomp=icomp, conc=g.pick([1, 4])))
                normal.append(sut)
                ext = {"": ".jsonl", "gz": ".jsonl.gz", "zst": ".jsonl.zst"}[icomp]
                for i in range(nf):
                    name = "in%d%s" % (i, ext)
                    ins = [{"n": len(f), "bad": -1} for f in files]
                    ins[i] = dict(ins[i], bad=0)
                    mid = [dict(x) for x in ins]
                    mid[i]["bad"] = 1
                    add(name + " is missing", sut, sut.plan(ins=ins), before=lambda d, a, name=name: os.unlink(os.path.join(d, name)))

                    def adir(d, a, name=name):
                        os.unlink(os.path.join(d, name))
                        os.mkdir(os.path.join(d, name))
                    add(name + " is a directory", sut, sut.plan(ins=ins), before=adir)
                    if not icomp:
                        continue
                    probe = tempfile.mkdtemp(dir=tmp())
                    runner.write_inputs(sut.case, sut.run, probe)
                    with open(os.path.join(probe, name), "rb") as h:
                        whole = h.read()
                    shutil.rmtree(probe)
                    cuts = range(1, len(whole)) if ctx.full else sorted(set([1, 2, 5, 10, 11, len(whole) - 1, len(whole) - 4, len(whole) - 8] +
                                                                            [g.r.randrange(1, len(whole)) for _ in range(6)]))
                    for n in cuts:
                        if not 0 < n < len(whole):
                            continue
                        add("%s is cut to %d of %d bytes" % (name, n, len(whole)), sut, sut.plan(ins=mid), False,
                            before=put(name, whole[:n]))
                    flips = range(len(whole)) if ctx.full else sorted(g.r.sample(range(len(whole)), min(12, len(whole))))
                    for n in flips:
                        b = bytearray(whole)
                        b[n] ^= 1 << g.r.randrange(8)
                        strict = icomp == "gz" and (n >= 10 or n < 3) and undecodable(bytes(b))
                        add("byte %d of %s is changed" % (n, name), sut, sut.plan(ins=mid), not strict, before=put(name, bytes(b)))
    # Readers that fail, used through the library.
    lib = ctx.prog("lib")
    for rnd in range((3 if not ctx.full else 8) if lib != ctx.prog() else 0):
        nf = g.pick([1, 2, 3])
        files = [[{"pre": "", "v": O(("n", N(i * 100 + j)), ("s", S("line %d" % j)))} for j in range(g.pick([1, 3, 12, 300]))] for i in range(nf)]
        for icomp in ("", "gz", "zst"):
            for cfg in (new_cfg(), new_cfg(include=[".n"])):
                sut = Sut(ctx, one(files, cfg, []), R(prog=lib, env={"VERIF_LIB": "mem"}, outs=g.pick([("csv",), ("raw",), ("sqlite",), ("pg",)]), icomp=icomp, conc=g.pick([1, 4])))
                normal.append(sut)
                fi = g.r.randrange(nf)
                probe = tempfile.mkdtemp(dir=tmp())
                runner.write_inputs(sut.case, sut.run, probe)
                top = os.path.getsize(os.path.join(probe, "in%d%s" % (fi, {"": ".jsonl", "gz": ".jsonl.gz", "zst": ".jsonl.zst"}[icomp])))
                shutil.rmtree(probe)
                ins = [{"n": len(f), "bad": -1} for f in files]
                ins[fi]["bad"] = 1
                for n in sorted(set([0, 1, top - 1, top] + [g.r.randrange(top) for _ in range(2 if not ctx.full else 12)])):
                    kind = g.pick(["fail", "late"]) if not cfg["include"] else "fail"
                    add("reading of input %d fails after %d of %d bytes (%s)" % (fi, n, top, kind), sut, sut.plan(ins=ins), lib="mem,in=%d,%s=%d" % (fi, kind, n))
    # Over-long lines.
    for rnd in range(6 if not ctx.full else 12):
        nf = g.pick([1, 2])
        files = [[{"pre": "", "v": O(("n", N(j)), ("s", S("s" * g.r.randrange(5))))} for j in range(g.pick([1, 4, 150]))] for i in range(nf)]
        fi = g.r.randrange(nf)
        li = g.pick([0, len(files[fi]) - 1, g.r.randrange(len(files[fi]))])
        size = g.pick([200, 1000, 5000, 70000])
        files[fi][li] = {"pre": "", "v": O(("n", N(li)), ("s", S("y" * size)))}
        length = len(runner.line_bytes(files[fi][li]))
        cfg = g.pick([new_cfg(), new_cfg(include=[".n"]), new_cfg(include=[".s", ".n"])])
        sut = Sut(ctx, one(files, cfg, []), R(prog=ctx.prog(), outs=g.pick([("csv",), ("csv", "sqlite"), ("pg",), ("raw",)]), icomp=g.pick(["", "", "gz", "zst"]), conc=g.pick([1, 4])))
        normal.append(sut)
        ins = [{"n": len(f), "bad": -1} for f in files]
        ins[fi]["bad"] = li + 1
        fine = [{"n": len(f), "bad": -1} for f in files]
        for n in (100, length - 1, length):
            add("line %d of file %d has %d bytes, -buf-size %d" % (li + 1, fi, length, n), sut, sut.plan(ins=ins), bufsize=n)
        for n in (length + 2, 2 * length):
            add("line %d of file %d has %d bytes, -buf-size %d" % (li + 1, fi, length, n), sut, sut.plan(ins=fine), bufsize=n)

    def do(job):
        what, sut, plan, maybe, kw = job
        o = sut.go(**kw)
        if o["status"] == -9 and o["err"] == "timeout":
            o = sut.go(timeout=150, **kw)
        return o

    recs = []
    for i, sut in enumerate(normal):
        o = sut.ref_status
        recs.append({"id": "ref%d-%d" % (k, i), "plan": sut.plan(), "maybe": False, "obs": o, "show": {"fault": "none", "flags": flags(sut)}})
    todo = [j for j in jobs]
    # Runs share the run object of a case, the buffer size is passed per run.
    for i, (job, o) in enumerate(zip(todo, runner.parallel(do, todo))):
        what, sut, plan, maybe, kw = job
        recs.append({"id": "f%d-%d" % (k, i), "plan": plan, "maybe": maybe, "obs": o, "show": {"fault": what, "flags": flags(sut), "status": o["status"],
                     "lines": [len(f) for f in sut.case["files"]]}, "files": {"stderr.txt": o["err"].encode(), **inputs(sut)}})
    return trace(ctx, recs, "SessionTrace")


def flags(sut):
    return " ".join(runner.flags_of(sut.case["cfg"], sut.run)) + " outputs " + ",".join(sorted(sut.sizes)) + " config " + repr(runner.config_obj(sut.case["cfg"]))


def inputs(sut):
    return {"in%d.jsonl" % i: b"\n".join(runner.line_bytes(l) for l in f)[:200000] + b"\n" for i, f in enumerate(sut.case["files"])}


def put(name, b):
    def f(d, a):
        with open(os.path.join(d, name), "wb") as h:
            h.write(b)
    return f


def undecodable(b):
    try:
        gzip.decompress(b)
        return False
    except Exception:  # noqa
        return True


# --- C29 ---------------------------------------------------------------------
def csv_bytes(t, g=None, form=0):
    f = io.StringIO()
    w = csv.writer(f, lineterminator="\n" if form != 2 else "\r\n", quoting=csv.QUOTE_ALL if form == 1 else csv.QUOTE_MINIMAL)
    w.writerow(t["head"])
    for r in t["rows"]:
        w.writerow(r)
    s = f.getvalue()
    if form == 3 and s.endswith("\n") and (t["rows"] or len(t["head"]) > 0):
        s = s[:-1]
    return s.encode("utf-8")


def rand_pair(g):
    k = g.r.randrange(2, 7)
    head = g.names(k, (PLAIN, ODD), fold=False)
    big = g.chance(.2)
    cell = lambda: g.pick([x for x in STRS if "\r" not in x] if g.chance(.5) else ["", "x", "y", "1"])
    rows = [[cell() for _ in head] for _ in range(g.r.randrange(100, 400) if big else g.r.randrange(0, 8))]
    if g.chance(.3):
        rows = [list(g.pick(rows[:3])) for _ in rows]
    a = {"head": head, "rows": rows}
    perm = list(range(k))
    if g.chance(.6):
        g.r.shuffle(perm)
    b = {"head": [head[i] for i in perm], "rows": [[r[i] for i in perm] for r in rows]}
    for _ in range(g.pick([0, 1, 1, 1, 2])):
        n = len(b["rows"])
        e = g.r.randrange(12)
        i = g.pick([0, n - 1, g.r.randrange(n)]) if n else 0
        j = g.r.randrange(k)
        if e in (0, 1, 2) and n:
            old = b["rows"][i][j]
            b["rows"][i][j] = g.pick([cell(), old + " ", old + "\n", old[:-1], "", old.upper(), old + "x"])
        elif e == 3 and n:
            del b["rows"][i]
        elif e == 4 and n:
            b["rows"].insert(i, list(b["rows"][i]))
        elif e == 5:
            b["rows"].append([cell() for _ in head])
        elif e == 6 and n > 1:
            m = g.r.randrange(n)
            b["rows"][i], b["rows"][m] = b["rows"][m], b["rows"][i]
        elif e == 7:
            new = g.pick([b["head"][j] + "2", b["head"][j].upper(), b["head"][j] + " "])
            if new not in b["head"]:
                b["head"][j] = new
        elif e == 8 and k > 2 and len(b["head"]) == k:
            b["head"] = b["head"][:j] + b["head"][j + 1:]
            b["rows"] = [r[:j] + r[j + 1:] for r in b["rows"]]
            break
        elif e == 9:
            b["head"] = b["head"] + ["extra"]
            b["rows"] = [r + [g.pick(["", "q"])] for r in b["rows"]]
            break
        elif e == 10:  # cells in the order of the other file
            b["rows"] = [[r[perm.index(i)] if i in perm else "" for i in range(k)] for r in b["rows"]]
        elif e == 11:  # columns change places, cells do not
            m = g.r.randrange(k)
            b["head"][j], b["head"][m] = b["head"][m], b["head"][j]
    if g.chance(.5):
        a, b = b, a
    return a, b


def c29(ctx, budget):
    g = driver_gen(ctx, "q")
    prog = ctx.prog("csvequals")
    ctx.cov["rule"] = "a case is a pair of tables; pairs of small tables are enumerated by the model, others are made by edits of one table"
    pairs = [(x["a"], x["b"]) for x in model(ctx, "MCCsvEq", env={"EXPORT": "1"})]
    ctx.notes["enumerated_cases"] = len(pairs)
    n = 0
    first = True
    while first or (ctx.full and ctx.left(budget) > 60):
        todo = (pairs if first else []) + [rand_pair(g) for _ in range(1500 if not ctx.full else 4000)]
        first = False

        def do(p):
            a, b = p[1]
            d = tempfile.mkdtemp(prefix="q", dir=tmp())
            try:
                fa, fb = os.path.join(d, "1.csv"), os.path.join(d, "2.csv")
                forms = p[2]
                for fn, t, fo in ((fa, a, forms[0]), (fb, b, forms[1])):
                    with open(fn, "wb") as h:
                        h.write(csv_bytes(t, None, fo))
                try:
                    q = subprocess.run([prog, fa, fb], capture_output=True, timeout=60)
                    return q.returncode
                except subprocess.TimeoutExpired:
                    return -9
            finally:
                shutil.rmtree(d, ignore_errors=True)

        jobs = [(i, p, (g.r.randrange(4), g.r.randrange(4)) if i >= len(pairs) or n else (0, 0)) for i, p in enumerate(todo)]
        recs = []
        for (i, (a, b), fo), rc in zip(jobs, runner.parallel(do, jobs)):
            recs.append({"id": "p%d-%d" % (n, i), "a": a, "b": b, "status": rc, "show": {"a": a, "b": b, "status": rc} if len(a["rows"]) < 9 else {"rows": len(a["rows"]), "i": i, "n": n},
                         "files": {"1.csv": csv_bytes(a, None, fo[0]), "2.csv": csv_bytes(b, None, fo[1])}})
        n += 1
        if not trace(ctx, recs, "CsvEqTrace"):
            return


# --- Long inputs (C01, C14, C15, C16, C26, C28) ------------------------------
def shape(n, width=2, per=1, cw=1, outs=("csv", "sqlite", "pg", "raw"), sqlcols=500, conc=0, cuts=1, prog="", env=None, seq=True, mem=None, arr=False):
    return dict(arr=arr, n=n, width=width, per=per, cw=cw, outs=outs, sqlcols=sqlcols, conc=conc, cuts=cuts, prog=prog, env=env, seq=seq, mem=mem)


def long_lines(s, lo, hi):
    """Lines of numbers lo..hi as described in module Long."""
    for i in range(lo, hi):
        m = ['"c%d":%d' % (j, i + j) for j in range(s["width"])] if not s["arr"] else ['"c":[%s]' % ",".join(str(i + j) for j in range(s["width"]))]
        if s["per"]:
            m.append('"t":[%s]' % ",".join("{%s}" % ",".join('"x%d":%d' % (j, 10 * i + k + j) for j in range(s["cw"])) for k in range(s["per"])))
        yield "{" + ",".join(m) + "}\n"


def long_rule(name):
    if name in ("._sequence", "_seq_id"):
        return 1, 0, 0
    if name == "._index":
        return 0, 1, 0
    if name[:4] == ".c.[" and name[4:-1].isdigit():
        return 1, 0, int(name[4:-1])
    if name[:2] == ".c" and name[2:].isdigit():
        return 1, 0, int(name[2:])
    if name[:2] == ".x" and name[2:].isdigit():
        return 10, 1, int(name[2:])
    return 0, 0, -1  # no such column


def long_tables(ctx, shapes):
    """Runs long inputs and validates all columns of all tables."""
    recs = []
    for si, s in enumerate(shapes):
        d = tempfile.mkdtemp(prefix="l", dir=tmp())
        try:
            ins = []
            n = s["n"]
            for i in range(s["cuts"]):
                fn = os.path.join(d, "in%d.jsonl" % i)
                with open(fn, "w") as f:
                    f.writelines(long_lines(s, n * i // s["cuts"] + 1, n * (i + 1) // s["cuts"] + 1))
                ins.append(fn)
            a = [ctx.prog(s["prog"]), "-verbosity", "0", "-sql-max-cols", str(s["sqlcols"]), "-raw-delim", "|", "-children-limit", "0"]
            a += ["-add-sequence"] if s["seq"] else []
            a += ["-concurrency", str(s["conc"])] if s["conc"] else []
            a += ["-mem-limit", str(s["mem"])] if s["mem"] else []
            a += ["-config", '{"transpose":{".t":"kid"}}'] if s["per"] else []
            for o, fn in (("csv", "c.csv"), ("sqlite", "s.sqlite"), ("pg-dump", "p.sql"), ("raw", "r.raw")):
                if o.split("-")[0] in s["outs"]:
                    a += ["-" + o, os.path.join(d, fn)]
            a += ins
            env = dict(os.environ, **(s["env"] or {}))
            if s["prog"] == "yield":
                env.setdefault("VERIF_YIELD", str(ctx.r.randrange(1 << 30)))
            show = {k: v for k, v in s.items() if v is not None}
            try:
                p = subprocess.run(a, capture_output=True, timeout=300, env=env)
            except subprocess.TimeoutExpired:
                ctx.violation("timeout", {"args": a[1:], "shape": show})
                return False
            if p.returncode != 0:
                ctx.violation("status", {"args": a[1:], "stderr": p.stderr[-500:].decode("utf-8", "replace"), "shape": show})
                return False
            ctx.cov["evaluations"] += 1

            def table(what, child, limit, parts):
                per, width = (s["per"], s["cw"]) if child else (1, s["width"])
                base = "%d %s %s" % (si, what, "child" if child else "main")
                recs.append({"id": base, "why": "long-columns", "child": child, "seq": s["seq"], "arr": s["arr"], "width": width, "limit": limit,
                             "tables": [h for h, _ in parts], "show": dict(show, tables=base)})
                for pi, (h, rows) in enumerate(parts):
                    for j, name in enumerate(h):
                        m, dd, c = long_rule(name)
                        recs.append({"id": "%s %d.%d %s" % (base, pi, j, name), "why": "long-cells", "lines": n, "per": per, "m": m, "d": dd, "c": c,
                                     "cells": [r[j] for r in rows], "show": dict(show, column=name, table=base)})

            def sql(what, tabs, cell):
                for child, name in ((False, "flatjsonl"), (True, "flatjsonl_kid")):
                    if child and not s["per"]:
                        continue
                    parts, k = [], 1
                    while name + ("_part%d" % k if k > 1 else "") in tabs:
                        t = tabs.pop(name + ("_part%d" % k if k > 1 else ""))
                        parts.append(([x[0] for x in t["cols"]], [[cell(x) for x in r] for r in t["rows"]]))
                        k += 1
                    table(what, child, s["sqlcols"], parts)
                if tabs:
                    raise decode.Bad("%s: more tables: %s" % (what, sorted(tabs)))

            if "csv" in s["outs"]:
                t = decode.csv_table(d + "/c.csv")
                table("csv", False, 0, [(t["head"], t["rows"])])
                if s["per"]:
                    t = decode.csv_table(d + "/c_kid.csv")
                    table("csv", True, 0, [(t["head"], t["rows"])])
            if "raw" in s["outs"]:
                heads = [["._sequence"] * s["seq"] + [(".c.[%d]" if s["arr"] else ".c%d") % j for j in range(s["width"])], ["._sequence", "._index"] + [".x%d" % j for j in range(s["cw"])]]
                for child in (False, True)[:1 + bool(s["per"])]:
                    with open(d + ("/r_kid.raw" if child else "/r.raw")) as f:
                        rows = [x.split("|") for x in f.read().split("\n")[:-1]]
                    if any(len(r) != len(heads[child]) for r in rows):
                        raise decode.Bad("raw: number of cells")
                    table("raw", child, 0, [(heads[child], rows)])
            if "sqlite" in s["outs"]:
                sql("sqlite", dict(decode.sqlite_output(d + "/s.sqlite")), lambda x: x[1:])
            if "pg" in s["outs"]:
                sql("pg", dict(decode.pg_output(d + "/p.sql")["tabs"]), lambda x: x)
        except decode.Bad as e:
            ctx.violation("output: %s" % e, {"shape": {k: v for k, v in s.items() if v is not None}})
            return False
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.notes.setdefault("long_inputs", []).extend([s["n"] for s in shapes])
    return trace(ctx, recs, "Long", chunk=20000)


def long_c01(ctx):
    if not orders(ctx):
        return False
    y = "" if not ctx.full else "yield"
    ss = [shape(30000, 2, 0, outs=("csv", "raw"), conc=16), shape(12000, 3, 0, outs=("csv",), conc=3, cuts=4, env={"GOMAXPROCS": "2"}), shape(6000, 2, 0, outs=("csv",), conc=32, prog="yield")]
    if ctx.full:
        ss += [shape(300000, 1, 0, outs=("csv",), conc=64), shape(40000, 2, 0, outs=("csv", "raw"), conc=7, cuts=9, prog=y), shape(200000, 2, 0, outs=("raw",), conc=2)]
    return long_tables(ctx, ss)


def wide(ctx, n, lines=2):
    """So many keys that none of them may be taken for another, cells of one row are validated by module Long."""
    d = tempfile.mkdtemp(prefix="l", dir=tmp())
    show = {"keys": n, "lines": lines}
    try:
        with open(d + "/in.jsonl", "w") as f:
            for i in range(1, lines + 1):
                f.write("{" + ",".join('"c%d":%d' % (j, i + j) for j in range(n)) + "}\n")
        a = [ctx.prog(), "-verbosity", "0", "-children-limit", "0", "-csv", d + "/c.csv", d + "/in.jsonl"]
        p = subprocess.run(a, capture_output=True, timeout=300)
        if p.returncode != 0:
            ctx.violation("status", {"args": a[1:], "stderr": p.stderr[-500:].decode("utf-8", "replace"), "shape": show})
            return False
        t = decode.csv_table(d + "/c.csv")
    except subprocess.TimeoutExpired:
        ctx.violation("timeout", {"args": a[1:], "shape": show})
        return False
    except decode.Bad as e:
        ctx.violation("output: %s" % e, {"shape": show})
        return False
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.cov["evaluations"] += 1
    ctx.notes["keys_of_wide_lines"] = n
    recs = [{"id": "wide head", "why": "wide-columns", "row": 0, "width": n, "cells": t["head"], "show": show}]
    recs += [{"id": "wide %d" % (i + 1), "why": "wide-cells", "row": i + 1, "width": n, "cells": r, "show": show} for i, r in enumerate(t["rows"])]
    recs.append({"id": "wide rows", "why": "wide-rows", "lines": lines, "per": 1, "m": 1, "d": 0, "c": 0, "cells": [r[0] for r in t["rows"]], "show": show})
    return trace(ctx, recs, "Long", chunk=1)


def long_c03(ctx):
    return wide(ctx, 250000) and long_tables(ctx, [shape(7, 1200, 0, outs=("csv",), arr=True), shape(9, 700, 0, outs=("csv",))] + [shape(3, 11000, 0, outs=("csv", "raw"), arr=True)] * ctx.full)


def long_c10(ctx):
    return long_tables(ctx, [shape(30, 1, 1100, outs=("csv", "pg")), shape(5, 2, 300, 3, outs=("sqlite", "raw"))] + [shape(20, 1, 11000, outs=("csv", "sqlite"))] * ctx.full)


def long_c14(ctx):
    ss = [shape(10003, 3, 1), shape(1003, 101, 0, sqlcols=2000), shape(205, 1001, 0, sqlcols=1500)]
    if ctx.full:
        ss += [shape(40007, 4, 2, 2), shape(5001, 150, 2, sqlcols=2000), shape(1003, 1500, 0, sqlcols=2000)]
    return long_tables(ctx, ss)


def long_c15(ctx):
    ss = [shape(10003, 4, 1, 4, outs=("sqlite", "pg"), sqlcols=3), shape(1007, 103, 2, 3, outs=("sqlite", "pg"), sqlcols=7), shape(103, 1003, 0, outs=("sqlite", "pg"))]
    if ctx.full:
        ss += [shape(25003, 7, 3, 5, outs=("sqlite", "pg"), sqlcols=c) for c in (2, 4, 5)] + [shape(503, 1500, 4, 30, outs=("sqlite", "pg"), sqlcols=c) for c in (100, 16)]
    return long_tables(ctx, ss)


def long_c16(ctx):
    ss = [shape(n, 1, p, outs=("pg",), seq=False) for n, p in ((10000, 0), (9999, 1), (20001, 1))] + [shape(10001, 3, 2, 3, outs=("pg",), sqlcols=3)]
    if ctx.full:
        ss += [shape(n, 2, p, outs=("pg",), sqlcols=c, conc=8) for n in (10000, 10001, 19999, 20000, 20001, 30000, 50003) for p, c in ((0, 500), (2, 3))]
    return long_tables(ctx, ss)


def long_c26(ctx):
    return long_tables(ctx, [shape(100001, 1, 3, cuts=2)] if not ctx.full else [shape(1000001, 1, 2, cuts=2), shape(300001, 1, 3, cuts=3, conc=5)])


def c28_faults(ctx):
    """Runs with a failing output or input end as well."""
    g = driver_gen(ctx, "faults")
    jobs = []
    for outs, comp in ((("csv",), ""), (("raw",), ""), (("pg",), ""), (("csv",), "gz"), (("csv", "pg"), ""), (("sqlite",), "")):
        for conc in (1, 2, 8) if not ctx.full else (1, 2, 3, 8, 64):
            cfg = g.pick([new_cfg(), new_cfg(transpose={".t": "kid"}), new_cfg(include=[".n", ".s"])])
            ls = [{"pre": "", "v": O(("n", N(j)), ("s", S("".join(g.pick("abcdefghijklmnopqrstuvwxyz") for _ in range(40)))), ("t", A(N(j))))} for j in range(g.pick([300, 1500]))]
            run = R(prog=ctx.prog(g.pick(["", "yield"])), outs=outs, ocomp=comp, conc=conc)
            sut = Sut(ctx, one([ls[:100], ls[100:]], cfg, []), run)
            top = max(sut.sizes.values())
            for n in (0, top // 3, top - 1):
                jobs.append((sut, "files limited to %d of %d bytes" % (n, top), sut.plan(cap=n), dict(fsize=n)))
            jobs.append((sut, "buffer of 60 bytes", sut.plan(ins=[{"n": 100, "bad": 1}, {"n": len(ls) - 100, "bad": -1}]), dict(bufsize=60)))

    def do(j):
        return j[0].go(**j[3])

    recs = [{"id": "e%d" % i, "plan": j[2], "maybe": False, "obs": o, "show": {"fault": j[1], "flags": flags(j[0]), "conc": j[0].run.conc, "status": o["status"]}}
            for i, (j, o) in enumerate(zip(jobs, runner.parallel(do, jobs)))]
    return trace(ctx, recs, "SessionTrace")


def long_c28(ctx):
    throttle_models(ctx)
    return c28_faults(ctx) and long_tables(ctx, [shape(25 if c < 4 else 60, 300, 2, mem=1, conc=c, cuts=1 + c // 3) for c in ((1, 4) if not ctx.full else (1, 2, 4, 16))])


def before_c02(ctx):
    return orders(ctx)


def before_keys(ctx):
    keyscan_models(ctx)
    return True


# --- C30 ---------------------------------------------------------------------
BAD_CONFIGS = [
    ("inline, cut", '{"includeKeys":[".a"', None), ("inline, no JSON", "{includeKeys", None), ("no such file", "missing.json", None),
    ("cut JSON", None, b'{"includeKeys": [".a"'), ("wrong type", None, b'{"includeKeys": 5}'), ("wrong type 2", None, b'{"replaceKeys": ["a"]}'),
    ("wrong type 3", None, b'{"transpose": {".a": 1}}'), ("array", None, b'[1, 2]'), ("text", None, b'just words'),
    ("YAML wrong type", None, b'includeKeys:\n  a: b\n'), ("YAML bad indent", None, b'includeKeys:\n  - ".a"\n - ".b"\n'),
    ("YAML tab", None, b'includeKeys:\n\t- ".a"\n'), ("bad include pattern", None, b'{"includeKeysRegex": ["(x"]}'),
    ("bad exclude pattern", None, b'{"excludeKeysRegex": ["[x"]}'), ("bad rename pattern", None, b'{"replaceKeysRegex": {"x(": "y"}}'),
    ("bad extract pattern", None, b'{"extractValuesRegex": {"x(": "JSON"}}'), ("empty pattern", None, b'{"includeKeysRegex": [""]}'),
    ("bad prefix pattern", None, b'{"matchLinePrefix": "(a"}'), ("directory", "", None), ("JSON5 cut", None, b'{// c\n includeKeys: [".a"'),
]
GOOD_CONFIGS = [("inline", '{"includeKeys":[".a"]}', None), ("JSON", None, b'{"includeKeys": [".a"]}'), ("YAML", None, b'includeKeys:\n  - ".a"\n'),
                ("JSON5", None, b'{// c\n includeKeys: [".a",],}')]


def c30_rejects(ctx):
    recs = []
    case = one([[{"pre": "", "v": O(("a", N("1")), ("b", S("x")))}]], new_cfg(include=[".a"]), [])
    for i, (what, inline, body) in enumerate(BAD_CONFIGS + GOOD_CONFIGS):
        for ext in (("json",) if body is None else ("json", "yaml", "json5", "conf")):
            sut = Sut(ctx, case, R(prog=ctx.prog(), outs=("csv",)))

            def args(a, d):
                j = a.index("-config")
                if body is None:
                    v = inline if inline.startswith("{") else os.path.join(d, inline or "out")
                else:
                    v = os.path.join(d, "cfg." + ext)
                    with open(v, "wb") as f:
                        f.write(body)
                return a[:j + 1] + [v] + a[j + 2:]
            o = sut.go(args=args)
            recs.append({"id": "cfg%d-%s" % (i, ext), "plan": sut.plan(cfgbad=i < len(BAD_CONFIGS)), "maybe": False, "obs": o,
                         "show": {"config": what, "content": inline if body is None else body.decode(), "ext": ext, "status": o["status"]}, "files": {"stderr.txt": o["err"].encode()}})
    return trace(ctx, recs, "SessionTrace")


__all__ = ["c18", "c29", "c30_rejects", "props"]
