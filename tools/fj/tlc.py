"""Runs TLC on recorded cases and on bounded models."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from .env import SPEC, tmp
from .runner import parallel

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def tlc(module, cfg, env=None, workers=1, heap="3g", timeout=800, extra=(), simulate=None):
    """Runs TLC in a scratch copy of the specification directory; returns its output."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=tmp())
    try:
        cmd = ["java", "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss512m", "-XX:TieredStopAtLevel=4", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
               "-Djava.io.tmpdir=" + meta, "-Dtlc2.TLC.stopAfter=%d" % timeout, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
               "-lncheck", "final", "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg), *extra]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd.append(os.path.join(SPEC, module))
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=meta, env=e, capture_output=True, timeout=timeout + 60)
        return p.returncode, p.stdout.decode("utf-8", "replace") + p.stderr.decode("utf-8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


_rx = re.compile(r'^"@@(.*)"$')


def said(out):
    res = []
    for line in out.splitlines():
        m = _rx.match(line)
        if m:
            s = m.group(1)
            res.append(json.loads(s.replace('\\"', '"').replace("\\\\", "\\")) if False else json.loads(_unquote(s)))
    return res


def _unquote(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            out.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(s[i + 1], s[i + 1]))
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def errors(out):
    ls = [x[:400] for x in out.splitlines() if not x.startswith('"@@')]
    at = [i for i, x in enumerate(ls) if "rror" in x]
    return "\n".join(ls[at[0]:at[0] + 12] if at else ls[-8:])


def validate(recs, shards=8, module="Validate.tla", cfg="Validate.cfg", timeout=800):
    """Checks recorded cases; returns verdicts by case id and the number of states."""
    if not recs:
        return {}, (0, 0)
    weights = sorted(((len(json.dumps(r.get("runs", r))) + 2000, i) for i, r in enumerate(recs)), reverse=True)
    shards = max(1, min(shards, len(recs)))
    bins = [[0, []] for _ in range(shards)]
    for w, i in weights:
        b = min(bins, key=lambda x: x[0])
        b[0] += w
        b[1].append(i)

    def one(b):
        fn = tempfile.mktemp(prefix="cases", suffix=".ndjson", dir=tmp())
        with open(fn, "w", encoding="utf-8") as f:
            for i in b[1]:
                f.write(json.dumps(recs[i], ensure_ascii=True) + "\n")
        try:
            rc, out = tlc(module, cfg, {"CASES": fn}, timeout=timeout)
        finally:
            os.unlink(fn)
        v = said(out)
        done = {x["id"] for x in v if x["what"] in ("ACCEPT", "REJECT")}
        missing = [recs[i]["id"] for i in b[1] if recs[i]["id"] not in done]
        if rc != 0 or missing:
            raise TLCError("TLC ended with %d, no verdict for %s\n%s" % (rc, missing[:3], errors(out)))
        return v, stats(out)

    verdicts, st = {}, [0, 0]
    for v, s in parallel(one, bins, shards):
        for x in v:
            verdicts.setdefault(x["id"], []).append(x)
        st[0] += s[0]
        st[1] += s[1]
    return verdicts, tuple(st)
