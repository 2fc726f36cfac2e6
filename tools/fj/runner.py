"""Runs the program on a case and records what it produced."""
import concurrent.futures as cf
import gzip
import json
import os
import re
import resource
import shutil
import subprocess
import tempfile

from . import decode
from .env import tmp
from .values import enc, rec, text

DEFAULTS = dict(seq=False, cs=False, offset=0, max=0, maxkeys=0, children=100, flim=0, klim=0, rep=False, skipzero=False,
                extract=False, sqlcols=500, include=[], includeRx=[], exclude=[], excludeRx=[], repKeys={}, repRx=[],
                ptime={}, outfmt=None, outtz="", concat=None, transpose={}, xrx=[], keep=[], allow=[], prefix=None)

RFC3339 = [{"f": "2006"}, {"l": "-"}, {"f": "01"}, {"l": "-"}, {"f": "02"}, {"l": "T"}, {"f": "15"}, {"l": ":"}, {"f": "04"},
           {"l": ":"}, {"f": "05"}, {"f": "Z07:00"}]


def layout(toks):
    return {"p": "".join(t.get("f", t.get("l", "")) for t in toks), "toks": toks}


def small(n):
    """Numbers of the specification are small; no input has that many lines."""
    return min(n, 10 ** 9)


def cfg_rec(c):
    """Configuration in the form of the specification."""
    return dict(
        seq=c["seq"], cs=c["cs"], offset=small(c["offset"]), max=small(c["max"]), maxkeys=small(c["maxkeys"]), children=c["children"],
        flim=c["flim"], klim=c["klim"], rep=c["rep"], skipzero=c["skipzero"], extract=c["extract"], sqlcols=c["sqlcols"] or 500,
        include=c["include"], includeRx=[r.rec() for r in c["includeRx"]], exclude=c["exclude"],
        excludeRx=[r.rec() for r in c["excludeRx"]], repKeys=[[k, v] for k, v in c["repKeys"].items()],
        repRx=[[r.rec(), v] for r, v in c["repRx"]],
        ptime=[[k, {"p": "RAW", "toks": []} if v == "RAW" else layout(v)] for k, v in c["ptime"].items()],
        outfmt=layout(c["outfmt"] or RFC3339), outtz=c["outtz"],
        hasConcat=c["concat"] is not None, concat=c["concat"] or "", transpose=[[k, v] for k, v in c["transpose"].items()],
        xrx=[[r.rec(), f] for r, f in c["xrx"]], keep=c["keep"], allow=c["allow"],
        prefix=[c["prefix"].rec()] if c["prefix"] is not None else [])


def config_obj(c, getkey=False):
    o = {}
    inc = c["include"][:-1] if getkey else c["include"]
    if inc:
        o["includeKeys"] = inc
    for k, n in (("includeRx", "includeKeysRegex"), ("excludeRx", "excludeKeysRegex")):
        if c[k]:
            o[n] = [r.p for r in c[k]]
    if c["exclude"]:
        o["excludeKeys"] = c["exclude"]
    if c["repKeys"]:
        o["replaceKeys"] = c["repKeys"]
    if c["repRx"]:
        o["replaceKeysRegex"] = {r.p: v for r, v in c["repRx"]}
    if c["ptime"]:
        o["parseTime"] = {k: v if v == "RAW" else layout(v)["p"] for k, v in c["ptime"].items()}
    if c["outfmt"]:
        o["outputTimeFormat"] = layout(c["outfmt"])["p"]
    if c["outtz"]:
        o["outputTZ"] = c["outtz"]
    if c["concat"] is not None:
        o["concatDelimiter"] = c["concat"]
    if c["transpose"]:
        o["transpose"] = c["transpose"]
    if c["xrx"]:
        o["extractValuesRegex"] = {r.p: f for r, f in c["xrx"]}
    if c["keep"]:
        o["keepJSON"] = c["keep"]
    if c["allow"]:
        o["allowCardinality"] = c["allow"]
    return o


def line_bytes(l):
    """A line is {"pre", "v"?, "raw"?: exact text, "tail"?}."""
    if "bytes" in l:
        return l["bytes"]
    if "raw" in l:
        return enc(l["raw"])
    return enc(l["pre"] + (text(l["v"]) if "v" in l else "") + l.get("tail", ""))


def line_rec(l):
    r = {"pre": l["pre"]}
    if "v" in l:
        r["v"] = rec(l["v"])
    if l.get("lax"):
        r["lax"] = True
    if "id" in l:  # lines are identified in the log
        r["id"] = l["id"]
        r["brace"] = b"{" in line_bytes(l)
    return r


def named_part(b):
    """The text of a line that its error ends with: all from the first brace."""
    return b[b.index(b"{"):] if b"{" in b else b


def named_lines(case, err):
    """Lines that are named by the errors of a verbose run: identity of the text and number (0 when there is none)."""
    texts = {named_part(line_bytes(l)): l["id"] for f in case["files"] for l in f}
    res = []
    for m in err.split(b"\n"):
        if not m.startswith(b"error:"):
            continue
        own = max((t for t in texts if m.endswith(t)), key=len, default=None)
        n = re.search(rb"at line (\d+)", m)
        e = [texts[own] if own is not None else -1, int(n.group(1)) if n else 0]
        if e not in res:
            res.append(e)
    return res


def yaml_str(s):
    return "".join("\\U%08x" % ord(c) if ord(c) > 0xFFFF else c for c in json.dumps(s, ensure_ascii=False))


def to_yaml(o, ind=0):
    p = "  " * ind
    out = []
    for k, v in o.items():
        kk = yaml_str(k) if ind else k
        if isinstance(v, dict):
            out.append(p + kk + ":\n" + to_yaml(v, ind + 1))
        elif isinstance(v, list):
            out.append(p + kk + ":\n" + "".join(p + "  - " + yaml_str(x) + "\n" for x in v))
        else:
            out.append(p + kk + ": " + yaml_str(v) + "\n")
    return "".join(out)


def to_json5(o):
    def val(v):
        if isinstance(v, dict):
            return "{" + ",".join(json.dumps(k) + ": " + val(x) for k, x in v.items()) + "}"
        if isinstance(v, list):
            return "[" + "".join(val(x) + "," for x in v) + "]"
        return json.dumps(v)
    return "{\n  // settings\n" + ",\n".join("  // %s %d\n  " % (k, i) + k + ": " + val(v) for i, (k, v) in enumerate(o.items())) + ",\n}\n"


class Run:
    """How to run the program on a case."""

    def __init__(self, name="r", prog=None, conc=1, outs=("csv",), ocomp="", icomp="", files=None, form="file", show=(),
                 dedicated=True, inputs="args", eol=True, crlf=False, memlimit=None, env=None, timeout=120, extra=(), fsize=None,
                 bufsize=None, verbosity="0", keep_head=True,
                 naming=0, argform=0, prof=(), stale=0, nop=()):
        self.__dict__.update(locals())
        del self.__dict__["self"]


def compress(fn, b, kind):
    if kind == "gz":
        with open(fn, "wb") as f:
            f.write(gzip.compress(b, 6))
    elif kind == "gz2":  # several members
        h = len(b) // 2
        with open(fn, "wb") as f:
            f.write(gzip.compress(b[:h], 6) + gzip.compress(b[h:], 1))
    elif kind == "zst":
        subprocess.run(["zstd", "-q", "-f", "-o", fn], input=b, check=True)
    else:
        with open(fn, "wb") as f:
            f.write(b)


def flags_of(c, run):
    a = []
    for k, fl, d in (("offset", "offset-lines", 0), ("max", "max-lines", 0), ("maxkeys", "max-lines-keys", 0),
                     ("children", "children-limit", 100), ("flim", "field-limit", 0), ("klim", "key-limit", 0),
                     ("sqlcols", "sql-max-cols", 500)):
        if c[k] != d:
            a += ["-" + fl, str(c[k])]
    for k, fl in (("seq", "add-sequence"), ("cs", "case-sensitive-keys"), ("rep", "replace-keys"),
                  ("skipzero", "skip-zero-cols"), ("extract", "extract-strings")):
        if c[k]:
            a.append("-" + fl)
    if run.conc:
        a += ["-concurrency", str(run.conc)]
    if run.memlimit is not None:
        a += ["-mem-limit", str(run.memlimit)]
    if run.bufsize is not None:
        a += ["-buf-size", str(run.bufsize)]
    a += ["-verbosity", run.verbosity]
    if run.verbosity != "0":
        a += ["-progress-interval", "1ms"]
    return a


def write_inputs(case, run, d):
    files = run.files if run.files is not None else case["files"]
    names, seen = [], {}
    ext = {"": ".jsonl", "gz": ".jsonl.gz", "gz2": ".jsonl.gz", "zst": ".jsonl.zst"}[run.icomp]
    for i, ls in enumerate(files):
        nl = b"\r\n" if run.crlf else b"\n"
        b = nl.join(line_bytes(l) for l in ls)
        if ls and (run.eol or not line_bytes(ls[-1])):
            b += nl
        if b in seen:  # the same file again
            names.append(seen[b])
            continue
        fn = os.path.join(d, "in%d%s" % (i, ext))
        if run.naming == 1:  # files of the same name
            fn = os.path.join(d, "s%d" % i, "in" + ext)
            os.mkdir(os.path.dirname(fn))
        if run.naming == 3:  # suffixes that are not the last one
            fn = os.path.join(d, "in.%s.%d%s" % ("gz" if run.icomp != "gz" else "zst", i, ext))
        compress(fn, b, run.icomp)
        seen[b] = fn
        names.append(fn)
    return names


NAMES = ({"csv": "c.csv", "raw": "r.raw", "sqlite": "s.sqlite", "pg": "p.sql"}, {"csv": "Res.Tab.CSV", "raw": "Raw Out.RAW", "sqlite": "Db_1.SQLite", "pg": "Dump.V1"},
         {"csv": "é.csv", "raw": "R.v2.Raw", "sqlite": "x.y.sqlite", "pg": "d"},
         {"csv": "o.gz.csv", "raw": "csv.zst.raw", "sqlite": "y.csv.gz.sqlite", "pg": "z.sqlite.gz.sql"})


def other_form(a, k):
    """Flags with two dashes or their values after =."""
    res, i = a[:1], 1
    while i < len(a):
        f = ("-" if k & 1 else "") + a[i]
        if i + 1 < len(a) and not re.match("-[a-z]", a[i + 1]):
            res += [f + "=" + a[i + 1]] if k & 2 else [f, a[i + 1]]
            i += 2
        else:
            res.append(f + ("=true" if k & 2 else ""))
            i += 1
    return res


def command(case, run, d):
    c = case["cfg"]
    names = write_inputs(case, run, d)
    a = [run.prog] + flags_of(c, run)
    getkey = bool(case.get("getkey")) and c["include"]
    if getkey:
        a += ["-get-key", c["include"][-1]]
    o = config_obj(c, getkey)
    if c["prefix"] is not None:
        if case.get("prefixInConfig"):
            o["matchLinePrefix"] = c["prefix"].p
        else:
            a += ["-match-line-prefix", c["prefix"].p]
            if case.get("prefixDecoy"):  # the flag is used
                o["matchLinePrefix"] = case["prefixDecoy"]
    if o:
        if run.form == "inline":
            a += ["-config", json.dumps(o, ensure_ascii=False)]
        else:
            fn = os.path.join(d, "config." + {"file": "json", "yaml": "yaml", "json5": "json5"}[run.form])
            with open(fn, "w", encoding="utf-8") as f:
                f.write({"file": lambda o: json.dumps(o, ensure_ascii=False), "yaml": to_yaml, "json5": to_json5}[run.form](o))
            a += ["-config", fn]
    out = os.path.join(d, "Out Dir.V2" if run.naming else "out")
    os.mkdir(out)
    comp = {"": "", "gz": ".gz", "zst": ".zst"}[run.ocomp]
    outs, listed = {}, []
    for s in run.outs:
        fn = os.path.join(out, NAMES[run.naming][s] + (comp if s != "sqlite" else ""))
        if run.naming == 2 and s == "csv" and run.outs == ("csv",) and not run.show and comp == "" and not run.nop:
            outs[s] = names[0] + ".csv"  # default
            continue
        outs[s] = fn
        if s == "pg":
            a += ["-pg-dump", fn]
        elif run.dedicated is True or run.dedicated == s:
            a += ["-" + s, fn]
        else:
            listed.append(fn)
        if run.stale and s != "sqlite":  # former content
            with open(fn, "wb") as f:
                f.write(b"former,1\n\"content" * run.stale)
    for s in run.nop:
        if s not in run.outs:
            a += ["-pg-dump" if s == "pg" else "-" + s, "<nop>"]
    if listed:
        if run.argform:
            listed.reverse()
        a += ["-output", ",".join(listed)]
    if "raw" in run.outs and case.get("delim", "") != "":
        a += ["-raw-delim", case["delim"]]
    if case.get("table", "flatjsonl") != "flatjsonl":
        a += ["-sql-table", case["table"]]
    if case.get("loop"):
        a += ["-dbg-loop-input-size", str(case["loop"])]
    for s in run.prof:
        a += ["-dbg-%s-prof" % s, s + ".prof"]
    for s in run.show:
        a.append({"flat": "-show-keys-flat", "info": "-show-keys-info", "hier": "-show-keys-hier", "schema": "-show-json-schema"}[s])
    a += list(run.extra)
    if run.argform:
        a = other_form(a, run.argform)
    if run.inputs == "flag":
        a += ["-input", ",".join(names)]
    elif run.inputs == "mixed" and len(names) > 1:
        a += ["-input", ",".join(names[1:]), names[0]]
    elif run.inputs == "default":
        a += names
    else:
        a += names
    return a, outs


def limit(n):
    def f():
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        import signal
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    return f


def extra_files(outs):
    """Only the requested files are made (and child tables next to them)."""
    for d in {os.path.dirname(f) for f in outs.values()}:
        for f in os.listdir(d):
            fn = os.path.join(d, f)
            if os.path.isdir(fn) or fn in outs.values() or re.match(r"(in[.\w]*\.jsonl(\.gz|\.zst)?|config\..*|(cpu|mem)\.prof)$", f):
                continue
            if not any(s in ("csv", "raw") and fn.startswith(os.path.splitext(o)[0] + "_") and fn.endswith(os.path.splitext(o)[1]) for s, o in outs.items()):
                raise decode.Bad("unexpected file " + f)


def execute(case, run, keep=None):
    """Runs the program, returns the observation in the form of the specification."""
    d = tempfile.mkdtemp(prefix="c", dir=tmp())
    try:
        a, outs = command(case, run, d)
        if keep is not None:
            keep.append(a)
        env = {"PATH": os.environ.get("PATH", ""), "HOME": d, "TZ": "UTC"}
        env.update(run.env or {})
        obs = {"name": run.name, "js": []}
        try:
            p = subprocess.run(a, cwd=d, env=env, capture_output=True, timeout=run.timeout,
                               preexec_fn=limit(run.fsize) if run.fsize is not None else None)
        except subprocess.TimeoutExpired:
            obs.update(status="timeout after %s s" % run.timeout)
            return obs
        obs["status"] = "ok"
        if p.returncode != 0:
            obs["status"] = "exit %d: %s" % (p.returncode, p.stderr[-600:].decode("utf-8", "replace"))
            return obs
        try:
            for s in run.prof:
                if os.path.getsize(os.path.join(d, s + ".prof")) == 0:
                    raise decode.Bad("empty profile " + s)
            cells = []
            if "csv" in outs:
                obs["csv"] = decode.csv_output(outs["csv"])
                cells += [x for r in obs["csv"]["rows"] for x in r] + \
                         [x for _, k in obs["csv"]["kids"] for r in k["rows"] for x in r]
            if "raw" in outs:
                obs["raw"] = decode.raw_output(outs["raw"])
            if "sqlite" in outs:
                obs["sqlite"] = decode.sqlite_output(outs["sqlite"])
                if "csv" not in outs:
                    cells += [x[1:] for _, t in obs["sqlite"] for r in t["rows"] for x in r if x[0] == "T"]
            if "pg" in outs:
                obs["pg"] = decode.pg_output(outs["pg"])
                if "csv" not in outs and "sqlite" not in outs:
                    cells += [x for _, t in obs["pg"]["tabs"] for r in t["rows"] for x in r]
            if case.get("js") or case["cfg"]["children"] or case["cfg"]["keep"]:
                obs["js"] = decode.json_cells(cells)
            extra_files(outs)
            if case.get("diag") and run.verbosity in ("2", "3"):
                obs["named"] = named_lines(case, p.stderr)
            r = decode.reports(p.stdout, run.show)
            if "flat" in r and (run.conc != 1):
                # The order of keys is free, but everything else has to follow it.
                obs["disc"] = r["flat"]
            obs.update(r)
        except (decode.Bad, OSError, UnicodeError) as e:
            for k in ("csv", "raw", "sqlite", "pg"):
                obs.pop(k, None)
            obs["status"] = "output: %s" % e
        return obs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def case_rec(case, obs):
    loop = []
    if case.get("loop"):
        nl = 2 if case["runs"][0].crlf else 1
        loop = [[case["loop"], sum(len(line_bytes(l)) + nl for l in case["files"][0])]]
    return {"id": case["id"], "cfg": cfg_rec(case["cfg"]), "loop": loop, "files": [[line_rec(l) for l in f] for f in case["files"]],
            "table": case.get("table", "flatjsonl"), "delim": case.get("delim", ""), "runs": obs}


def new_cfg(**kw):
    c = {k: (v.copy() if isinstance(v, (list, dict)) else v) for k, v in DEFAULTS.items()}
    c.update(kw)
    return c


def parallel(fn, items, workers=None):
    with cf.ThreadPoolExecutor(workers or min(8, os.cpu_count() or 4)) as ex:
        return list(ex.map(fn, items))
