"""Independent decoders of the outputs."""
import gzip
import json
import os
import re
import sqlite3
import subprocess

from .values import dec, parse, rec


class Bad(Exception):
    pass


def read(fn):
    with open(fn, "rb") as f:
        b = f.read()
    if fn.endswith(".gz"):
        try:
            return gzip.decompress(b)
        except Exception as e:  # noqa
            raise Bad("gzip: %s" % e)
    if fn.endswith(".zst"):
        p = subprocess.run(["zstd", "-dc", fn], capture_output=True)
        if p.returncode != 0:
            raise Bad("zstd: %s" % p.stderr.decode("utf-8", "replace"))
        return p.stdout
    return b


def csv_records(t, pos=0, stop=None):
    """Records of CSV text; stops at a line equal to stop. Returns records and the position behind."""
    res, n = [], len(t)
    plain = re.compile('[^",\n\r]*')
    while pos < n:
        if stop is not None and t.startswith(stop + "\n", pos):
            return res, pos + len(stop) + 1
        row = []
        while True:
            if pos < n and t[pos] == '"':
                out = []
                pos += 1
                while True:
                    q = t.find('"', pos)
                    if q < 0:
                        raise Bad("csv: unterminated quoted field")
                    out.append(t[pos:q])
                    pos = q + 1
                    if pos < n and t[pos] == '"':
                        out.append('"')
                        pos += 1
                    else:
                        break
                row.append("".join(out))
            else:
                m = plain.match(t, pos)
                row.append(m.group(0))
                pos = m.end()
            if pos >= n:
                raise Bad("csv: no line break at the end")
            if t[pos] == ",":
                pos += 1
                continue
            if t[pos] == "\n":
                pos += 1
                break
            raise Bad("csv: unexpected %r after a field" % t[pos])
        res.append(row)
    if stop is not None:
        raise Bad("csv: no terminator " + stop)
    return res, pos


def csv_table(fn):
    recs, _ = csv_records(dec(read(fn)))
    if not recs:
        raise Bad("csv: no header in " + os.path.basename(fn))
    head = [] if recs[0] == [""] else recs[0]
    return {"head": head, "rows": recs[1:]}


def children(base, dst_ext):
    d, fn = os.path.split(base)
    stem = fn[:len(fn) - len(dst_ext)]
    res = []
    for f in sorted(os.listdir(d)):
        if f != fn and f.startswith(stem + "_") and f.endswith(dst_ext):
            res.append((f[len(stem) + 1:len(f) - len(dst_ext)], os.path.join(d, f)))
    return res


def csv_output(fn):
    r = csv_table(fn)
    r["kids"] = [[d, csv_table(f)] for d, f in children(fn, os.path.splitext(fn)[1])]
    return r


def raw_output(fn):
    return {"text": dec(read(fn)), "kids": [[d, dec(read(f))] for d, f in children(fn, os.path.splitext(fn)[1])]}


def sq_cell(x):
    if x is None:
        return "N"
    if isinstance(x, bytes):
        return "T" + dec(x)
    if isinstance(x, int):
        return "I%d" % x
    return "R" + repr(x + 0.0)


def sqlite_output(fn):
    if not os.path.exists(fn):
        raise Bad("sqlite: no file")
    try:
        db = sqlite3.connect(fn)
    except sqlite3.Error as e:
        raise Bad("sqlite: %s" % e)
    db.text_factory = bytes
    try:
        res = []
        for (name,) in db.execute("select name from sqlite_master where type='table' order by name").fetchall():
            q = b'"' + name.replace(b'"', b'""') + b'"'
            cols = [[dec(r[1]), dec(r[2])] for r in db.execute((b"pragma table_info(" + q + b")").decode()).fetchall()]
            rows = [[sq_cell(x) for x in r] for r in db.execute((b"select * from " + q + b" order by rowid").decode()).fetchall()]
            res.append([dec(name), {"cols": cols, "rows": rows}])
        return res
    except sqlite3.Error as e:
        raise Bad("sqlite: %s" % e)
    finally:
        db.close()


def pg_output(fn):
    t = dec(read(fn))
    pos, tabs, copied, status = 0, {}, set(), 0
    ident = re.compile(r'"((?:[^"]|"")*)"')

    def need(s):
        nonlocal pos
        if not t.startswith(s, pos):
            raise Bad("pg: expected %r at %r" % (s, t[pos:pos + 40]))
        pos += len(s)

    def skip():
        nonlocal pos
        while pos < len(t) and t[pos] in " \t\r\n":
            pos += 1

    def name():
        nonlocal pos
        m = ident.match(t, pos)
        if not m:
            raise Bad("pg: expected a name at %r" % t[pos:pos + 40])
        pos = m.end()
        return m.group(1).replace('""', '"')

    skip()
    while pos < len(t):
        if t.startswith("CREATE TABLE ", pos):
            need("CREATE TABLE ")
            n = name()
            if n in tabs:
                raise Bad("pg: table %r is created twice" % n)
            if copied:
                raise Bad("pg: table %r is created after data" % n)
            skip()
            need("(")
            cols = []
            while True:
                skip()
                c = name()
                m = re.compile(r"\s+([A-Za-z0-9_]+)((?:\s+primary key)?)\s*([,)])").match(t, pos)
                if not m:
                    raise Bad("pg: no type of column %r at %r" % (c, t[pos:pos + 40]))
                pos = m.end()
                if c in [x[0] for x in cols]:
                    raise Bad("pg: column %r is declared twice" % c)
                cols.append([c, m.group(1)])
                if m.group(3) == ")":
                    break
            need(";")
            tabs[n] = {"cols": cols, "rows": []}
        elif t.startswith("COPY ", pos):
            need("COPY ")
            n = name()
            if n not in tabs:
                raise Bad("pg: copy into unknown table %r" % n)
            skip()
            need("(")
            cols = []
            while True:
                skip()
                cols.append(name())
                skip()
                if t[pos:pos + 1] == ",":
                    pos += 1
                    continue
                need(")")
                break
            if cols != [c[0] for c in tabs[n]["cols"]]:
                raise Bad("pg: columns of copy into %r: %r" % (n, cols))
            need(" FROM stdin WITH (FORMAT csv);\n")
            recs, pos = csv_records(t, pos, "\\.")
            for r in recs:
                if len(r) != len(cols):
                    raise Bad("pg: record of %d fields for %d columns of %r" % (len(r), len(cols), n))
            tabs[n]["rows"] += recs
            copied.add(n)
        elif t.startswith("SELECT '", pos):
            m = re.compile(r"SELECT '[^']*' AS status;\n").match(t, pos)
            if not m:
                raise Bad("pg: %r" % t[pos:pos + 60])
            pos = m.end()
            status += 1
        else:
            raise Bad("pg: unexpected %r" % t[pos:pos + 60])
        skip()
    return {"err": "", "tabs": [[n, x] for n, x in tabs.items()]}


def json_cells(cells):
    """Pairs of text and decoded value of the cells that hold JSON containers."""
    res = {}
    for c in cells:
        if c[:1] in ("{", "[") and c not in res:
            try:
                res[c] = rec(parse(c))
            except (ValueError, RecursionError):
                pass
    return [[k, v] for k, v in res.items()]


def flatten_hier(h, pre=()):
    res = []
    for x in h:
        if isinstance(x, str):
            res.append(list(pre + (x,)))
        elif isinstance(x, dict) and len(x) == 1:
            (k, sub), = x.items()
            res.append(list(pre + (k,)))
            res += flatten_hier(sub, pre + (k,))
        else:
            raise Bad("hierarchy: %r" % (x,))
    return res


def schema_rec(s):
    return {"types": s.get("type", []), "props": [[k, schema_rec(v)] for k, v in s.get("properties", {}).items()],
            "items": [schema_rec(s["items"])] if "items" in s else []}


def reports(out, want):
    """Splits standard output into the requested reports."""
    t = dec(out)
    res = {}
    if "flat" in want:
        if not t.startswith("keys:\n"):
            raise Bad("flat keys: %r" % t[:60])
        t = t[len("keys:\n"):]
        keys = []
        while t.startswith('"'):
            line, _, t = t.partition("\n")
            if not line.endswith('",'):
                raise Bad("flat keys: %r" % line)
            keys.append(line[1:-2])
        res["flat"] = keys
    if "info" in want:
        if not t.startswith("keys info:\n"):
            raise Bad("keys info: %r" % t[:60])
        t = t[len("keys info:\n"):]
        lines = []
        while re.match(r"\d+: ", t):
            line, _, t = t.partition("\n")
            lines.append(line)
        res["info"] = lines
    d = json.JSONDecoder(strict=False)
    if "hier" in want:
        try:
            x, end = d.raw_decode(t.lstrip())
        except ValueError as e:
            raise Bad("hierarchy: %s" % e)
        t = t.lstrip()[end:]
        if not isinstance(x, list):
            raise Bad("hierarchy: %r" % (x,))
        res["hier"] = flatten_hier(x)
    if "schema" in want:
        try:
            x, end = d.raw_decode(t.lstrip())
        except ValueError as e:
            raise Bad("schema: %s" % e)
        t = t.lstrip()[end:]
        if x.pop("title", "") != "Root":
            raise Bad("schema: no title")
        res["schema"] = schema_rec(x)
    if t.strip():
        raise Bad("unexpected output: %r" % t[:80])
    return res
