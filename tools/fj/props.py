"""Profiles: which cases decide which property."""
import itertools
import re

from . import rx
from .gen import BIGS, CAMEL, ODD, PLAIN, all_paths, containers, paths
from .runner import Run, line_bytes, named_part, new_cfg
from .values import A, B, N, O, S, Z, text

ALL = ("csv", "raw", "sqlite", "pg")
TEXTY = ("csv", "raw")


def R(name="r", **kw):
    return Run(name=name, **kw)


def one(files, cfg=None, runs=None, **kw):
    c = dict(cfg=cfg or new_cfg(), files=files, runs=runs or [R()])
    c.update(kw)
    return c


def split(g, ls, k=None):
    """The lines in k files of one or more lines each."""
    k = min(k or g.pick([1, 1, 2, 3]), len(ls))
    if k <= 1:
        return [ls]
    cuts = sorted(g.r.sample(range(1, len(ls)), k - 1))
    return [ls[a:b] for a, b in zip([0] + cuts, cuts + [len(ls)])]


# --- C01 ---------------------------------------------------------------------
CONC = [1, 2, 3, 4, 8, 16, 64, 0]


def numbered(g, n, damaged=.1, heavy=.15, nojson=.05):
    ls = []
    for i in range(n):
        v = O(("n", N(i)), ("k", S("line %d" % i)))
        if g.chance(heavy):
            v = O(("pad", A(*[N(j) for j in range(g.r.randrange(20, 60))])), *v[1])
        elif g.chance(.3):
            v = O(("n", N(i)), ("t", S("t" * g.r.randrange(2000))))
        x = g.r.random()
        if i > 1 and x < damaged:
            ls.append(g.damaged(v))
        elif i > 1 and x < damaged + nojson:
            ls.append(g.nojson())
        else:
            ls.append(g.line(v))
    return ls


def c01(ctx, g, n):
    for i in range(n):
        big = i % 6 == 5
        ls = numbered(g, g.r.randrange(300, 700) if big else g.sized(2, 60), g.pick([0, .1, .4]), g.pick([0, .1, .5]))
        cfg = new_cfg(children=g.pick([0, 20, 100]))
        runs = []
        for j in range(2):
            runs.append(R("r%d" % j, prog=ctx.prog(g.pick(["", "", "yield"])), conc=g.pick(CONC), outs=g.pick([("csv",), ("raw",), ("sqlite",), ("pg",), TEXTY, ALL]),
                          show=("flat",)))
        if g.chance(.3):
            cfg["include"] = g.pick([[".n"], [".k"], [".n", ".k"], [".k", ".n", ".missing"]])
        elif g.chance(.2):
            cfg["skipzero"] = True
        if g.chance(.2):
            cfg["seq"] = True
        r0 = R("base", outs=("csv",))
        yield one(split(g, ls), cfg, [r0] + runs, delim=g.pick([";", "\t", "|"]))


# --- C02 ---------------------------------------------------------------------
def c02(ctx, g, n):
    for i in range(n):
        kind = i % 4
        cfg = new_cfg()
        if kind == 0:  # shapes change from line to line
            shs = [g.shape(depth=3, width=4, kinds="snfb") for _ in range(3)]
            ls = [g.line(g.doc(g.pick(shs), .4)) for _ in range(g.sized(3, 60))]
        elif kind == 1:  # long values, then short ones
            ls = []
            for j in range(g.sized(5, 60)):
                m = g.pick([0, 1, 10, 3000])
                ls.append(g.line(O(*[(k, g.pick([S(k * m), N("1" * (m % 50 + 1)), A(*[S(k * (m % 7))] * (m % 5)), B(True)]))
                                     for k in g.r.sample("abcd", g.r.randrange(5))])))
        elif kind == 2:  # more than 100 lines for each of few workers, wide lines and empty ones
            ls = []
            for j in range(g.r.randrange(210, 320)):
                ls.append(g.line(O(*[("k%d" % x, N(j * 100 + x)) for x in g.r.sample(range(12), g.r.randrange(0, 6))]), .1))
            fl = i // 4 % 4
            if fl == 0:  # what differs from a plain line in the way it is parsed
                ls = [dict(l, tail=g.pick([" tail", " {}", "]"])) if "tail" not in l and "raw" not in l and g.chance(.2) else l for l in ls]
            elif fl == 1:
                cfg["extract"], cfg["children"] = True, 0
                ls = [g.line(O(*(list(l["v"][1]) + [("e", embedded(g, 1))])), .1) if g.chance(.2) else l for l in ls]
            elif fl == 2:
                ls = [g.pick([g.damaged, g.damaged, lambda v: lax(g, v), lambda v: g.nojson()])(l["v"]) if j and g.chance(.2) else l for j, l in enumerate(ls)]
            else:
                cfg["prefix"] = prefix_pat(g)
                ls = [dict(l, pre=p) if "raw" not in l and p[:1] != "{" else l for l in ls for p in [prefix_text(g) if g.chance(.4) else ""]]
        else:
            sh = g.shape(depth=2, kinds="snfb")
            ls = g.lines(sh, g.sized(3, 50), pmiss=.6)
            cs = containers([ls])
            if cs and g.chance(.7):
                cfg["keep"] = [g.pick(cs)]
            if g.chance(.3):
                for l in ls[1:]:
                    if g.chance(.3):
                        d = g.damaged(l["v"])
                        l.clear()
                        l.update(d)
        if g.chance(.4):
            fp = all_paths([ls])
            if fp:
                cfg["include"] = g.r.sample(fp, min(len(fp), g.pick([1, 2, 5])))
                cfg["include"] = [k for k in cfg["include"] if not any(k.startswith(x + ".") for x in cfg["keep"])]
                if cfg["keep"] and not set(cfg["keep"]) & set(cfg["include"]) and g.chance(.5):
                    cfg["include"].append(cfg["keep"][0])
        runs = [R("base", outs=("csv", "sqlite") if g.chance(.4) else ("csv",))]
        for j in range(2):
            runs.append(R("r%d" % j, prog=ctx.prog(g.pick(["", "", "yield"])), conc=g.pick([2, 3, 4, 16, 0]), outs=g.pick([("csv",), ("csv", "sqlite"), ("csv", "pg")]), show=("flat",)))
        yield one(split(g, ls), cfg, runs, js=bool(cfg["keep"]))


# --- C03 ---------------------------------------------------------------------
def c03_small():
    """All documents of small size over a few names and scalars."""
    sc = [S("x"), S(""), N("1"), N("-0.5e1"), B(True), B(False), Z]
    l1 = sc + [A(), O(), A(N("1")), A(Z), A(S("p"), S("q")), O(("a", N("1"))), O(("a", Z)), O(("a", S("s")), ("b", B(True)))]
    l2 = l1 + [A(x) for x in l1[7:]] + [O(("c", x)) for x in l1[7:]]
    for x in l2:
        yield [O(("k", x))]
    for x, y in itertools.product(l1, l1):
        yield [O(("k", x), ("m", y))]
        yield [O(("k", x)), O(("k", y))]


def deep(g, n):
    v = g.scalar("snfb")
    for i in range(n):
        v = A(v) if g.chance(.5) else O((g.pick("abc"), v))
    return O(("d", v))


def c03(ctx, g, n):
    pools = (PLAIN, CAMEL, ODD)
    for i in range(n):
        k = i % 8
        cfg = new_cfg(cs=g.chance(.2))
        run = R()
        if k == 6:
            ls = [g.line(deep(g, g.r.randrange(3, 60))) for _ in range(g.sized(1, 4))]
            if i % 120 == 6:
                ls = [g.line(O(("long" + "g" * g.r.randrange(1000, 3000), O(("p" * 2500, S("v")), ("q" * 2600, O(("r", N("1"))))))))]
        elif k == 7:
            ls = [g.line(O(("s", S(g.pick(["x", "é", "\"", "\\", "日"]) * g.r.randrange(1000, 90000))), ("n", N("1" * g.r.randrange(1, 400))),
                           ("a", A(*[N(j) for j in range(g.r.randrange(99))])), ("z", S("end")))) for _ in range(g.sized(1, 3))]
        else:
            sh = g.shape(depth=g.pick([1, 2, 3]), width=g.pick([2, 4, 7]), pools=g.pick([(PLAIN,), (CAMEL, ODD), pools]), kinds="snfbzg")
            ls = g.lines(sh, g.sized(1, 8), style=.6, pdup=.1 if g.chance(.2) else 0)
            if g.chance(.1):
                ls.append(g.line(O(("", S("empty name")), ("o", O(("", N("1")))))))
        if g.chance(.3):
            ls = [dict(l, raw=(l.get("raw") or l["pre"] + text(l["v"]))) for l in ls]
        run.crlf = g.chance(.1)
        run.eol = g.chance(.7)
        run.form = g.pick(["file"])
        yield one(split(g, ls), cfg, [run])


# --- C04 ---------------------------------------------------------------------
def c04(ctx, g, n):
    pools = (PLAIN, CAMEL)
    for i in range(n):
        sh = g.shape(depth=2, pools=pools, kinds="snfb")
        good = g.lines(sh, g.sized(2, 8))
        ls = []
        cfg = new_cfg()
        if i % 4 == 0:  # one line cut at every place
            t = text(g.pick(good)["v"])
            cuts = list(range(1, len(t)))
            g.r.shuffle(cuts)
            ls = list(good)
            for p in cuts[:60]:
                x = t[:p]
                ls.insert(g.r.randrange(1, len(ls) + 1), {"pre": "", "raw": x})
        else:
            for l in good:
                ls.append(l)
                while g.chance(.5):
                    ls.append(g.pick([g.damaged, g.damaged, g.damaged, lambda v: g.nojson(), lambda v: lax(g, v)])(g.pick(good)["v"]))
            if g.chance(.2):
                ls.insert(0, g.pick([g.damaged(good[0]["v"]), g.nojson()]))
        if i % 8 == 7:
            cfg["include"] = [g.pick(all_paths([good]) or [".a"])]
        outs = g.pick([("csv",), ("csv",), ("csv", "raw"), ("sqlite",), ("pg",)])
        runs = [R(outs=outs)]
        if g.chance(.5):
            runs.append(R("c", outs=("csv",), conc=g.pick([2, 8, 0]), show=("flat",)))
        for r in runs:
            r.verbosity = g.pick(["0", "0", "2"])
        yield one(split(g, ls), cfg, runs)


def lax(g, v):
    """A number that can not be used after values that other lines have."""
    if not v[1]:
        return {"pre": "", "raw": "{\""}
    k = g.r.randrange(len(v[1]) + 1)
    bad = g.pick(["1.2.3", "1e", "1e+", "--1", "1-2", "1e5e5", "-e"])
    ms = list(v[1][:k]) + [(g.pick(["zz", v[1][0][0]]) if k == 0 else "zz", ("bad", bad))] + list(v[1][k:])
    return {"pre": "", "v": O(*ms), "raw": text(O(*ms)), "lax": True}


# --- C05 ---------------------------------------------------------------------
def c05(ctx, g, n):
    for i in range(n):
        sh = g.shape(depth=g.pick([1, 2]), width=4, kinds="snfbz", pmix=.5)
        base = g.lines(sh, g.sized(2, 7), pmiss=.4)
        if i % 5 == 4:  # many lines, the informative ones are rare
            base = [g.line(O(("a", g.pick([N("1"), Z])))) for _ in range(150)]
            for _ in range(4):
                base.insert(g.r.randrange(len(base)), g.line(O(("a", g.scalar("snfb")), ("b%d" % g.r.randrange(3), g.scalar("snfb")))))
        cfg = new_cfg(skipzero=g.chance(.2), cs=g.chance(.1))
        for perm in range(2):
            ls = list(base)
            if perm:
                g.r.shuffle(ls)
            runs = [R("one", outs=("csv", "sqlite", "pg"), show=("info", "flat"))]
            runs += [R("c%d" % j, prog=ctx.prog(g.pick(["", "yield"])), outs=g.pick([("csv",), ("csv", "sqlite"), ("csv", "pg")]), conc=g.pick([2, 3, 8, 0]), show=("info", "flat"))
                     for j in range(2)]
            yield one(split(g, ls), cfg, runs)


# --- C06 ---------------------------------------------------------------------
def key_rx(g, keys):
    k = g.pick(keys or [".a"])
    segs = k[1:].split(".")
    x = g.r.randrange(8)
    if x < 3:
        for j in range(len(segs)):
            if g.chance(.4) or (x == 0 and j == len(segs) - 1):
                segs[j] = "*" if not segs[j].startswith("[") or g.chance(.5) else segs[j]
        p = "." + ".".join(segs)
        if any(c in p for c in "+?()|\\^$"):
            p = ".*"
        return rx.starpat(p)
    if x == 3:
        return rx.final(rx.cat(rx.BOL, rx.lit("." + segs[0])))
    if x == 4:
        return rx.final(rx.cat(rx.lit(segs[-1][-2:] or "a"), rx.EOL))
    if x == 5:
        return rx.final(rx.lit(segs[-1] if segs[-1] and segs[-1][0] != "." else "a"))
    if x == 6:
        return rx.final(rx.cat(rx.BOL, rx.lit("."), rx.plus(rx.word()), rx.EOL))
    return rx.final(rx.cat(rx.BOL, rx.lit("."), rx.alt(segs[0] or "a", "id", "foo"), rx.star(rx.anyc()), rx.EOL))


def c06(ctx, g, n):
    for i in range(n):
        sh = g.shape(depth=g.pick([1, 2]), width=5, pools=(PLAIN, CAMEL))
        files = split(g, g.lines(sh, g.sized(1, 6)))
        keys = all_paths(files)
        cfg = new_cfg(cs=g.chance(.2))
        consts = ["const:", "const:x", "const:v 1", "const:a,b", "const:\"q\"", "const:const:y", "const:.a", "const:0"]
        if g.chance(.6):
            m = g.r.randrange(1, 5)
            ks = g.r.sample(keys, min(m, len(keys)))
            if g.chance(.2):
                ks.append(".not.there")
            if g.chance(.4):
                ks += g.r.sample(consts, g.r.randrange(1, 3))
            if g.chance(.1) and ks:
                ks.append(ks[0])
            g.r.shuffle(ks)
            cfg["include"] = ks
        if g.chance(.5):
            cfg["includeRx"] = [key_rx(g, keys) for _ in range(g.r.randrange(1, 3))]
        if g.chance(.5):
            cfg["exclude"] = g.r.sample(keys, min(len(keys), g.r.randrange(1, 4)))
            if g.chance(.2) and cfg["include"]:
                cfg["exclude"].append(cfg["include"][0])
            if g.chance(.2) and not cfg["cs"]:
                cfg["exclude"] = [k.upper() if k.isascii() else k for k in cfg["exclude"]]
            if g.chance(.1):
                cfg["exclude"].append("const:x")
        if g.chance(.3):
            cfg["excludeRx"] = [key_rx(g, keys) for _ in range(g.r.randrange(1, 3))]
        if not cfg["cs"] and any(k.lower() == x.lower() and k != x for k in cfg["include"] for x in keys):
            continue
        run = R(outs=g.pick([("csv",), ("csv", "sqlite")]), form=g.pick(["file", "inline", "yaml"]))
        runs = [run]
        if g.chance(.3):
            runs.append(R("c", outs=("csv",), conc=g.pick([4, 0]), show=("flat",)))
        yield one(files, cfg, runs, getkey=g.chance(.2))


def c06_small():
    """All selections by lists over three keys and one constant."""
    ls = [{"pre": "", "v": O(("a", N("1")), ("b", O(("c", S("x")))))}, {"pre": "", "v": O(("d", B(True)), ("a", N("2")))}]
    ks = [".a", ".b.c", ".d", "const:v"]
    for m in range(0, 4):
        for inc in itertools.permutations(ks, m):
            for exc in [[], [".a"], [".d", ".b.c"]]:
                for irx in [[], [rx.starpat(".*")], [rx.final(rx.cat(rx.BOL, rx.lit(".b")))]]:
                    yield one([ls], new_cfg(include=list(inc), exclude=exc, includeRx=irx))
    # Characters of a key pattern that mean something to a regular expression: a dot, brackets and braces stand for themselves.
    ls = [{"pre": "", "v": O(("{x}", A(O(("b", N("1")), ("xb", N("2"))))), ("x", A(O(("b", N("3"))))), ("{x~", A(O(("b", N("4"))))),
                             ("{x}0", O(("b", N("5")))), ("~x}", A(O(("b", N("6"))))), ("[0]", O(("b", N("7")))))}]
    for p in [".{x}.[0].*", ".*.[0].b", ".*.[0].*", ".{x}.*.b", ".{*}.[0].b", ".{x*.[0].b", ".{x}.[*].b", ".{x}.[0]*", ".*.b", ".[0].*", ".*"]:
        yield one([ls], new_cfg(includeRx=[rx.starpat(p)]))
        yield one([ls], new_cfg(excludeRx=[rx.starpat(p)]))


# --- C07 ---------------------------------------------------------------------
def c07(ctx, g, n):
    for i in range(n):
        sh = g.shape(depth=2, width=4, pools=(PLAIN, CAMEL))
        pdup = g.pick([.1, .3]) if g.chance(.2) else 0
        files = split(g, g.lines(sh, g.sized(1, 5), pmiss=.3, pdup=pdup))
        keys = all_paths(files)
        if not keys:
            continue
        keep = [g.pick(containers(files))] if not pdup and containers(files) and g.chance(.3) else []
        if keep:
            keys = [k for k in keys if not k.startswith(keep[0] + ".")] + keep
        cfg0 = dict(cs=g.chance(.15), seq=g.chance(.2), keep=keep)
        if cfg0["seq"]:
            keys.append("._sequence")
        subs = [[k] for k in g.r.sample(keys, min(4, len(keys)))]
        for _ in range(3):
            s = g.r.sample(keys, g.r.randrange(1, len(keys) + 1))
            subs.append(s)
        subs.append([])
        pre = g.chance(.15)
        for s in subs:
            ls2 = files
            cfg = new_cfg(include=s, **cfg0)
            if s and g.chance(.3):  # the same columns, selected after a scan
                cfg["include"], cfg["includeRx"] = [], [rx.final(rx.cat(rx.BOL, rx.lit(k), rx.EOL)) for k in s]
            if s and g.chance(.15):
                cfg["include"] = s + [g.pick([".no.such.key", s[0] + ".x", s[0] + ".[0].x", ".", ".[]", s[0] + "x"])]
            if s and g.chance(.2):  # other spellings of an index are other keys
                cfg["include"] = [k.replace("[", g.pick(["[0", "[+", "[ ", "[-"])) if g.chance(.5) else k for k in s]
            yield one(ls2, cfg, [R(outs=g.pick([("csv",), ("csv", "raw"), ("csv", "sqlite")]), conc=1),
                                 R("c", outs=("csv",), conc=g.pick([3, 0]), show=("flat",))][:1 if g.chance(.7) else 2], js=bool(keep))


# --- C08 ---------------------------------------------------------------------
def c08(ctx, g, n):
    for i in range(n):
        if i % 30 == 11:  # many groups
            m = g.r.randrange(9, 13)
            ls = [g.line(O(*[("abcdefghijkl"[:m - 1] + x, g.scalar("snfb")) for x in "XYZ" if g.chance(.8)] + [("other", g.scalar("s"))])) for _ in range(3)]
            pat = rx.final(rx.cat(rx.BOL, rx.lit("."), *[rx.grp(rx.word()) for _ in range(m)] + [rx.EOL]))
            yield one([ls], new_cfg(repRx=[(pat, g.pick(["${1}_${%d}" % m, "${%d}${1}1" % m, "${%d}" % m]))]), [R(outs=("csv",))])
            continue
        pools = (PLAIN, CAMEL, ODD[:14]) if i % 3 else (["id", "name", "ID_", "0", "_", "[]", "Name ", "é", "-", "12", "UserId", "user_id", "userID"],)
        sh = g.shape(depth=3, width=4, pools=pools, pobj=.45, parr=.15)
        files = split(g, g.lines(sh, g.sized(1, 4)), 1)
        keys = all_paths(files)
        if not keys:
            continue
        cfg = new_cfg(rep=g.chance(.7), cs=g.chance(.2), seq=g.chance(.1))
        used = set()
        if g.chance(.4):
            for k in g.r.sample(keys, min(len(keys), g.r.randrange(1, 4))):
                nm = g.pick(["id", "name", "x", "New Name", "a.b", "0", "user_id", "é", "col", "sub_id"]) + g.pick(["", "", "_1"])
                if nm.lower() not in used:
                    used.add(nm.lower())
                    kk = k.upper() if g.chance(.15) and not cfg["cs"] and k.isascii() else k
                    cfg["repKeys"][kk] = nm
        if g.chance(.4):
            k = g.pick(keys)
            segs = k[1:].split(".")
            if all(c.isalnum() or c in "_-[]" for s in segs for c in s):
                j = g.r.randrange(len(segs))
                x = list(segs)
                x[j] = "*"
                p = "." + ".".join(x)
                t = g.pick(["r_${1}", "${1}", "${1} x", "pre ${1} ${1}", "${1}|to_snake_case", "R ${1}Val|to_snake_case"])
                if any(not any(c.isalnum() and c.isascii() for c in s) for k2 in keys for s in k2[1:].split(".")):
                    t = t.split("|")[0]  # no empty names
                cfg["repRx"] = [(rx.starpat(p), t)]
            elif g.chance(.5):
                cfg["repRx"] = [(rx.final(rx.cat(rx.BOL, rx.lit("."), rx.grp(rx.plus(rx.word())), rx.EOL)), g.pick(["top_${1}", "${1}_T"]))]
        if not names_ok(files, cfg):
            continue
        yield one(files, cfg, [R(outs=g.pick([("csv",), ("csv", "sqlite"), ("csv", "pg")]), form=g.pick(["file", "yaml", "json5", "inline"]), show=g.pick([(), ("info",)]))])


def names_ok(files, cfg):
    """Configured names are not names that other keys have anyway (explicit clashes combine columns, see C09)."""
    taken = set(cfg["repKeys"].values())
    for k in all_paths(files):
        if k in taken:
            return False
    return True


# --- C09 ---------------------------------------------------------------------
def c09_small():
    """All patterns of presence over two and three keys."""
    vals = [None, Z, N("1"), S(""), S("x")]
    for hasconcat in (None, ",", ""):
        ls = []
        for combo in itertools.product(vals, repeat=3):
            ls.append({"pre": "", "v": O(*[("abc"[j], x) for j, x in enumerate(combo) if x is not None])})
        for combo in itertools.product(vals[1:], repeat=2):
            ls.append({"pre": "", "v": O(("b", combo[0]), ("a", combo[1]))})
        yield one([ls], new_cfg(repKeys={".a": "m", ".b": "m", ".c": "m"}, concat=hasconcat), [R(outs=ALL)], delim="|")
        yield one([ls], new_cfg(repKeys={".a": "m", ".c": "m"}, concat=hasconcat), [R(outs=("csv",)), R("c", conc=4, outs=("csv",), show=("flat",))], delim="|")


def c09(ctx, g, n):
    for i in range(n):
        sh = g.shape(depth=2, width=5, pools=(PLAIN,), kinds="snfbz", pmix=.3)
        files = split(g, g.lines(sh, g.sized(2, 8), pmiss=.35))
        keys = all_paths(files)
        if len(keys) < 2:
            continue
        cfg = new_cfg(concat=g.pick([None, None, ",", "; ", "", "|é|"]))
        if g.chance(.75):
            ks = g.r.sample(keys, min(len(keys), g.r.randrange(2, 6)))
            names = ["m"] if g.chance(.6) else ["m", "k", "l"]
            for k in ks:
                cfg["repKeys"][k] = g.pick(names)
        else:
            arr = [k for k in keys if "[" in k]
            if not arr:
                continue
            p = g.pick(arr)
            segs = p[1:].split(".")
            segs = ["*" if s.startswith("[") else s for s in segs]
            cfg["repRx"] = [(rx.starpat("." + ".".join(segs)), g.pick(["all", "all_vals"]))]
        if g.chance(.25):
            cfg["include"] = g.r.sample(keys, g.r.randrange(2, len(keys) + 1))
        if g.chance(.2):
            cfg["include"] = (cfg["include"] or g.r.sample(keys, 2)) + ["const:K"]
            cfg["repKeys"]["const:K"] = g.pick(["kk", "m"])
            if g.chance(.5):
                cfg["include"].insert(0, cfg["include"].pop())
        if g.chance(.25):  # merge some arrays of different sizes in many lines
            pass
        runs = [R(outs=g.pick([("csv",), ("csv", "sqlite"), ("csv", "pg"), ALL]), form=g.pick(["file", "json5", "yaml"]))]
        if g.chance(.3):
            runs.append(R("c", outs=("csv",), conc=g.pick([2, 0]), show=("flat",)))
        yield one(files, cfg, runs, delim="|")


# --- C10 ---------------------------------------------------------------------
def tdoc(g, conts, maxn):
    """Documents with array and object containers of scalars or objects under the names conts."""
    ms = []
    for nm, kind, elem in conts:
        if g.chance(.2):
            continue
        m = g.r.randrange(0, maxn + 1)
        es = []
        for _ in range(m):
            if elem == "s":
                es.append(g.scalar("snfbz"))
            elif elem == "o":
                es.append(O(*[(k, g.scalar("snfbz")) for k in ("x", "y", "Zed") if g.chance(.7)]))
            else:
                es.append(g.pick([g.scalar("sn"), O(("x", g.scalar("snb")), ("in", O(("q", g.scalar("sn"))))), A(g.scalar("n"), g.scalar("s"))]))
        if kind == "a":
            v = A(*es)
        elif kind == "o":
            v = O(*[(k, e) for k, e in zip(g.r.sample(["k1", "k2", "Key", "k 4", "10", "é"], min(6, m)), es)])
        else:
            v = A(*es) if g.chance(.5) else O(*[(k, e) for k, e in zip(["k1", "k2", "k3", "k4"], es)])
        ms.append((nm, v))
    return ms


def c10(ctx, g, n):
    for i in range(n):
        if i % 60 == 13:  # many elements
            m = g.pick([258, 300])
            ls = [g.line(O(("id", N(j)), ("arr", A(*[g.pick([N(x), S("e%d" % x)]) for x in range(k)])))) for j, k in enumerate([2, m])]
            yield one([ls], new_cfg(children=0, transpose={".arr": "arr"}), [R(outs=g.pick([("csv", "sqlite"), ("csv", "pg")]))])
            continue
        names = g.names(g.r.randrange(1, 4), (["arr", "obj", "items", "tags", "evs", "rows"],))
        conts = [(nm, g.pick(["a", "a", "o", "o", "m"]), g.pick("soom")) for nm in names]
        nest = g.chance(.25)
        ls = []
        for _ in range(g.sized(1, 8)):
            ms = tdoc(g, conts, g.pick([1, 3, 4, 12]))
            if nest:
                ms = [("deep", O(*ms))]
            ms += [(k, g.scalar("snfb")) for k in ("id", "note") if g.chance(.8)]
            if g.chance(.3):
                g.r.shuffle(ms)
            ls.append(g.line(O(*ms), .2))
        cfg = new_cfg(cs=g.chance(.15), seq=g.chance(.2))
        pre = ".deep" if nest else ""
        two = g.chance(.25)
        for nm, kind, elem in conts:
            if g.chance(.85):
                cfg["transpose"][pre + "." + nm] = "all" if two else g.pick([nm, nm, "t_" + nm])
        if not cfg["transpose"]:
            continue
        if g.chance(.1):
            cfg["transpose"][".nothing"] = "none"
        if nest and g.chance(.2):
            cfg["transpose"][".deep"] = "deep"
        if g.chance(.15):
            cfg["repRx"] = [(rx.starpat("._value"), "val")]
        files = split(g, ls)
        keys = all_paths(files)
        if g.chance(.25) and keys:
            cfg["exclude"] = [g.pick(keys)]
        if g.chance(.15) and keys:
            cfg["include"] = g.r.sample(keys, g.r.randrange(1, len(keys) + 1))
        if g.chance(.2):
            cfg["sqlcols"] = g.pick([3, 4, 5])
        if not trim_ok(cfg, keys):
            continue
        outs = g.pick([("csv",), ("csv", "raw"), ("csv", "sqlite"), ("csv", "pg"), ALL, ALL])
        runs = [R(outs=outs)]
        if g.chance(.35):
            runs.append(R("c", prog=ctx.prog(g.pick(["", "yield"])), outs=g.pick([("csv",), ("csv", "sqlite")]), conc=g.pick([2, 8, 0]), show=("flat",)))
        yield one(files, cfg, runs, delim=g.pick([";", "|"]), table=g.pick(["flatjsonl", "flatjsonl", "t", "my table"]))


def trim_ok(cfg, keys):
    """Prefixes apply at boundaries of segments only, and a key has no spelling under two names of one child column."""
    for p in cfg["transpose"]:
        for k in keys:
            if k.startswith(p) and len(k) > len(p) and k[len(p)] != ".":
                return False
    return True


def c10_small():
    """All child tables of one array or object with up to two elements over two kinds of elements."""
    el = [None, N("1"), S(""), Z, O(("x", N("2"))), O(("x", Z), ("y", S("s"))), O(), A(N("3"))]
    for a, b in itertools.product(el, el):
        if a is None and b is not None:
            continue
        es = [x for x in (a, b) if x is not None]
        ls = [{"pre": "", "v": O(("id", S("one")), ("t", A(*es)))}, {"pre": "", "v": O(("t", O(*[("k%d" % j, x) for j, x in enumerate(es)])))},
              {"pre": "", "v": O(("id", S("two")))}, {"pre": "", "v": O(("t", A(N("9"))), ("id", S("three")))}]
        yield one([ls], new_cfg(transpose={".t": "kid"}), [R(outs=("csv", "sqlite"))])


# --- C11 ---------------------------------------------------------------------
def c11(ctx, g, n):
    for i in range(n):
        lim = g.pick([1, 2, 3, 3, 5, 100])
        big = lim == 100
        nl = g.r.randrange(2, 4) if big else g.sized(2, 12)
        cn = g.names(1 if big else g.r.randrange(1, 4), (["m", "mm", "big", "big2", "data"],))
        sizes = {c: g.r.randrange(max(1, lim - 1), lim + 3) for c in cn}
        univ = {c: ["k%d" % j for j in range(sizes[c])] for c in cn}
        arrs = {c: g.chance(.3) for c in cn}
        nested = g.chance(.3) and not big
        ls = []
        for j in range(nl):
            ms = []
            for c in cn:
                if g.chance(.2):
                    continue
                if arrs[c]:
                    v = A(*[g.scalar("snb") for _ in range(g.r.randrange(0, sizes[c] + 1))])
                else:
                    ks = g.r.sample(univ[c], min(len(univ[c]), g.r.randrange(lim // 2 if big else 0, min(lim + 2, sizes[c]) + 1)))
                    v = O(*[(k, g.scalar("snbz") if big else g.pick([g.scalar("snbz"), g.scalar("snbz"), O(("z", N("1")), ("y", S("t")))])) for k in ks])
                if nested and g.chance(.5):
                    v = O(("in", v), ("out", g.scalar("s")))
                ms.append((c, v))
            if g.chance(.8):
                ms.append(("id", N(j)))
            ls.append(g.line(O(*ms), .2))
        cfg = new_cfg(children=lim, cs=g.chance(.1))
        if g.chance(.25):
            c = g.pick(cn)
            cfg["allow"] = [g.pick(["." + c, "." + c + ".in"])]
        if lim >= 3 and len(set(k for l in ls for k, _ in l["v"][1])) > 100:
            continue
        for perm in range(g.pick([1, 2])):
            if perm:
                g.r.shuffle(ls)
            runs = [R(outs=g.pick([("csv",), ("csv", "sqlite"), ("csv", "pg")]), show=("flat", "info"))]
            runs += [R("c", prog=ctx.prog(g.pick(["", "yield"])), outs=("csv",), conc=g.pick([2, 4, 0]), show=("flat", "info"))]
            yield one(split(g, list(ls)), cfg, runs, js=True)


def c11_default(ctx, g):
    """Around the default limit."""
    for m in (99, 100, 101, 102, 130):
        for arr in (False, True):
            ls = []
            for j in range(0, m, 20):
                v = A(*[N(x) for x in range(min(m, j + 20))]) if arr else O(*[("k%d" % x, N(x)) for x in range(j, min(m, j + 20))])
                ls.append({"pre": "", "v": O(("id", N(j)), ("c", v))})
            yield one([ls], new_cfg(children=100), [R(outs=("csv",)), R("c", outs=("csv",), conc=4, show=("flat",))], js=True)


# --- C12 ---------------------------------------------------------------------
def c12(ctx, g, n):
    for i in range(n):
        sh = g.shape(depth=3, width=4, pools=(PLAIN, ODD) if i % 2 else (PLAIN, CAMEL), pobj=.4, parr=.3, kinds="snfbzg")
        ls = g.lines(sh, g.sized(1, 6), style=.5)
        files = split(g, ls)
        cs = containers(files)
        if not cs:
            continue
        cfg = new_cfg(keep=g.r.sample(cs, min(len(cs), g.r.randrange(1, 4))), cs=g.chance(.3))
        if g.chance(.1):
            cfg["keep"].append(".not.there")
        if g.chance(.2):
            cfg["include"] = list(dict.fromkeys(cfg["keep"][:1] + g.r.sample(all_paths(files), min(2, len(all_paths(files))))))
            cfg["include"] = [k for k in cfg["include"] if not any(k.startswith(x + ".") for x in cfg["keep"])]
        runs = [R(outs=g.pick([("csv",), ("csv", "sqlite"), ("csv", "pg"), ALL]), form=g.pick(["file", "yaml", "inline"]))]
        if g.chance(.3):
            runs.append(R("c", outs=("csv",), conc=g.pick([4, 0]), show=("flat",)))
        yield one(files, cfg, runs, js=True, delim="|")


# --- C13 ---------------------------------------------------------------------
def c13_small():
    for nl in ([1], [3], [2, 3], [3, 1, 2]):
        k = 0
        files = []
        for m in nl:
            f = []
            for _ in range(m):
                f.append({"pre": "", "v": O(("n", N(k)), ("k%d" % (k % 4), S("v%d" % k)))})
                k += 1
            files.append(f)
        for o, m in itertools.product(range(0, 5), range(0, 5)):
            for mk in (0, 1, 2, 4):
                cfg = new_cfg(offset=o, max=m, maxkeys=mk, seq=(o + m) % 2 == 1)
                yield one(files, cfg, [R(outs=("csv",), show=("flat",))])
            for inc in ([".n"], [".n", ".k1"]):
                yield one(files, new_cfg(offset=o, max=m, include=inc), [R(outs=("csv", "sqlite") if m == 1 else ("csv",), conc=1)])


def c13(ctx, g, n):
    for i in range(n):
        sh = g.shape(depth=1, width=4, kinds="snfb")
        files = split(g, g.lines(sh, g.sized(2, 30), pmiss=.5))
        m = max(len(f) for f in files)
        cfg = new_cfg(offset=g.r.randrange(0, m + 2), max=g.r.randrange(0, m + 2), maxkeys=g.pick([0, 0, g.r.randrange(0, m + 2)]), seq=g.chance(.3), skipzero=g.chance(.1))
        if g.chance(.15):  # limits far beyond any input
            big = [2 ** 31 - 1, 2 ** 31, 2 ** 32 + 1, 10 ** 12, 2 ** 53, 2 ** 63 - 2, 2 ** 63 - 1]
            for k in ("offset", "max", "maxkeys"):
                if g.chance(.6 if k != "offset" else .2):
                    cfg[k] = g.pick(big)
        if g.chance(.2) and all_paths(files):
            cfg["include"] = g.r.sample(all_paths(files), 1)
        if g.chance(.3):
            for f in files:
                for l in f:
                    if g.chance(.2):
                        d = g.nojson() if g.chance(.5) else g.damaged(l.get("v", O()))
                        l.clear()
                        l.update(d)
        runs = [R(outs=g.pick([("csv",), ("raw", "csv"), ("sqlite",) if cfg["maxkeys"] == 0 else ("csv",), ("pg",)]), show=("flat",), icomp=g.pick(["", "", "gz"]), eol=g.chance(.8))]
        if g.chance(.4):
            runs.append(R("c", outs=("csv",), conc=g.pick([2, 4, 0]), show=("flat",)))
        yield one(files, cfg, runs)


# --- C14 ---------------------------------------------------------------------
def c14(ctx, g, n):
    pools = (PLAIN, CAMEL, ODD)
    for i in range(n):
        sh = g.shape(depth=2, width=5, pools=pools, kinds="ssnfbzg", pmix=.3)
        ls = g.lines(sh, g.sized(1, 10), style=.5)
        if g.chance(.1):
            ls.append(g.line(O(("z\u0000z" if False else "nul", S("a\u0001b")))))
        cfg = new_cfg(sqlcols=g.pick([500, 500, 3, 4]), seq=g.chance(.2))
        arr = sorted({k.split(".[")[0] for k in all_paths([ls]) if ".[" in k})
        if g.chance(.3) and arr:
            cfg["transpose"] = {g.pick(arr): "kid"}
            if not trim_ok(cfg, all_paths([ls])):
                cfg["transpose"] = {}
        if g.chance(.15):  # longer than buffers of the writers
            n = g.pick([4000, 4090, 4096, 5000, 8192, 20000, 66000]) + g.r.randrange(9)
            ls.append(g.line(O(("Qlong", S((g.string() + g.pick(["x", "é", "q\"", ",\n"]) * n)[:n])), ("Qafter", S("w")), *[("Qarr", A(S("z" * n), N("1")))][:g.r.randrange(2)]), 0))
        runs = [R("all", outs=ALL)] + [R(o, outs=(o,)) for o in g.r.sample(ALL, g.pick([1, 2]))]
        yield one([ls], cfg, runs, delim=g.pick(["", ",", ";", "\t", "||", "é"]), table=g.pick(["flatjsonl", "t1", "my \"t\"", "Tab le", "select", "it's", "a;b--", "$x", "t.u", "\\t"]))


def c14_chars():
    """Every character of interest in values and names."""
    chars = [chr(c) for c in range(1, 0x30)] + list("\"'`\\,;:[]{}|~") + ["\u007f", "\u0080", "\u00a0", "é", "\u2028", "\u2029", "\ufeff", "\ufffd", "日", "😀"]
    for k in range(0, len(chars), 12):
        ls = []
        for c in chars[k:k + 12]:
            for t in (c, "a" + c + "b", c + c, "x" + c):
                ls.append({"pre": "", "v": O(("s", S(t)), ("t", S("end")))})
        yield one([ls], new_cfg(), [R("all", outs=ALL)], delim="|")
    names = [c for c in chars if c not in "\n\r." and ord(c) > 31]
    for k in range(0, len(names), 10):
        yield one([[{"pre": "", "v": O(*[("n" + c, S("v" + c)) for c in names[k:k + 10]])}]], new_cfg(cs=True), [R("all", outs=ALL)], delim="|")


# --- C15 ---------------------------------------------------------------------
def c15_small(full):
    for k in range(0, 14 if full else 11):
        for lim in range(3, 9 if full else 7):
            ls = [{"pre": "", "v": O(*[("c%d" % j, g) for j, g in enumerate([S("r%d" % r) if (j + r) % 3 else N(j) for j in range(k)]) if (j + r) % 5 or r == 0])}
                  for r in range(3)]
            yield one([ls], new_cfg(sqlcols=lim), [R(outs=("csv", "sqlite", "pg"))])
    for k in range(1, 9):
        for lim in range(3, 7):
            ls = [{"pre": "", "v": O(("id", S("i")), ("t", A(*[O(*[("c%d" % j, N(10 * r + j)) for j in range(k)]) for r in range(2)])))}]
            yield one([ls], new_cfg(sqlcols=lim, transpose={".t": "kid"}), [R(outs=("csv", "sqlite", "pg"))])


def c15(ctx, g, n):
    for i in range(n):
        wide = i % 6 == 0
        k = g.r.randrange(480, 1100) if wide else g.r.randrange(5, 60)
        lim = g.pick([500, 500, 0]) if wide else g.pick([3, 4, 7, 10, 20, 21, 50, 0])
        fs = [("c%d" % j, g.pick("snb")) for j in range(k)]
        ls = [g.line(O(*[(a, g.scalar(b)) for a, b in fs if g.chance(.9)]), 0) for _ in range(g.r.randrange(1, 4))]
        cfg = new_cfg(sqlcols=lim)
        if g.chance(.4) and not wide:
            ls = [dict(l, v=O(*l["v"][1], ("t", A(*[O(*[("x%d" % j, g.scalar("sn")) for j in range(g.r.randrange(1, 25))]) for _ in range(2)])))) for l in ls]
            for l in ls:
                l.pop("raw", None)
            cfg["transpose"] = {".t": "kid"}
        yield one([ls], cfg, [R(outs=g.pick([("csv", "sqlite", "pg"), ("sqlite",), ("pg",)]))], table=g.pick(["flatjsonl", "w"]))


# --- C16 ---------------------------------------------------------------------
def c16(ctx, g, n):
    pools = (PLAIN, CAMEL, ODD)
    for i in range(n):
        sh = g.shape(depth=2, width=5, pools=pools, kinds="ssnfbz")
        ls = g.lines(sh, g.sized(1, 25), style=.4)
        cfg = new_cfg(sqlcols=g.pick([500, 500, 3, 5]), seq=g.chance(.2), rep=g.chance(.1))
        arr = sorted({k.split(".[")[0] for k in all_paths([ls]) if ".[" in k})
        if g.chance(.4) and arr:
            cfg["transpose"] = {g.pick(arr): "kid"}
            if not trim_ok(cfg, all_paths([ls])):
                cfg["transpose"] = {}
        if g.chance(.2):
            cfg["include"] = (g.r.sample(all_paths([ls]), 1) if all_paths([ls]) else []) + [".none", "const:q"]
            cfg["transpose"] = {}
        yield one(split(g, ls), cfg, [R(outs=("pg",), ocomp=g.pick(["", "", "", "gz"]))], table=g.pick(["flatjsonl", "t1", "my \"t\"", "it's", "a;b--", "$x$", "t.u", "\\t"]))


def c16_rows(full):
    for m in ((9999, 10000, 10001, 20001) if full else (10001,)):
        ls = [{"pre": "", "v": O(("n", N(j)), ("s", S("%d\n" % j if j % 7 == 0 else "\\." if j % 5 == 0 else "t")))} for j in range(m)]
        yield one([ls], new_cfg(), [R(outs=("pg",), conc=1)])


# --- C17 ---------------------------------------------------------------------
def c17(ctx, g, n):
    for i in range(n):
        big = i % 5 == 4
        sh = g.shape(depth=2, width=4, pools=(PLAIN, CAMEL, ODD))
        ls = numbered(g, 150, .05) if big else g.lines(sh, g.sized(2, 12))
        if big:
            ls[3] = g.line(O(("s", S("".join(g.pick("abcdefgh0123") for _ in range(g.r.randrange(100000, 300000)))))), 0)
        cfg = new_cfg(children=g.pick([0, 100]))
        if g.chance(.2):
            cfg["include"] = g.r.sample(all_paths([ls]), 1) if all_paths([ls]) else []
        if g.chance(.2):
            cfg["transpose"] = {".arr": "kid"}
            ls = ls + [g.line(O(("arr", A(N("1"), N("2")))))]
            if not trim_ok(cfg, all_paths([ls])):
                cfg["transpose"] = {}
        again = not big and g.chance(.25)
        if again:
            half = ls[:len(ls) // 2] + ls[len(ls) // 2 + 1:] if g.chance(.5) else ls
            first, ls = half, half + half + (half if g.chance(.2) else [])
        window = not again and g.chance(.15)
        if window:  # up to nothing at all
            cfg["offset"], cfg["max"] = g.pick([0, 1, len(ls) // 2, len(ls) - 1, len(ls), len(ls) + 3]), g.pick([0, 1, 2])
        runs = [R("plain", outs=TEXTY)]
        for j, (ic, oc) in enumerate(g.r.sample(list(itertools.product(["", "gz", "gz2", "zst"], ["", "gz", "zst"])), 3)):
            runs.append(R("v%d" % j, outs=g.pick([("csv",), ("raw", "csv"), ("csv", "pg")]), icomp=ic, ocomp=oc, files=[ls] if window else [first] * (len(ls) // len(first)) if again and g.chance(.7) else split(g, ls, g.pick([1, 2, 3])),
                          inputs=g.pick(["args", "flag", "mixed"]), naming=g.pick([0, 0, 1, 3]), eol=g.chance(.7), crlf=g.chance(.1) and not any("\r" in l["pre"] for l in ls)))
        yield one([ls], cfg, runs, delim="|")


# --- C19 ---------------------------------------------------------------------
def c19_small():
    """Every combination of up to three kinds of values in one column."""
    vs = [Z, S("s"), S("1"), N("1"), N("1.5"), N("1.0"), N("1e3"), N("9223372036854775807"), N("9223372036854775808"), B(True), A(), O(), S("")]
    for m in (1, 2):
        for combo in itertools.product(vs, repeat=m):
            ls = [{"pre": "", "v": O(("k", x), ("e", N("1")))} for x in combo]
            yield one([ls], new_cfg(), [R(outs=("sqlite", "pg"))])
    # Child tables of containers that are arrays in some lines and objects in others, and of both kinds with one destination.
    conts = [A(N(1)), A(S("x"), N(2)), O(("p", N(3))), O(("q", B(True)), ("p", Z)), A(O(("x", N(1))))]
    for a, b in itertools.product(conts, repeat=2):
        for dst in ({".t": "kid"}, {".t": "kid", ".u": "kid"}):
            k2 = "t" if len(dst) == 1 else "u"
            yield one([[{"pre": "", "v": O(("t", a))}, {"pre": "", "v": O((k2, b))}]], new_cfg(transpose=dst), [R(outs=("sqlite", "pg"))])
    # Columns of a key with a time format (see known-findings.txt).
    for v in (S("2021-02-03T04:05:06Z"), S("soon"), Z, N("1")):
        cfg = new_cfg()
        cfg["ptime"][".k"] = LAYOUTS[0]
        yield one([[{"pre": "", "v": O(("k", x), ("e", N("1")))} for x in (v, S("later"))]], cfg, [R(outs=("sqlite", "pg"))])


def c19(ctx, g, n):
    for i in range(n):
        sh = g.shape(depth=2, width=4, kinds="snfbzg", pmix=.6)
        ls = g.lines(sh, g.sized(1, 9))
        cfg = new_cfg(cs=g.chance(.1))
        keys = all_paths([ls])
        k = i % 4
        if k == 1 and len(keys) > 1:
            for x in g.r.sample(keys, 2):
                cfg["repKeys"][x] = "m"
            cfg["concat"] = g.pick([None, ",", ""])
        elif k == 2:
            arr = sorted({x.split(".[")[0] for x in keys if ".[" in x})
            if arr:
                cfg["transpose"] = {g.pick(arr): "kid"}
                if not trim_ok(cfg, keys):
                    continue
        elif k == 3:
            cfg["keep"] = g.r.sample(containers([ls]), 1) if containers([ls]) else []
            cfg["seq"] = True
        yield one(split(g, ls), cfg, [R(outs=("sqlite", "pg")), R("c", outs=("sqlite", "pg"), conc=g.pick([2, 0]), show=("flat",))][:g.pick([1, 1, 2])], js=bool(cfg["keep"]))


# --- C20 ---------------------------------------------------------------------
ZEROS = [Z, S(""), N("0"), B(False), N("0.0"), N("0e5"), N("-0")]
NONZ = [S("0"), S(" "), N("1"), B(True), N("0.001"), N("1e-9"), S("false"), N("-1")]


def c20_small():
    zs, ns = ZEROS[:5], NONZ[:4]
    for a, b in itertools.product([None] + zs + ns, repeat=2):
        ls = [{"pre": "", "v": O(*([("k", x)] if x is not None else []), ("id", N("5")))} for x in (a, b, None)]
        yield one([ls], new_cfg(skipzero=True), [R(outs=("csv",))])


def c20(ctx, g, n):
    for i in range(n):
        names = g.names(g.r.randrange(2, 7), (PLAIN, CAMEL))
        pz = {k: g.pick([0, .7, .95, 1, 1]) for k in names}
        nest = {k: g.chance(.3) for k in names}
        kinds = {k: (g.r.sample(ZEROS, 2), g.r.sample(NONZ, 2)) for k in names}
        ls = []
        for j in range(g.sized(1, 12)):
            ms = []
            for k in names:
                if g.chance(.2):
                    continue
                v = g.pick(kinds[k][0] if g.chance(pz[k]) else kinds[k][1])
                ms.append((k, g.pick([O(("in", v)), A(v, v), A(), O()]) if nest[k] else v))
            ls.append(g.line(O(*ms)))
        cfg = new_cfg(skipzero=True, cs=g.chance(.1))
        if g.chance(.1):
            cfg["exclude"] = ["." + names[0]]
        if g.chance(.1):
            cfg["includeRx"] = [rx.starpat(".*")]
        if g.chance(.15) and not cfg["cs"]:  # variants of a name: zero only if all of them are
            k = names[0]
            ls.append(g.line(O((k.upper(), g.pick(ZEROS + NONZ)))))
            ls.append(g.line(O((k.lower(), g.pick(ZEROS)))))
        runs = [R(outs=g.pick([("csv",), ("csv", "sqlite")]))]
        runs += [R("c", prog=ctx.prog(g.pick(["", "yield"])), outs=("csv",), conc=g.pick([2, 4, 0]), show=("flat",))]
        yield one(split(g, ls), cfg, runs)


# --- C21 ---------------------------------------------------------------------
def urls(g):
    sch = g.pick(["http", "https", "ftp", "HTTPS", "a+b"])
    host = g.pick(["example.com", "127.0.0.1", "a.b.c", "xn--e1afmkfd.com", "localhost", "", "", "[::1]", "[2001:db8::5]", "Exa-mple.COM", "bücher.example"])
    port = g.pick(["", "", "8080"]) if host else ""
    user, pw = ("", None)
    if host and g.chance(.2):
        user = g.pick(["bob", "bob", "b%40b", "%D1%8E"])
        pw = g.pick([None, "pw", "p%3Aw", "x1", ""])
    segs = [g.pick(["foo", "bar", "x%20y", "é", "a.b", "2024", "c-d_e", "%25", "a+b", "a;b", "@x:1"]) for _ in range(g.r.randrange(0, 4))]
    q = [(g.pick(["a", "b", "q[]", "Name", "c.d" if False else "cd"]), g.pick(["1", "", "two words", "x=y", "é", "http://in.ner/p", "{\"z\":1}"])) for _ in range(g.r.randrange(0, 4))]
    if len(segs) > 1 and g.chance(.1):
        segs.insert(1, "")
    frag = g.pick(["", "", "top", "sec%201", "a/b?c", "é"])
    from urllib.parse import quote, unquote
    t = sch + "://"
    if user:
        t += user + (":" + pw if pw is not None else "") + "@"
    t += host + (":" + port if port else "")
    if segs:
        t += "/" + "/".join(segs) + g.pick(["", "/"])
    if q:
        t += "?" + "&".join(quote(k, safe="") + "=" + quote(v, safe="").replace("%20", g.pick(["+", "%20"])) for k, v in q)
    if frag:
        t += "#" + frag
    ms = [("scheme", S(sch.lower()))]
    if user:
        ms.append(("user", S(unquote(user))))
    if pw:
        ms.append(("pass", S(unquote(pw))))
    if host:
        ms.append(("host", S(host.strip("[]"))))
    if port:
        ms.append(("port", S(port)))
    if q:
        by = {}
        for k, v in q:
            by.setdefault(k, []).append(v)
        ms.append(("query", O(*[(k, A(*[annot(g, v) for v in by[k]])) for k in sorted(by)])))
    ms.append(("path", A(*[S(unquote(s)) for s in (segs or [""])])))
    if frag:
        ms.append(("fragment", S(unquote(frag))))
    return S(t, url=O(*ms))


def annot(g, t):
    if t == "{\"z\":1}":
        return S(t, js=O(("z", N("1"))))
    if t == "http://in.ner/p":
        return S(t, url=O(("scheme", S("http")), ("host", S("in.ner")), ("path", A(S("p")))))
    return S(t)


NOT_URL = ["://x", "1a://b", "see http://x y", "http://a b/", "http://h/%zz", "plain", "{x}", "[1", "{\"a\":", "{\"a\":1", "{}x://", "[[", "a://", "%zz", "[a]://"]


def embedded(g, depth):
    if g.chance(.4):
        return urls(g)
    if g.chance(.2):
        return S(g.pick([x for x in NOT_URL if x not in ("a://", "{}x://")]))
    v = g.value(depth, ["p", "q", "r", "Key"], 3, "snfb", .5)
    if depth > 0 and g.chance(.3):  # content in content, with values after it
        v = O(("in", embedded(g, depth - 1)), ("p", g.scalar("nb")), ("q", S(g.pick(["after", "x y", "é"]))), *[("in2", embedded(g, 0))][:g.r.randrange(2)], ("r", N("7")))
        return S(text(v, g.r, .2 if g.chance(.3) else 0), js=v)
    if v[0] not in "ao":
        v = O(("v", v)) if g.chance(.5) else A(v)
    v = deepen(g, v, depth)
    return S(text(v, g.r, .2 if g.chance(.3) else 0, .1 if g.chance(.3) else 0), js=v)


def deepen(g, v, depth):
    """Replaces some strings by strings with content; others must not look like content."""
    if v[0] == "s":
        if depth > 0 and g.chance(.3):
            return embedded(g, depth - 1)
        return S(g.pick(["x", "", "ab", "hello world", "12", "é", "[", "{", "[]", "{}", "a/b"])) if v[1][:1] in "{[" or "://" in v[1] else v
    if v[0] == "a":
        return A(*[deepen(g, x, depth) for x in v[1]])
    if v[0] == "o":
        return O(*[(k, deepen(g, x, depth)) for k, x in v[1]])
    return v


def named_js(v):
    """Strings that are scalars in JSON, for keys with a JSON format."""
    return {"12": N("12"), "true": B(True), "null": Z, "\"q\"": S("q"), "-1.5e3": N("-1.5e3")}.get(v)


def c21(ctx, g, n):
    for i in range(n):
        names = g.names(g.r.randrange(1, 5), (PLAIN, ["payload", "link", "Data"]))
        mode = g.pick(["ex", "ex", "rx", "both"])
        fmt = {k: g.pick(["JSON", "URL"]) for k in names}
        ls = []
        for j in range(g.sized(1, 7)):
            ms = []
            for k in names:
                if g.chance(.25):
                    continue
                x = g.r.random()
                if x < .55:
                    v = embedded(g, 2)
                elif x < .7:
                    v = deepen(g, g.value(2, ["p", "q"], 2, "snb"), 1)
                elif x < .8 and mode == "rx" and fmt[k] == "JSON":
                    t = g.pick(["12", "true", "null", "\"q\"", "-1.5e3", "nope", "", "x y"])
                    js = named_js(t)
                    v = S(t, js=js) if js is not None else S(t)
                else:
                    v = g.scalar("nfbz")
                if mode != "ex" and fmt[k] == "JSON" and v[0] == "s" and "js" not in v[2] and "url" not in v[2]:
                    t = v[1].strip()
                    if any(t.lower().startswith(p) for p in ("n", "i", "t", "f", "-", "+", "\"", "{", "[")) or t[:1].isdigit():
                        v = S("%" + v[1])
                if mode != "ex" and fmt[k] == "URL" and v[0] == "s" and "url" not in v[2]:
                    # No URL either: a colon in the first segment of a path.
                    if not (mode == "both" and "js" in v[2] and re.match(r"\{[^/]*:", v[1]) and len(v[1]) > 2):
                        v = S(g.pick(["%zz", "://x", "http://a b/"]))
                ms.append((k, v))
            ls.append(g.line(O(*ms), .2))
        cfg = new_cfg(extract=mode in ("ex", "both"), children=0, cs=g.chance(.3))
        if mode != "ex":
            cfg["xrx"] = [(g.pick([rx.starpat("." + k), rx.final(rx.cat(rx.BOL, rx.lit("." + k), rx.EOL))]), fmt[k]) for k in names if g.chance(.7)]
        if g.chance(.15):
            ps = ["." + k for k in names]
            cfg["include"] = g.r.sample(ps, 1)
        elif g.chance(.15):
            ps = sorted({p for l in ls for p, _, x in paths(l["v"]) if x[0] == "s"})
            if ps:
                cfg["includeRx"] = [rx.final(rx.cat(rx.BOL, rx.lit(g.pick(ps)), rx.star(rx.anyc())))]
        runs = [R(outs=g.pick([("csv",), ("csv", "sqlite"), ("csv", "raw")]), show=("info",) if g.chance(.3) else ())]
        if g.chance(.35):
            runs.append(R("c", outs=("csv",), conc=g.pick([2, 8, 0]), show=("flat",)))
        if any(x[0] == "s" and mode != "ex" and "url" not in x[2] and "js" not in x[2] and False for l in ls for _, _, x in paths(l["v"])):
            continue
        yield one(split(g, ls), cfg, runs, delim="|")


# --- C22 ---------------------------------------------------------------------
def variants(g, k):
    res = {k, k.lower(), k.upper() if k.isascii() else k, k[:1].upper() + k[1:], k.swapcase() if k.isascii() else k}
    return sorted(res)


def c22(ctx, g, n):
    for i in range(n):
        names = g.names(g.r.randrange(1, 4), (["name", "Foo", "userId", "k1", "éa"],))
        vs = {k: variants(g, k) for k in names}
        ls = []
        for j in range(g.sized(2, 9)):
            ms = []
            for k in names:
                for x in g.r.sample(vs[k], g.pick([0, 1, 1, 2, 3]) if len(vs[k]) > 3 else g.pick([0, 1])):
                    ms.append((x, g.pick([g.scalar("snfbz"), g.scalar("snfbz"), O((g.pick(["in", "In", "IN"]), g.scalar("sn"))), A(g.scalar("n"))])))
            ls.append(g.line(O(*ms), .2))
        cfg = new_cfg(cs=g.chance(.4))
        if g.chance(.2):
            cfg["concat"] = g.pick([",", "|"])
        if g.chance(.15):
            cfg["exclude"] = ["." + g.pick(vs[names[0]])]
        files = split(g, ls)
        if g.chance(.2) and cfg["cs"] and all_paths(files):
            cfg["include"] = g.r.sample(all_paths(files), g.r.randrange(1, len(all_paths(files)) + 1))
        if g.chance(.15):
            cfg["repKeys"] = {"." + g.pick(vs[names[0]]): "renamed"}
        # Column names that differ in case only can not be in SQLite.
        runs = [R(outs=("csv", "pg") if g.chance(.3) else ("csv",) if cfg["cs"] else g.pick([("csv",), ("csv", "sqlite")]))]
        if g.chance(.5):
            runs.append(R("c", prog=ctx.prog(g.pick(["", "yield"])), outs=("csv",), conc=g.pick([2, 4, 0]), show=("flat",)))
        yield one(files, cfg, runs)


# --- C23 ---------------------------------------------------------------------
def prefix_pat(g):
    k = g.r.randrange(8)
    if k == 7:  # many groups
        return rx.final(rx.cat(rx.BOL, rx.grp(rx.anyc()), *[rx.grp(rx.opt(rx.anyc())) for _ in range(g.r.randrange(9, 13))]))
    if k == 0:
        return rx.final(rx.cat(rx.BOL, rx.grp(rx.plus(rx.nots(" "))), " "))
    if k == 1:
        return rx.final(rx.grp(rx.plus(rx.digit())))
    if k == 2:
        return rx.final(rx.cat(rx.grp(rx.plus(rx.word())), "=", rx.grp(rx.star(rx.word()))))
    if k == 3:
        return rx.final(rx.cat(rx.BOL, rx.grp(rx.rep(rx.digit(), 4, 4)), "-", rx.grp(rx.rep(rx.digit(), 2, 2)), rx.star(rx.anyc()), " ", rx.grp(rx.alt("INFO", "WARN", "ERR"))))
    if k == 4:
        return rx.final(rx.cat(rx.lit("["), rx.grp(rx.star(rx.nots("]"))), rx.lit("]")))
    if k == 5:
        return rx.final(rx.cat(rx.grp(rx.alt("INFO", "WARN")), rx.opt(rx.cat(":", rx.grp(rx.plus(rx.digit()))))))
    return rx.final(rx.cat(rx.BOL, rx.grp(rx.plus(rx.anyc()))))


def prefix_text(g):
    parts = [g.pick(["2024-01-02T03:04:05", "2024-05 x INFO", "INFO", "WARN:12", "ERR", "host1", "[main]", "[]", "k=v", "a=", "12", "x y", "é", "pid=33 n=4", "\"quo\"", "a,b"])
             for _ in range(g.r.randrange(0, 4))]
    return " ".join(parts) + g.pick(["", " ", ": ", "\t"])


def c23(ctx, g, n):
    for i in range(n):
        sh = g.shape(depth=1, width=3, kinds="snfb")
        ls = []
        for j in range(g.sized(1, 9)):
            v = g.doc(sh)
            x = g.r.random()
            pre = prefix_text(g) if x < .8 else ""
            if pre.startswith("{"):
                pre = "x" + pre
            if g.chance(.15):
                ls.append({"pre": pre})
            elif g.chance(.1):
                d = g.damaged(v)
                ls.append({"pre": pre + d["pre"], "raw": pre + d.get("raw", d["pre"])} if "{" in d.get("raw", "") and pre + d["raw"] != "{" else {"pre": pre})
            else:
                ls.append(g.line(v, .3, pre, g.pick(["", "", " tail", "]", " }"])))
        cfg = new_cfg(prefix=prefix_pat(g) if g.chance(.8) else None, seq=g.chance(.1))
        if g.chance(.2) and cfg["prefix"]:
            cfg["include"] = ["._prefix.[0]"] + g.r.sample(all_paths([ls]), min(1, len(all_paths([ls]))))
        elif g.chance(.15) and all_paths([ls]):
            cfg["include"] = g.r.sample(all_paths([ls]), 1)
        if g.chance(.1) and cfg["prefix"]:
            cfg["repKeys"] = {"._prefix.[0]": "p0"}
        runs = [R(outs=g.pick([("csv",), ("csv", "sqlite"), ("csv", "pg"), ("csv", "raw")]))]
        if g.chance(.3):
            runs.append(R("c", outs=("csv",), conc=g.pick([2, 8, 0]), show=("flat",)))
        yield one(split(g, ls), cfg, runs, prefixInConfig=g.chance(.4), prefixDecoy=g.pick(["", "", "(.)", "^(\\w+)"]), delim="|")


# --- C24 ---------------------------------------------------------------------
def L(*xs):
    fields = {"2006", "01", "1", "Jan", "02", "2", "15", "03", "PM", "04", "05", ".000", ".000000", ".000000000", ".999999999", "Z07:00", "-07:00", "-0700"}
    return [{"f": x} if x in fields else {"l": x} for x in xs]


LAYOUTS = [
    L("2006", "-", "01", "-", "02", "T", "15", ":", "04", ":", "05", "Z07:00"),
    L("2006", "-", "01", "-", "02", " ", "15", ":", "04", ":", "05"),
    L("2006", "/", "01", "/", "02"),
    L("02", "/", "Jan", "/", "2006", ":", "15", ":", "04", ":", "05", " ", "-0700"),
    L("Jan", " ", "2", ", ", "2006", " at ", "03", ":", "04", "PM"),
    L("2006", "-", "01", "-", "02", "T", "15", ":", "04", ":", "05", ".999999999", "Z07:00"),
    L("2006", "-", "01", "-", "02", " ", "15", ":", "04", ":", "05", ".000"),
    L("1", "/", "2", "/", "2006", " ", "15", ":", "04"),
    L("2006", "01", "02", "15", "04", "05"),
    L("15", ":", "04", ":", "05", " ", "02", ".", "01", ".", "2006"),
    L("2006", "-", "01", "-", "02", "T", "15", ":", "04", ":", "05", ".000000", "-07:00"),
    L("01", "/", "02", "/", "2006"),
    L("02", "/", "01", "/", "2006"),
]
ZONES = ["", "UTC", "Asia/Tokyo", "Asia/Kolkata", "Europe/Berlin", "America/New_York"]
MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()


def time_text(g, lay):
    """A text of the layout; instants close to changes of offset are avoided where they are ambiguous."""
    y = g.pick([1999, 2000, 2007, 2012, 2019, 2020, 2023, 2024, 2030, 1970, 2100])
    if y < 2007:
        m = g.pick([1, 2, 12, 7]) if y > 1998 else 1
    else:
        m = g.r.randrange(1, 13)
    d = g.pick([1, 2, 9, 15, 28, 29 if (m != 2 or y in (2000, 2012, 2020, 2024)) else 28, 30 if m != 2 else 5])
    h, mi, s = g.pick([0, 4, 5, 6, 11, 12, 13, 20, 23]), g.r.randrange(60), g.r.randrange(60)
    ns = g.pick([0, 1, 120000000, 999999999, 500])
    out = ""
    for t in lay:
        if "l" in t:
            out += t["l"]
            continue
        f = t["f"]
        if f == "2006":
            out += "%04d" % y
        elif f == "01":
            out += "%02d" % m
        elif f == "1":
            out += g.pick(["%d", "%02d"]) % m if m < 10 else str(m)
        elif f == "Jan":
            out += g.pick([MON[m - 1], MON[m - 1], MON[m - 1].lower(), MON[m - 1].upper()])
        elif f == "02":
            out += "%02d" % d
        elif f == "2":
            out += str(d)
        elif f == "15":
            out += "%02d" % h
        elif f == "03":
            out += "%02d" % (h % 12 or 12)
        elif f == "PM":
            out += "PM" if h >= 12 else "AM"
        elif f == "04":
            out += "%02d" % mi
        elif f == "05":
            out += "%02d" % s
            nxt = lay.index(t) + 1
            if not (nxt < len(lay) and "f" in lay[nxt] and lay[nxt]["f"].startswith(".")) and g.chance(.15):
                out += ".%03d" % (ns // 10**6)
        elif f.startswith(".0"):
            out += "." + ("%09d" % ns)[:len(f) - 1]
        elif f.startswith(".9"):
            out += g.pick(["", ".5", ".123456789", ".1200"])
        else:
            z = g.pick(["Z", "+00:00", "+01:00", "-05:00", "+05:30", "-11:00", "+14:00", "-00:30"])
            if f == "Z07:00":
                out += z
            else:
                z = "+00:00" if z == "Z" else z
                out += z if f == "-07:00" else z.replace(":", "")
    return out


def spoil(g, t):
    k = g.r.randrange(8)
    if k == 0:
        return t[:-1]
    if k == 1:
        return t + "x"
    if k == 2:
        return ""
    if k == 3:
        return "not a time"
    if k == 4:
        return t.replace("0", "9")
    if k == 5:
        return "2023-02-30T10:00:00Z"
    if k == 6:
        return " " + t
    i = g.r.randrange(len(t))
    u = t[:i] + g.pick("x?7 ") + t[i + 1:]
    # Zone rules of former centuries are left out.
    return u if u[i] != "7" or not any(u[k:k + 4].isdigit() and u[k:k + 4] < "1900" for k in range(i - 3, i + 1)) else t[:i] + "x" + t[i + 1:]


def c24(ctx, g, n):
    for i in range(n):
        names = g.names(g.r.randrange(1, 4), (["ts", "created_at", "when", "Date", "ev"],))
        nested = g.chance(.3)
        fm = {k: g.pick(LAYOUTS + ["RAW"]) if g.chance(.85) else None for k in names}
        same = g.chance(.3)  # the same text in keys of different formats
        if same:
            fs = g.pick([LAYOUTS[-2:], [LAYOUTS[1], LAYOUTS[6]], [LAYOUTS[0], LAYOUTS[5]], [LAYOUTS[0], "RAW", None]])
            fm = {k: g.pick(fs) for k in names}
        ls = []
        pool = []
        for j in range(g.sized(1, 8)):
            ms = []
            for k in names:
                if g.chance(.1):
                    continue
                f = fm[k]
                t = time_text(g, f if f not in (None, "RAW") else LAYOUTS[0])
                if same:
                    pool.append(t)
                    t = g.pick(pool)
                if g.chance(.25):
                    t = spoil(g, t)
                v = S(t) if g.chance(.9) else g.scalar("nbz")
                ms.append((k, O(("at", v), ("o", S(t))) if nested else v))
            ms.append(("other", S(time_text(g, LAYOUTS[0]))))
            ls.append(g.line(O(*ms)))
        cfg = new_cfg(outtz=g.pick(ZONES), outfmt=g.pick([None, None] + LAYOUTS))
        for k in names:
            if fm[k] is not None:
                cfg["ptime"]["." + k + (".at" if nested else "")] = fm[k]
        if cfg["outtz"] not in ("", "UTC", "Asia/Tokyo", "Asia/Kolkata") and any("Z07:00" not in [t.get("f") for t in f] and
                                                                               not {"-07:00", "-0700"} & {t.get("f") for t in f}
                                                                               for f in fm.values() if f not in (None, "RAW")):
            # Local times of a zone with changes of offset may be ambiguous close to the changes only.
            if any(amb(x[1]) for l in ls for _, _, x in paths(l["v"]) if x[0] == "s"):
                continue
        keys = all_paths([ls])
        if g.chance(.2) and keys:
            cfg["include"] = g.r.sample(keys, min(2, len(keys)))
        runs = [R(outs=g.pick([("csv",), ("csv", "raw"), ("csv", "sqlite")]), form=g.pick(["file", "yaml"]))]
        yield one(split(g, ls), cfg, runs, delim="|")


def amb(t):
    return any(m in t.lower() for m in ("-03-", "-10-", "-11-", "/03/", "/10/", "/11/", "mar", "oct", "nov", ".03.", ".10.", ".11.")) or \
        t[:2] in ("3/", "03", "10", "11") or t[4:6] in ("03", "10", "11")


# --- C25 ---------------------------------------------------------------------
def c25(ctx, g, n):
    for i in range(n):
        if i % 60 == 17:  # many names with the same beginning
            k, lim = g.pick([(12, 5), (111, 8), (115, 6)])
            ls = [g.line(O(*[("abcdefghijkl%03d" % j, N(j)) for j in range(k)])) for _ in range(2)]
            yield one([ls], new_cfg(klim=lim), [R(outs=g.pick([("csv",), ("csv", "sqlite")]))])
            continue
        if i % 2 == 0:
            unit = g.pick(["abcdefghij", "é", "日本", "aé", "x日é", "ab cd,\"e", "😀", "a😀é", "\n\u0001b"])
            ls = []
            for j in range(g.sized(2, 8)):
                ls.append(g.line(O(("s", S((unit * 20)[:g.r.randrange(0, 14)])), ("n", N("1234567890123")), ("b", B(True)), ("z", Z),
                                   ("o", O(("t", S((unit * 20)[:g.r.randrange(0, 14)])))), ("q", S("123456")), ("a", A(S("long element value"), N("99999999999"))))))
            cfg = new_cfg(flim=g.pick([1, 2, 3, 4, 5, 6, 7, 8, 10, 20, 100]), seq=g.chance(.2))
            if g.chance(.2):
                cfg["transpose"] = {".a": "kid"}
            if g.chance(.2):
                cfg["include"] = [".s"]
                cfg["transpose"] = {}
        else:
            pools = (["averyveryverylongname", "averyveryverylongname2", "averyother", "short", "ab", "éééééé", "日本語日本語", "x"], CAMEL)
            sh = g.shape(depth=3, width=4, pools=pools, pobj=.4, parr=.15)
            ls = g.lines(sh, g.sized(1, 4))
            cfg = new_cfg(klim=g.pick([3, 4, 5, 6, 8, 10, 12, 15, 20, 30]), rep=g.chance(.3), cs=g.chance(.2))
            if g.chance(.2):
                ks = all_paths([ls])
                if ks:
                    cfg["repKeys"] = {g.pick(ks): "explicit"}
            if g.chance(.2):
                arr = sorted({k.split(".[")[0] for k in all_paths([ls]) if ".[" in k})
                if arr:
                    cfg["transpose"] = {g.pick(arr): "kid"}
                    if not trim_ok(cfg, all_paths([ls])):
                        cfg["transpose"] = {}
        if i % 2 and cfg["klim"] and len(all_paths([ls])) > 10 ** max(1, cfg["klim"] - 1) * .5:
            continue
        yield one(split(g, ls), cfg, [R(outs=g.pick([("csv",), ("csv", "sqlite"), ("csv", "pg"), ("csv", "raw")]))], delim="|")


def c25_exhaustive():
    """Every limit around every length for texts of one, two and three byte characters."""
    ts = ["", "a", "ab", "abc", "abcd", "é", "éé", "ééé", "aé", "éa", "日", "日本", "a日", "日a", "aé日", "日éa", "éab日", "😀", "a😀", "é😀b",
          "😀😀", "日😀", "a\u0001\u007fb", "x\n\ty"]
    for lim in range(1, 9):
        yield one([[{"pre": "", "v": O(("s", S(t)), ("k", N("1234567890")))} for t in ts]], new_cfg(flim=lim), [R(outs=ALL)], delim="|")


# --- C26 ---------------------------------------------------------------------
def c26(ctx, g, n):
    for i in range(n):
        ls = numbered(g, g.sized(2, 150), .1, 0, .1)
        cfg = new_cfg(seq=g.chance(.8), offset=g.pick([0, 0, 1, 3]), max=g.pick([0, 0, 5, 40]))
        if g.chance(.5):
            for l in ls:
                if "v" in l and g.chance(.6):
                    l["v"] = O(*l["v"][1], ("t", g.pick([A(N("1"), S("x")), O(("p", N("1")))])))
                    l.pop("raw", None)
                    l.pop("tail", None)
            cfg["transpose"] = {".t": "kid"}
        elif g.chance(.3) and cfg["seq"]:
            cfg["include"] = g.pick([["._sequence"], ["._sequence", ".n"], [".n", "._sequence"]])
        if g.chance(.15):
            cfg["rep"] = True
        runs = [R(outs=g.pick([ALL, ("csv", "sqlite"), ("csv", "pg")]))]
        if g.chance(.5):
            runs.append(R("c", outs=g.pick([("csv",), ("csv", "sqlite")]), conc=g.pick([3, 0]), show=("flat",)))
        yield one(split(g, ls, g.pick([1, 2, 3])), cfg, runs, delim="|")


# --- C27 ---------------------------------------------------------------------
def c27(ctx, g, n):
    for i in range(n):
        sh = g.shape(depth=g.pick([1, 2, 3]), width=4, pools=(PLAIN, CAMEL, ODD) if i % 3 else (PLAIN,), pmix=.5, pobj=.4, parr=.3)
        files = split(g, g.lines(sh, g.sized(1, 7), pmiss=.3))
        keys = all_paths(files)
        cfg = new_cfg(rep=g.chance(.2), seq=g.chance(.1), cs=g.chance(.2))
        x = g.r.random()
        schema = True
        if x < .2 and keys:
            cfg["includeRx"] = [key_rx(g, keys)]
        elif x < .3 and keys:
            cfg["include"] = g.r.sample(keys, 1)
            schema = False
        elif x < .4 and keys:
            cfg["repKeys"] = {g.pick(keys): "renamed"}
        elif x < .5 and keys:
            arr = sorted({k.split(".[")[0] for k in keys if ".[" in k})
            if arr:
                cfg["transpose"] = {g.pick(arr): "kid"}
                if not trim_ok(cfg, keys):
                    continue
        elif x < .6:
            cfg["children"] = g.pick([2, 3])
            schema = False
        elif x < .65:
            cfg["extract"] = True
            schema = False
            files = [[g.line(O(("j", embedded(g, 1)), ("k", N("1")))) for _ in range(3)]]
            cfg["children"] = 0
        if g.chance(.1) and keys:
            cfg["exclude"] = [g.pick(keys)]
        show = ["flat", "info", "hier"] + (["schema"] if schema or g.chance(.5) else [])
        show = [s for s in show if g.chance(.8)] or ["flat"]
        full = schema and "schema" in show
        nd = sum(1 for l in files for _ in l)
        runs = [R(outs=g.pick([(), ("csv",)]), show=tuple(show))]
        if g.chance(.4):
            runs.append(R("c", outs=("csv",), conc=g.pick([2, 4, 0]), show=tuple(dict.fromkeys(["flat"] + show))))
        yield one(files, cfg, runs, js=True, schemafull=full)


# --- C28 ---------------------------------------------------------------------
def c28(ctx, g, n):
    for i in range(n):
        ls = numbered(g, g.r.randrange(200, 900) if i % 3 == 0 else g.sized(1, 60), g.pick([0, .1, .5]), g.pick([0, .1]))
        cfg = new_cfg(children=g.pick([0, 20, 100]))
        if g.chance(.3):
            cfg["include"] = [".n"]
        runs = [R("base", outs=("csv",))]
        for j in range(2):
            runs.append(R("r%d" % j, prog=ctx.prog(g.pick(["", "yield"])), conc=g.pick([1, 2, 3, 16, 100, 0]), outs=g.pick([("csv",), ("csv", "sqlite"), ("csv", "pg")]),
                          show=("flat",), timeout=100))
        yield one(split(g, ls), cfg, runs)
    # The memory limit is always exceeded: reading pauses again and again.
    for i in range(max(8, n // 4)):
        pre = g.pick([None, None, prefix_pat(g)])
        ls = numbered(g, g.r.randrange(3, 22), .2 if pre is None else 0, .2, .4)
        cfg = new_cfg(offset=g.pick([0, 0, 2]), max=g.pick([0, 0, 5]), maxkeys=g.pick([0, 0, 4]), prefix=pre)
        if g.chance(.5):
            cfg["include"] = [".n"]
        yield one(split(g, ls), cfg, [R("base", outs=("csv",)), R("mem", prog=ctx.prog(g.pick(["", "yield"])), conc=g.pick([1, 2, 16]), outs=g.pick([("csv",), ("csv", "raw", "pg")]),
                                                                  memlimit=1, bufsize=10 ** 7, icomp=g.pick(["", "gz", "zst"]), show=("flat",), timeout=100)], delim="|")


# --- C30 ---------------------------------------------------------------------
def c30(ctx, g, n):
    for i in range(n):
        src = g.pick([c06, c08, c09, c10, c12, c21, c23, c24])
        cs = [c for c in itertools.islice(src(ctx, g, 6), 1)]
        if not cs:
            continue
        c = cs[0]
        outs = g.pick([("csv",), ("raw",), ("sqlite",), ("csv", "raw"), ("csv", "sqlite"), ("csv", "raw", "sqlite"), ALL])
        if c["cfg"]["cs"]:  # Column names that differ in case only are not for SQLite.
            outs = tuple(o for o in outs if o in ("csv", "raw")) or ("csv",)
        runs = []
        for form in ("file", "inline", "yaml", "json5"):
            os_ = outs if "csv" in outs else ("csv",) + outs
            r = R(form, form=form, outs=os_, dedicated=g.pick([True, False, False, g.pick(os_)]), inputs=g.pick(["args", "flag", "mixed"]),
                  ocomp=g.pick(["", "", "gz", "zst"]), naming=g.pick([0, 1, 2, 3]), argform=g.pick([0, 0, 1, 2, 3]))
            runs.append(r)
        c["runs"] = runs
        c["delim"] = g.pick(["|", ";", "\t"])
        yield c


# --- C31 ---------------------------------------------------------------------
def c31_small():
    """Every limit around the multiples of the size of an input."""
    for ls in ([], [{"pre": "", "v": O(("a", N(1)))}], [{"pre": "", "v": O(("a", N(1)))}, {"pre": "x"}, {"pre": "", "v": O(("b", S("q")), ("a", N(2)))}]):
        size = sum(len(line_bytes(l)) + 1 for l in ls)
        for k in (0, 1, 2, 3):
            for d in (-1, 0, 1):
                if k * size + d > 0:
                    yield one([ls], new_cfg(seq=k % 2 == 0), [R(outs=("csv",), conc=1, show=("flat",)), R("c", outs=("csv",), conc=4, show=("flat",))], loop=k * size + d)


def c31(ctx, g, n):
    for i in range(n):
        src = g.pick([None, None, c02, c10, c13, c15, c20, c26])
        if src is None:
            sh = g.shape(depth=g.pick([1, 2]), width=4)
            files, cfg, delim = split(g, g.lines(sh, g.sized(1, 9), style=.3), g.pick([1, 1, 2, 3])), new_cfg(seq=g.chance(.4)), "|"
        else:
            cs = [c for c in itertools.islice(src(ctx, g, 3), 1)]
            if not cs:
                continue
            files, cfg, delim = cs[0]["files"], cs[0]["cfg"], cs[0].get("delim", "|")
            if sum(len(f) for f in files) > 30 or len(all_paths(files)) > 40:
                continue
        size = sum(len(line_bytes(l)) + 1 for l in files[0])
        k = g.pick([1, 2, 2, 3, 5, 9])
        while k > 1 and (k * len(files[0]) > 40 or k * size > 6000):
            k -= 1
        limit = g.pick([k * size, k * size - 1, k * size - size + 1, g.r.randrange(1, k * size + 2), 1])
        if limit < 1:
            limit = 1
        if g.chance(.3):
            cfg["offset"], cfg["max"] = g.pick([0, 1, len(files[0])]), g.pick([0, 0, 1, len(files[0]) + 1])
        small = len(files[0]) == 0 and len(files) == 1
        outs = ("csv",) if small or cfg["maxkeys"] or cfg["cs"] else g.pick([("csv",), ("csv", "raw"), ("csv", "sqlite", "pg")])
        runs = [R(outs=outs, conc=1, show=("flat",), inputs=g.pick(["args", "flag", "mixed"]), prof=g.pick([(), (), ("cpu",), ("mem",), ("cpu", "mem")]), verbosity=g.pick(["0", "0", "2"]))]
        if g.chance(.6):
            runs.append(R("c", prog=ctx.prog(g.pick(["", "yield"])), outs=("csv",), conc=g.pick([2, 4, 0]), show=("flat",)))
        yield one(files, cfg, runs, loop=limit, delim=delim or "|")


# --- C32 ---------------------------------------------------------------------
def c32(ctx, g, n):
    for i in range(n):
        sh = g.shape(depth=g.pick([1, 2]), width=3, pools=(PLAIN, CAMEL), kinds="snfb")
        pre = g.chance(.3)
        cfg = new_cfg(prefix=prefix_pat(g) if pre and g.chance(.7) else None, seq=g.chance(.1), cs=g.chance(.1))
        ls = []
        for l in g.lines(sh, g.sized(1, 9) if i % 10 else g.r.randrange(60, 200), style=.3):
            x = g.r.random()
            p = "" if not pre or g.chance(.4) else prefix_text(g)
            if p.startswith("{"):
                p = "x" + p
            if x < .55:
                ls.append(g.line(l["v"], .3, p, g.pick(["", "", "", " tail", " }"])) if p else l)
            elif x < .8:
                d = g.damaged(l["v"])
                if "{" in d["raw"] and d["raw"] != "{":
                    ls.append({"pre": p + d["pre"], "raw": p + d["raw"]})
                else:
                    ls.append({"pre": (p + d["pre"]).lstrip() or "x"} if "{" not in d["raw"] else l)
            elif x < .9:
                ls.append({"pre": (p + g.nojson()["pre"]).strip()})
            elif not p:
                ls.append(lax(g, l["v"]))
        if g.chance(.1):
            ls = [l for l in ls if "v" in l and not l.get("lax")]  # nothing to report
        if not ls or line_bytes(ls[-1]) == b"":
            ls.append(g.line(g.doc(sh), .2))
        if g.chance(.15):
            ls += [dict(g.pick(ls)) for _ in range(3)]  # the same text again
        files = split(g, ls)
        keys = all_paths(files)
        if g.chance(.25) and keys:
            cfg["include"] = g.r.sample(keys, min(len(keys), g.r.randrange(1, 3)))
        if g.chance(.25):
            m = max(len(f) for f in files)
            cfg["offset"], cfg["max"] = g.r.randrange(m + 1), g.r.randrange(m + 2)
            if g.chance(.3):
                cfg["maxkeys"] = g.r.randrange(1, m + 2)
        ids = {}
        for f in files:
            for l in f:
                l["id"] = ids.setdefault(named_part(line_bytes(l)), len(ids) + 1)
        v = lambda: g.pick(["2", "2", "3"])
        runs = [R(outs=g.pick([("csv",), ("csv",), ("csv", "raw"), ("pg",)]), verbosity=v(), icomp=g.pick(["", "", "gz", "zst"]))]
        if g.chance(.7):
            runs.append(R("c", prog=ctx.prog(g.pick(["", "yield"])), outs=("csv",), conc=g.pick([2, 8, 0]), show=("flat",), verbosity=v()))
        if g.chance(.4):
            runs.append(R("quiet", outs=("csv",), verbosity=g.pick(["0", "1"])))
        yield one(files, cfg, runs, diag=True, delim="|", getkey=bool(cfg["include"]) and g.chance(.2))


# --- Combinations ----------------------------------------------------------------
FEATURES = ("case", "emb", "time", "tr", "keep", "hc", "prefix", "zero", "sel", "selrx", "excl", "ren", "auto", "merge", "flim", "klim", "seq", "win", "sqlcols",
            "damaged", "comp", "conc", "cs")
NOT_WITH = [("hc", "emb"), ("hc", "case"), ("flim", "merge"), ("flim", "keep"), ("flim", "hc"), ("flim", "time"), ("klim", "ren"), ("klim", "merge"), ("auto", "klim"),
            ("cs", "sqlite"), ("excl", "hc")]


def mix(ctx, g, n, must=()):
    """Several options at once, over lines that have something for each of them."""
    must = set(must)
    for i in range(n):
        fs = set(must)
        for f in g.r.sample(FEATURES, len(FEATURES)):
            if f not in fs and g.chance(.28) and not any(f in p and fs & (set(p) - {f}) for p in NOT_WITH):
                fs.add(f)
        c = mixed(ctx, g, fs)
        if c is not None:
            c["features"] = sorted(fs)
            yield c


def mixed(ctx, g, fs):
    cfg = new_cfg(seq="seq" in fs, cs="cs" in fs, rep="auto" in fs, extract="emb" in fs, skipzero="zero" in fs, children=0 if "emb" in fs else 100)
    sh = g.shape(depth=2, width=4, pools=(["aa", "bb", "cc", "dd", "userName", "sp ace"],), kinds="ssnfbz" if "emb" not in fs else "nfbz", pmix=.2)
    lay = g.pick(LAYOUTS)
    kk = g.pick(["a", "o", "m"])
    elem = g.pick("soom") if "emb" not in fs else "n"
    ls = []
    for j in range(g.sized(2, 12) if not g.chance(.1) else g.r.randrange(100, 250)):
        ms = [("id", N(j))] if g.chance(.9) else []
        ms += g.doc(sh, .3)[1]
        if "case" in fs:
            ms += [(k, g.scalar("nfbz" if "emb" in fs else "snfbz")) for k in ("vName", "vname", "VNAME") if g.chance(.4)]
        if "emb" in fs and g.chance(.8):
            ms.append(("pay", embedded(g, 2) if g.chance(.8) else g.scalar("nbz")))
        if "time" in fs:
            t = time_text(g, lay)
            ms += [(k, S(spoil(g, t) if g.chance(.2) else t)) for k in ("ts", "other") if g.chance(.8)]
        if "tr" in fs:
            es = [g.scalar("nb") if elem == "n" else x for x in (y for _, v in tdoc(g, [("x", "a", elem if elem != "n" else "s")], 4) for y in v[1])]
            if g.chance(.85):
                ms.append(("items", A(*es) if kk == "a" or (kk == "m" and g.chance(.5)) else O(*[("p%d" % x, e) for x, e in enumerate(es)])))
        if "keep" in fs and g.chance(.8):
            v = g.value(3, ["p", "q", "R"], 3, "nfbz" if "emb" in fs else "snfbz", .6)
            ms.append(("blob", v if v[0] in "ao" else A(v) if g.chance(.5) else O(("v", v))))
        if "hc" in fs and g.chance(.9):
            ms.append(("many", O(*[("k%d" % x, g.scalar("snb")) for x in g.r.sample(range(40), g.r.randrange(5, 20))])))
        if "zero" in fs:
            ms += [(k, g.pick(ZEROS)) for k in ("z1", "z2") if g.chance(.6)]
            ms.append(("z3", g.pick(ZEROS[:5]) if g.chance(.9) else g.pick(NONZ if "emb" not in fs else NONZ[2:6])))
        if g.chance(.3):
            g.r.shuffle(ms)
        if "damaged" in fs and j and g.chance(.25):
            d = g.damaged(O(*ms)) if g.chance(.7) else g.nojson()
            if d.get("raw") != "{" or "prefix" not in fs:  # a lone brace is a line without JSON
                ls.append(d)
            continue
        pre = ""
        if "prefix" in fs and g.chance(.8):
            pre = prefix_text(g)
            if "{" in pre:
                pre = ""
        ls.append(g.line(O(*ms), .25, pre, g.pick(["", "", " tail"]) if pre else ""))
    if "hc" in fs:
        cfg["children"] = g.pick([22, 30, 39, 60])
    if "prefix" in fs:
        cfg["prefix"] = prefix_pat(g)
    if "time" in fs:
        cfg["ptime"][".ts"] = lay
        cfg["outtz"] = g.pick(["", "UTC", "Asia/Tokyo", "Asia/Kolkata"])
        cfg["outfmt"] = g.pick([None] + LAYOUTS)
    if "tr" in fs:
        cfg["transpose"] = {".items": g.pick(["items", "kid"])}
    if "keep" in fs:
        cfg["keep"] = [".blob"]
    inner = (".blob.", ".many.", ".items.") if "tr" in fs else (".blob.", ".many.")
    keys = [k for k in all_paths([ls]) if not k.startswith(inner) and k not in (".many", ".blob")]
    plain = [k for k in keys if not k.lower().startswith(".vname") and k not in (".pay", ".ts")]
    if not plain:
        return None
    if "win" in fs:
        cfg["offset"], cfg["max"], cfg["maxkeys"] = g.pick([0, 1, 2]), g.pick([0, 3, 5, 100]), g.pick([0, 0, 2, 4])
    if "sqlcols" in fs:
        cfg["sqlcols"] = g.pick([3, 4, 5, 7])
    if "flim" in fs:
        cfg["flim"] = g.pick([1, 2, 3, 5, 8, 20])
    if "klim" in fs:
        cfg["klim"] = g.pick([6, 8, 10, 15])
    if "sel" in fs:
        ks = plain + (keys if g.chance(.5) else []) + ([".blob"] if "keep" in fs else []) + (["._sequence"] if "seq" in fs else [])
        if "case" in fs:
            ks = [k for k in ks if not k.lower().startswith(".vname")]
        ks = list(dict.fromkeys(ks))
        cfg["include"] = g.r.sample(ks, min(len(ks), g.pick([1, 2, 4]))) + (["const:c"] if g.chance(.2) else [])
    if "selrx" in fs:
        cfg["includeRx"] = [key_rx(g, plain)]
    if "excl" in fs:
        cfg["exclude"] = [g.pick(plain)]
    free = [k for k in plain if k not in cfg["exclude"]]
    if "ren" in fs and free:
        for k, nm in zip(g.r.sample(free, min(2, len(free))), ("new name", "Renamed")):
            cfg["repKeys"][k] = nm
    if "merge" in fs:
        free = [k for k in free if k not in cfg["repKeys"]]
        if len(free) > 1:
            for k in g.r.sample(free, min(len(free), g.pick([2, 3]))):
                cfg["repKeys"][k] = "merged"
            cfg["concat"] = g.pick([None, ",", ""])
    if not trim_ok(cfg, keys):
        return None
    # SQLite converts values by the types of columns, which are not known of keys that were not scanned.
    sq = "cs" not in fs and not cfg["maxkeys"]
    outs = [("csv",), ("csv", "raw"), ("csv", "pg")] + ([ALL, ("csv", "sqlite")] if sq else [])
    oc = g.pick(["", "gz", "zst"]) if "comp" in fs else ""
    runs = [R(outs=g.pick([("csv",), ("csv", "raw")] if oc == "zst" else outs), ocomp=oc, icomp=g.pick(["gz", "gz2", "zst"]) if "comp" in fs else "", form=g.pick(["file", "yaml", "json5", "inline"]))]
    if "conc" in fs:
        runs.append(R("c", prog=ctx.prog(g.pick(["", "yield"])), outs=g.pick([("csv",), ("csv", "sqlite")] if sq else [("csv",)]), conc=g.pick([2, 4, 8, 0]), show=("flat",)))
    return one(split(g, ls), cfg, runs, delim="|", js=True, prefixInConfig=g.chance(.3))


BIGNUM = BIGS
