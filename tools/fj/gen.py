"""Random material for cases: names, values, documents, lines, configurations."""
import random

from .values import A, B, N, O, S, Z, jstr, text, walk

PLAIN = ["a", "b", "c", "id", "name", "val", "x1", "y2", "foo", "bar", "baz", "tags", "meta", "sub", "list", "count"]
CAMEL = ["userName", "createdAt", "HTTPCode", "itemID", "fooBar2Baz", "aB", "snake_case", "kebab-case", "Total Sum", "Id2"]
ODD = ["sp ace", "q\"uote", "com,ma", "sl/ash", "back\\slash", "t\tab", "semi;colon", "pipe|", "é", "ñandú", "жук", "日本", "😀k",
       "@at", "#h", "$d", "%p", "&", "*", "(x)", "{y}", "plus+", "0", "12", "-", "_", "a'b", "`tick`", "<nop>", "a:b", "~"]
STRS = ["", " ", "x", "hello", "Hello, World", "line\nbreak", "car\rret", "tab\t", "q\"uote", "'single'", "back\\slash", "é", "日本語",
        "😀", "\\.", "\\N", "NULL", "null", "true", "false", "0", "1", "-5", "12.50", "1e3", "007", "ABSENT", "a,b;c", "{", "[", "{}x", "[1",
        "\u2028", "\u007f", "\x01", "\b\f", "http:", "trailing ", " leading", "\"", "\"\"", "--", "/* c */", "%s %d", "${1}", "0x10",
        "x" * 300, "é" * 40, "a\n\nb", "\n", ",", "\r\n", "ünïcödé", "100%", "=1+1", "+1", "@x", "NaN", "Infinity", "1_000", "١"]
INTS = ["0", "1", "-1", "42", "7", "1000000", "123456789012", "9223372036854775807", "-9223372036854775808", "2147483648", "-0"]
BIGS = ["9223372036854775808", "18446744073709551616", "123456789012345678901234567890", "-9223372036854775809"]
FLOATS = ["0.0", "1.5", "-2.25", "3.14159265358979", "1e3", "1E-5", "2.5e+10", "0.1", "100.00", "1.0", "-0.0", "5e0", "12345678.9", "1e20",
          "0.30000000000000004", "123456.789e-3"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return self.r.choice(xs)

    def names(self, n, pools=(PLAIN,), fold=True):
        """n distinct names, also distinct without letter case."""
        res, low = [], set()
        all_ = [x for p in pools for x in p]
        while len(res) < n:
            x = self.pick(all_)
            if len(res) >= len(set(y.lower() for y in all_)) or x.lower() in low:
                x = x + self.pick("abcdefgh") + str(self.r.randrange(1000))
            if x.lower() not in low:
                low.add(x.lower())
                res.append(x)
        return res

    # Values ---------------------------------------------------------------
    def string(self):
        if self.chance(.6):
            return self.pick(STRS)
        if self.chance(.004):
            n = self.pick([200, 300, 1000, 4095, 4096, 4097, 5000, 8193, 33000, 66000])
            return (self.pick(["", "a", "b,", "é"]) + self.pick(["x", "0123456789abcdef", "日", "\"y", "a\nb", "\\"]) * n)[:n]
        return "".join(self.pick("abcXYZ019 _-.,:/\\\"'{}[]\n\té日😀") for _ in range(self.r.randrange(1, 12)))

    def integer(self):
        if self.chance(.5):
            return self.pick(INTS)
        return str(self.r.randrange(-10 ** self.r.randrange(1, 18), 10 ** self.r.randrange(1, 18)))

    def float(self):
        if self.chance(.6):
            return self.pick(FLOATS)
        return "%s%d.%d" % (self.pick(["", "-"]), self.r.randrange(0, 10 ** self.r.randrange(1, 10)), self.r.randrange(0, 10 ** 6))

    def scalar(self, kinds="snfbzS"):
        k = self.pick(kinds)
        if k in "sS":
            return S(self.string())
        if k == "n":
            return N(self.integer())
        if k == "f":
            return N(self.float())
        if k == "g":
            return N(self.pick(BIGS))
        if k == "b":
            return B(self.chance(.5))
        return Z

    def value(self, depth=3, names=None, width=3, kinds="snfbz", pcont=.4, pools=(PLAIN,)):
        if depth > 0 and self.chance(pcont):
            n = self.r.randrange(0, width + 1)
            if self.chance(.5):
                return A(*[self.value(depth - 1, names, width, kinds, pcont, pools) for _ in range(n)])
            ks = self.r.sample(names, min(n, len(names))) if names else self.names(n, pools)
            return O(*[(k, self.value(depth - 1, names, width, kinds, pcont, pools)) for k in ks])
        return self.scalar(kinds)

    # Documents with a common shape -----------------------------------------
    def shape(self, depth=2, width=4, pools=(PLAIN,), kinds=None, parr=.2, pobj=.25, pmix=.15, maxarr=3):
        """Shape of an object: names with the kinds of their values."""
        n = self.r.randrange(1, width + 1)
        return {"o": [(k, self.field(depth, width, pools, kinds, parr, pobj, pmix, maxarr)) for k in self.names(n, pools)]}

    def field(self, depth, width, pools, kinds, parr, pobj, pmix, maxarr):
        x = self.r.random()
        if depth > 0 and x < pobj:
            return self.shape(depth - 1, width, pools, kinds, parr, pobj, pmix, maxarr)
        if depth > 0 and x < pobj + parr:
            return {"a": self.field(depth - 1, width, pools, kinds, parr, pobj, pmix, maxarr), "max": maxarr}
        ks = kinds or "ssnnfbz"
        k = self.pick(ks)
        if self.chance(pmix):
            k += self.pick(ks) + self.pick(ks)
        if self.chance(.3):
            k += k + "z"
        f = {"k": k}
        if depth > 0 and self.chance(pmix / 3):
            f["alt"] = self.field(depth - 1, width, pools, kinds, .5, .5, 0, maxarr)
        return f

    def doc(self, sh, pmiss=.2, pdup=0):
        if "o" in sh:
            ms = [(k, self.doc(f, pmiss, pdup)) for k, f in sh["o"] if not self.chance(pmiss)]
            if self.chance(.25):
                self.r.shuffle(ms)
            if pdup and ms and self.chance(pdup):
                k, f = self.pick(sh["o"])
                x = self.doc(f, pmiss, 0) if self.chance(.6) else self.pick([Z, O(), A(), O(("a", N("1"))), S("dup")])
                ms.insert(self.r.randrange(len(ms) + 1), (k, x))
            return O(*ms)
        if "a" in sh:
            return A(*[self.doc(sh["a"], pmiss, pdup) for _ in range(self.r.randrange(0, sh["max"] + 1))])
        if "alt" in sh and self.chance(.2):
            return self.doc(sh["alt"], pmiss, pdup)
        return self.scalar(sh["k"])

    # Lines ------------------------------------------------------------------
    def line(self, v, style=.3, pre="", tail=""):
        l = {"pre": pre, "v": v}
        if self.chance(style):
            l["raw"] = pre + text(v, self.r, .2, .15) + (tail or self.pick(["", "", " ", "  \t"]))
        elif tail:
            l["tail"] = tail
        return l

    def lines(self, sh, n, style=.3, pmiss=.2, pdup=0):
        return [self.line(self.doc(sh, pmiss, pdup), style) for _ in range(n)]

    def nojson(self):
        t = self.pick(["", " ", "x", "no json here", "[1,2,3]", "null", "\"str\"", "12", "}", "# comment", "a: b", "}}"])
        return {"pre": t}

    def damaged(self, v):
        """A line that is not JSON."""
        t = text(v)
        k = self.r.randrange(12)
        if k < 5:
            t = t[:self.r.randrange(1, max(2, len(t)))]
            if t.strip() == "":
                t = "{"
        elif k == 5 and v[1]:
            t = t.replace(":", "=", 1) if '":' in t and ":" not in t.split('":', 1)[0] else "{\"a\"=1}"
        elif k == 6:
            t = "{" + t
        elif k == 7:
            t = t[:-1] + ","
        elif k == 8:
            t = t[:-1] + "," + self.pick(["}", "\"x\"}", "\"x\":}", "x:1}", "'x':1}", "\"x\":tru}", "\"x\":nul}", "\"x\":'y'}", "\"x\":[1,2}",
                                         "\"x\":[,]}", "\"x\":{]}", "\"x\":\"y}", ",\"x\":1}", "\"x\" 1}", "\"x\":1 \"y\":2}", "\"x\":,}", "\"x\":-}"])
            if not v[1]:
                t = "{"
        elif k == 9:
            t = self.pick(["{", "{\"", "{\"a", "{\"a\"", "{\"a\":", "{\"a\":1", "{\"a\":[", "{\"a\":\"\\", "{]", "{[", "{{", "{:", "{,}", "{1}",
                           "{\"a\":tru}", "{\"a\":'b'}", "{a:1}", "{\"a\":+}", "{\"a\":?}"])
        elif k == 10:
            t = "junk " + t[:-1]
        else:
            t = t[:-1] + "]"
        pre = t[:t.index("{")] if "{" in t else t
        return {"pre": pre, "raw": t}

    def sized(self, lo, hi):
        """Mostly near lo, sometimes up to hi."""
        return lo + int((hi - lo) * self.r.random() ** 2)


def paths(v, p=""):
    """Paths of the scalars and containers of a value: (path, parent, value)."""
    if v[0] == "o":
        for k, x in v[1]:
            yield p + "." + k, p, x
            yield from paths(x, p + "." + k)
    elif v[0] == "a":
        for i, x in enumerate(v[1]):
            yield p + ".[%d]" % i, p, x
            yield from paths(x, p + ".[%d]" % i)


def all_paths(files, scalars=True):
    """Distinct paths of scalars in order of appearance."""
    res = {}
    for f in files:
        for l in f:
            if "v" in l:
                for p, _, x in paths(l["v"]):
                    if x[0] not in "ao" or not scalars:
                        res.setdefault(p)
    return list(res)


def containers(files):
    res = {}
    for f in files:
        for l in f:
            if "v" in l:
                for p, _, x in paths(l["v"]):
                    if x[0] in "ao":
                        res.setdefault(p)
    return list(res)


__all__ = ["Gen", "PLAIN", "CAMEL", "ODD", "STRS", "INTS", "BIGS", "FLOATS", "paths", "all_paths", "containers", "walk", "jstr"]
