"""Regular expressions as text and as syntax tree of the specification (Regex.tla)."""
import re as _re
import string

WORD = string.ascii_letters + string.digits + "_"
DIGIT = string.digits
SPACE = " \t\n\f\r"


class R:
    def __init__(self, p, ast, g=0):
        self.p, self.ast, self.g = p, ast, g

    def rec(self):
        return {"p": self.p, "ast": self.ast, "g": self.g}


def units(s):
    """Characters of the specification are UTF-16 code units."""
    b = s.encode("utf-16-le")
    return [chr(b[i] | b[i + 1] << 8) for i in range(0, len(b), 2)]


def lit(s):
    return R(_re.escape(s).replace("\\ ", " ").replace('\\"', '"'),
             {"o": "cat", "a": [{"o": "lit", "c": c} for c in units(s)]})


def cls(text, chars, neg=False):
    return R(text, {"o": "cls", "s": chars, "n": neg})


def word():
    return cls("\\w", WORD)


def digit():
    return cls("\\d", DIGIT)


def nonspace():
    return cls("\\S", SPACE, True)


def nots(chars):
    return cls("[^" + chars.replace("\\", "\\\\").replace("]", "\\]").replace("[", "\\[") + "]", chars, True)


def anyc():
    return R(".", {"o": "any"})


def cat(*rs):
    rs = [lit(r) if isinstance(r, str) else r for r in rs]
    return R("".join(r.p for r in rs), {"o": "cat", "a": [r.ast for r in rs]}, sum(r.g for r in rs))


def alt(*rs):
    rs = [lit(r) if isinstance(r, str) else r for r in rs]
    return R("(?:" + "|".join(r.p for r in rs) + ")", {"o": "alt", "a": [r.ast for r in rs]}, sum(r.g for r in rs))


def _wrap(r):
    return r.p if len(r.p) == 1 or r.p in ("\\w", "\\d", "\\S") or (r.p[0] == "[" and r.p.find("]") == len(r.p) - 1) or r.p[0] == "(" else "(?:" + r.p + ")"


def rep(r, lo=0, hi=-1, lazy=False):
    suf = {(0, -1): "*", (1, -1): "+", (0, 1): "?"}.get((lo, hi), "{%d,%s}" % (lo, "" if hi < 0 else hi))
    return R(_wrap(r) + suf + ("?" if lazy else ""), {"o": "rep", "lo": lo, "hi": hi, "z": lazy, "a": r.ast}, r.g)


def plus(r, lazy=False):
    return rep(r, 1, -1, lazy)


def star(r, lazy=False):
    return rep(r, 0, -1, lazy)


def opt(r):
    return rep(r, 0, 1)


class _G:
    pass


def grp(r):
    if isinstance(r, str):
        r = lit(r)
    return R("(" + r.p + ")", {"o": "grp", "i": 0, "a": r.ast}, r.g + 1)


BOL = R("^", {"o": "bol"})
EOL = R("$", {"o": "eol"})


def final(r):
    """Numbers the groups."""
    n = [0]

    def num(a):
        a = dict(a)
        if a["o"] == "grp":
            n[0] += 1
            a["i"] = n[0]
            a["a"] = num(a["a"])
        elif a["o"] == "rep":
            a["a"] = num(a["a"])
        elif a["o"] in ("cat", "alt"):
            a["a"] = [num(x) for x in a["a"]]
        return a
    return R(r.p, num(r.ast), r.g)


def starpat(p):
    """Key pattern with stars: the tree is made by the specification."""
    return R(p, {"o": "any"}, 0)
