"""JSON values with annotations, their text and their form in the specification.

A value is a tuple: ("s", text, ann) ("n", raw) ("b", bool) ("z",) ("a", [values]) ("o", [(name, value)])
("bad", raw) is a number literal that the program can not use. ann is a dict with optional js and url values.
Bytes that are not valid UTF-8 are represented by characters U+F700 + byte.
"""
import codecs
import decimal
import json

PUA = 0xF700


def _handler(e):
    return "".join(chr(PUA + b) for b in e.object[e.start:e.end]), e.end


codecs.register_error("pua", _handler)


def dec(b):
    return b.decode("utf-8", "pua")


def enc(t):
    if any(PUA <= ord(c) <= PUA + 255 for c in t):
        out = bytearray()
        for c in t:
            if PUA <= ord(c) <= PUA + 255:
                out.append(ord(c) - PUA)
            else:
                out += c.encode("utf-8")
        return bytes(out)
    return t.encode("utf-8")


def S(t, js=None, url=None):
    ann = {}
    if js is not None:
        ann["js"] = js
    if url is not None:
        ann["url"] = url
    return ("s", t, ann)


def N(r):
    return ("n", str(r))


def B(b):
    return ("b", bool(b))


Z = ("z",)


def A(*e):
    return ("a", list(e))


def O(*m, **kw):
    return ("o", list(m) + list(kw.items()))


def canon_int(raw):
    try:
        d = decimal.Decimal(raw)
    except decimal.InvalidOperation:
        return ""
    if not d.is_finite() or abs(d.adjusted()) > 30 or d != d.to_integral_value():
        return ""
    i = int(d)
    return str(i) if -2**63 <= i < 2**63 else ""


def canon_float(raw):
    try:
        return repr(float(raw) + 0.0)
    except (ValueError, OverflowError):
        return ""


def rec(v):
    """Form of the value in the specification."""
    t = v[0]
    if t == "s":
        r = {"t": "s", "s": v[1]}
        for k, x in v[2].items():
            r[k] = rec(x)
        return r
    if t == "n":
        return {"t": "n", "r": v[1], "ci": canon_int(v[1]), "cf": canon_float(v[1])}
    if t == "bad":
        return {"t": "bad", "r": v[1]}
    if t == "b":
        return {"t": "b", "b": v[1]}
    if t == "z":
        return {"t": "z"}
    if t == "a":
        return {"t": "a", "e": [rec(x) for x in v[1]]}
    return {"t": "o", "m": [[k, rec(x)] for k, x in v[1]]}


_esc = {'"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}


def jstr(t, rng=None, style=0.0):
    """JSON string literal, with random alternative escapes if style > 0."""
    out = []
    for c in t:
        o = ord(c)
        if rng is not None and style and rng.random() < style and not PUA <= o <= PUA + 255:
            if c == "/":
                out.append("\\/")
            elif o > 0xFFFF:
                o -= 0x10000
                out.append("\\u%04x\\u%04X" % (0xD800 + (o >> 10), 0xDC00 + (o & 0x3FF)))
            else:
                out.append(("\\u%04x" if rng.random() < .5 else "\\u%04X") % o)
        elif c in _esc:
            out.append(_esc[c])
        elif o < 0x20:
            out.append("\\u%04x" % o)
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


def text(v, rng=None, ws=0.0, esc=0.0):
    """JSON text of a value; ws: probability of white space at each place, esc: of alternative escapes."""
    def sp():
        return rng.choice([" ", "  ", "\t"]) if rng is not None and ws and rng.random() < ws else ""
    t = v[0]
    if t == "s":
        return jstr(v[1], rng, esc)
    if t in ("n", "bad"):
        return v[1]
    if t == "b":
        return "true" if v[1] else "false"
    if t == "z":
        return "null"
    if t == "a":
        return "[" + sp() + (sp() + "," + sp()).join(text(x, rng, ws, esc) for x in v[1]) + sp() + "]"
    return "{" + sp() + (sp() + "," + sp()).join(
        jstr(k, rng, esc) + sp() + ":" + sp() + text(x, rng, ws, esc) for k, x in v[1]) + sp() + "}"


class _Num(str):
    pass


def _conv(x):
    if isinstance(x, _Num):
        return ("n", str(x))
    if isinstance(x, str):
        return S(x)
    if x is None:
        return Z
    if isinstance(x, bool):
        return B(x)
    if isinstance(x, tuple):
        return ("o", [(k, _conv(y)) for k, y in x[1]])
    if isinstance(x, list):
        return ("a", [_conv(y) for y in x])
    raise ValueError(x)


def parse(t):
    """Strict JSON decoder that keeps digits, order and duplicate names; raises ValueError."""
    def const(c):
        raise ValueError(c)
    return _conv(json.loads(t, parse_float=_Num, parse_int=_Num, parse_constant=const, strict=False,
                            object_pairs_hook=lambda ps: ("o", ps)))


def walk(v):
    yield v
    if v[0] == "a":
        for x in v[1]:
            yield from walk(x)
    elif v[0] == "o":
        for _, x in v[1]:
            yield from walk(x)
    elif v[0] == "s":
        for x in v[2].values():
            yield from walk(x)
