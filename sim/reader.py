"""An independent reader of Mapfile text, and what a dictionary's text has to say.

Nothing of mappyfile is used: the vocabulary is sim/vocab.json (object type x keyword -> shapes), the
lexical classes are MapServer's.  `expected(d)` lists the tokens that the text of d has to consist of;
`read(text)` lists the tokens that are there; `compare` matches the two."""
import json
import math
import numbers
import os
import re

V = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "vocab.json")))
PAIRS = ("metadata", "validation", "values", "connectionoptions")
REPEATED = ("processing", "formatoption", "include", "compfilter")
NUM = re.compile(r"[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?$")


class Unreadable(Exception):
    pass


class Unprintable(Exception):
    """The value has no Mapfile representation."""

    def __init__(self, where, value):
        super().__init__(where)
        self.where = where
        self.value = value


class Unsettled(Exception):
    """The dictionary is outside what the property speaks about (not schema-shaped)."""


# ---- reading ----------------------------------------------------------------------------


def _quoted(t, i):
    """Content and end of the quoted string at i."""
    q = t[i]
    j = i + 1
    out = []
    while j < len(t):
        if t[j] == "\\" and j + 1 < len(t) and t[j + 1] == q:
            out.append(t[j : j + 2])
            j += 2
            continue
        if t[j] == q:
            return "".join(out), j + 1
        out.append(t[j])
        j += 1
    raise Unreadable(f"unterminated string at offset {i}: {t[i:i+40]!r}")


def _balanced(t, i, a, b):
    d, j = 0, i
    while j < len(t):
        c = t[j]
        if c in "\"'`" and a != "[":
            k = t.find(c, j + 1)
            if k > 0:
                j = k + 1
                continue
        if c == a:
            d += 1
        elif c == b:
            d -= 1
            if d == 0:
                return j + 1
        j += 1
    raise Unreadable(f"unbalanced {a} at offset {i}: {t[i:i+40]!r}")


def read(t):
    """[(class, value)]: ("q", quote, content), ("raw", text), ("num", number), ("word", WORD)."""
    out = []
    i, n = 0, len(t)
    while i < n:
        c = t[i]
        if c in " \t\r\n\f\v":
            i += 1
            continue
        if c == "#":
            while i < n and t[i] != "\n":
                i += 1
            continue
        if t.startswith("/*", i):
            k = t.find("*/", i)
            if k < 0:
                raise Unreadable(f"unterminated comment at offset {i}")
            i = k + 2
            continue
        if c in "\"'":
            s, j = _quoted(t, i)
            if t[j : j + 1] == "i" and (j + 1 == n or t[j + 1].isspace()):
                out.append(("raw", t[i : j + 1]))
                j += 1
            else:
                out.append(("q", c, s))
        elif c in "([{":
            j = _balanced(t, i, c, {"(": ")", "[": "]", "{": "}"}[c])
            out.append(("raw", t[i:j]))
        elif c == "/":
            j = t.find("/", i + 1)
            e = t.find("\n", i)
            if j < 0 or (0 <= e < j):
                raise Unreadable(f"neither a regular expression nor quoted at offset {i}: {t[i:i+40]!r}")
            j += 1
            if t[j : j + 1] == "i":
                j += 1
            out.append(("raw", t[i:j]))
        else:
            j = i
            while j < n and not t[j].isspace():
                j += 1
            w = t[i:j]
            if NUM.match(w):
                out.append(("num", w))
            else:
                out.append(("word", w.upper()))
        if j < n and not t[j].isspace() and t[j] != "#":
            raise Unreadable(f"nothing separates {t[i:j]!r} from {t[j:j+20]!r}")
        i = j
    return out


# ---- what has to be there -------------------------------------------------------------------


def q(s):
    return ("q", s)


def either(*a):
    return ("either", a)


def _number(x, where):
    if not isinstance(x, (int, float)):
        raise Unprintable(where, x)
    if isinstance(x, float) and not math.isfinite(x):
        raise Unprintable(where, x)
    return ("num", x)


def _free(v, where):
    """A free string in a place that only takes strings (numbers are written as strings)."""
    if isinstance(v, str):
        return q(v)
    if isinstance(v, bool):
        raise Unsettled(f"{where} is a boolean")
    if isinstance(v, numbers.Number):
        _number(v, where)
        return either(q(str(v)), _number(v, where))
    raise Unprintable(where, v)


BIND = re.compile(r"\[[^\[\]]+\]$")
HEX = re.compile(r"#(?:[0-9a-fA-F]{3}){1,2}(?:[0-9a-fA-F]{2})?$")


def _scalar(t, k, v, where):
    shapes = V.get(t, {}).get(k)
    if shapes is None:
        return _unknown(v, where)
    kinds = {}
    for s in shapes:
        kinds.setdefault(s[0], []).append(s)
    if isinstance(v, bool):
        if "bool" not in kinds:
            raise Unsettled(f"{where}: boolean")
        return [("word", str(v).upper())]
    if isinstance(v, numbers.Number):
        _number(v, where)
        if not ({"int", "num", "inum"} & set(kinds)):
            raise Unsettled(f"{where}: number")
        return [_number(v, where)]
    if isinstance(v, (list, tuple)):
        if not v:
            raise Unprintable(where, v)
        out = []
        for i, x in enumerate(v):
            w = f"{where}[{i}]"
            if isinstance(x, bool):
                raise Unsettled(w)
            if isinstance(x, numbers.Number):
                out.append(_number(x, w))
            elif isinstance(x, str):
                if BIND.match(x):
                    out.append(("raw", x))
                elif HEX.match(x):
                    out.append(q(x))
                else:
                    raise Unsettled(w)
            else:
                raise Unprintable(w, x)
        if not ({"ints", "nums", "color", "hexpair", "binds", "mixed"} & set(kinds)):
            raise Unsettled(f"{where}: list")
        return out
    if not isinstance(v, str):
        raise Unprintable(where, v)
    s = v.strip()
    for sh in kinds.get("enum", []):
        if v.lower() in sh[1]:
            if k == "compop" or v.lower() == "end":
                return [q_any(v)]
            return [("word", v.upper())]
    for sh in kinds.get("strenum", []):
        if v.lower() in sh[1]:
            return [either(("word", v.upper()), q(v), q(v.upper()), q(v.lower()))]
    if "bind" in kinds and BIND.match(s):
        return [("raw", s)]
    if k == "text" and BIND.match(s):
        return [either(("raw", s), q(v))]
    if "expr" in kinds:
        if s.startswith("(") and s.endswith(")"):
            return [("raw", s)]
        if s.startswith("NOT ") and s[4:].strip().startswith("(") and s.endswith(")"):
            return [("word", "NOT"), ("raw", s[4:].strip())]
    if {"re", "rei"} & set(kinds):
        if len(s) > 2 and s.startswith("/") and (s.endswith("/") or s.endswith("/i")):
            return [("raw", s)]
    if "rei" in kinds and (s.endswith('"i') or s.endswith("'i")) and s[0] == s[-2]:
        return [("raw", s)]
    if "list" in kinds and s.startswith("{") and s.endswith("}"):
        return [("raw", s)]
    if "hex" in kinds and HEX.match(v):
        return [q(v)]
    if "str" in kinds:
        return [q(v)]
    raise Unsettled(f"{where}: {v!r}")


def _unknown(v, where):
    """The value of a keyword nobody knows: it has to be there, as one value."""
    if isinstance(v, bool):
        return [("word", str(v).upper())]
    if isinstance(v, numbers.Number):
        return [_number(v, where)]
    if isinstance(v, (list, tuple)):
        if not v:
            raise Unprintable(where, v)
        out = []
        for i, x in enumerate(v):
            w = f"{where}[{i}]"
            if isinstance(x, bool) or isinstance(x, str) and BIND.match(x):
                raise Unsettled(w)
            out += [q(x)] if isinstance(x, str) else _unknown(x, w) if not isinstance(x, (list, tuple)) else [_number(x, w)]
        return out
    if not isinstance(v, str):
        raise Unprintable(where, v)
    s = v.strip()
    if BIND.match(s) or s[:1] in tuple("({/") and s[-1:] in tuple(")}/i") or re.match("NOT ", v) or re.search("['\"]i$", s):
        raise Unsettled("unknown keyword with a bare value")
    if re.match(r"[A-Za-z_]\w*$", v) and v.lower() != "end":
        return [either(q(v), ("word", v.upper()))]
    return [q(v)]


def q_any(v):
    return ("qfold", v)


def _point(p, where):
    if not isinstance(p, (list, tuple)) or len(p) != 2:
        if isinstance(p, (list, tuple)):
            raise Unsettled(where)
        raise Unprintable(where, p)
    out = []
    for x in p:
        if isinstance(x, bool) or isinstance(x, str):
            raise Unsettled(where)
        if not isinstance(x, numbers.Number):
            raise Unprintable(where, x)
        out.append(_number(x, where))
    return out


def _is_pair(p):
    return isinstance(p, (list, tuple)) and len(p) == 2 and not any(isinstance(x, (list, tuple)) for x in p)


def hidden(k):
    return k.startswith("__") and k.endswith("__")


def is_block(k, v):
    """Printed with an END of its own (the order that separate_complex_types asks for)."""
    return (
        k in PAIRS or k in ("points", "pattern", "projection") or (isinstance(v, dict) and "__type__" in v)
        or (isinstance(v, list) and any(isinstance(x, dict) for x in v))
    )


class Expect:
    """Tokens of a dictionary.  `bad` collects what has to be refused, `soft` what may be."""

    def __init__(self, separate=False):
        self.sep = separate
        self.bad = []
        self.soft = []
        self.unsettled = []

    def guard(self, f, *a):
        try:
            return f(*a)
        except Unprintable as e:
            self.bad.append((e.where, e.value))
        except Unsettled as e:
            self.unsettled.append(str(e))
        return []

    def obj(self, d, where="", root=False):
        if not isinstance(d, dict) or "__type__" not in d or d["__type__"] is None:
            self.bad.append((where or "the root", d))
            return []
        t = d["__type__"]
        if t in PAIRS:
            return self.pairs(t, d, where)
        if t not in V and t != "symbolset":
            self.unsettled.append(f"{where}: type {t!r}")
            return []
        out = [("word", t.upper())]
        items = [(k, d[k]) for k in d if not hidden(k)]
        if self.sep:
            def late(k, v):
                if k == "symbol":
                    return self.sep == "symbol" and root and is_block(k, v)
                return is_block(k, v)

            items = [i for i in items if not late(*i)] + [i for i in items if late(*i)]
        for k, v in items:
            out += self.item(t, k, v, f"{where}.{k}" if where else k)
        out.append(("word", "END"))
        return out

    def pairs(self, k, v, where):
        if not isinstance(v, dict):
            self.bad.append((where, v))
            return []
        if not v:
            self.soft.append((where, v))
        out = [("word", k.upper())]
        for a, b in v.items():
            if hidden(a):
                continue
            out.append(q(a))
            out += self.guard(lambda: [_free(b, f"{where}.{a}")])
        return out + [("word", "END")]

    def item(self, t, k, v, where):
        if k in ("layers", "classes", "styles", "labels", "symbols", "outputformats", "features", "scaletokens", "composites", "joins"):
            if not isinstance(v, list):
                self.bad.append((where, v))
                return []
            out = []
            for i, x in enumerate(v):
                out += self.obj(x, f"{where}[{i}]")
            return out
        if k in PAIRS:
            return self.pairs(k, v, where)
        if k == "config":
            if not isinstance(v, dict):
                self.bad.append((where, v))
                return []
            if not v:
                self.soft.append((where, v))
            out = []
            for a, b in v.items():
                if hidden(a):
                    continue
                out += [("word", "CONFIG"), ("qfold", a)]
                out += self.guard(lambda: [_free(b, f"{where}.{a}")])
            return out
        if k in REPEATED:
            if not isinstance(v, (list, tuple)):
                if isinstance(v, str):
                    self.unsettled.append(where)
                elif isinstance(v, dict) and not v:
                    self.soft.append((where, v))  # nothing to repeat
                else:
                    self.bad.append((where, v))
                return []
            out = []
            for i, x in enumerate(v):
                out.append(("word", k.upper()))
                out += self.guard(lambda: [_free(x, f"{where}[{i}]")])
            return out
        if k == "projection":
            return self.guard(self.proj, v, where)
        if k == "pattern":
            return self.guard(self.plist, k, v, where)
        if k == "points":
            if isinstance(v, (list, tuple)) and len(v) and all(isinstance(x, (list, tuple)) and len(x) and all(isinstance(y, (list, tuple)) for y in x) for x in v):
                out = []
                for i, x in enumerate(v):
                    out += self.guard(self.plist, k, x, f"{where}[{i}]")
                return out
            return self.guard(self.plist, k, v, where)
        if isinstance(v, dict) and "__type__" in v:
            return self.obj(v, where)
        if k == "symbol" and t == "symbolset":
            self.unsettled.append(where)
            return []
        return [("word", k.upper())] + self.guard(_scalar, t, k, v, where)

    def proj(self, v, where):
        out = [("word", "PROJECTION")]
        if isinstance(v, str):
            out.append(either(q(v), ("word", "AUTO")) if v.upper() == "AUTO" else q(v))
        elif isinstance(v, (list, tuple)):
            if not v:
                raise Unsettled(where)
            if len(v) == 1 and isinstance(v[0], str) and v[0].upper() == "AUTO":
                out.append(("word", "AUTO"))
            else:
                for i, x in enumerate(v):
                    if not isinstance(x, str):
                        raise Unprintable(f"{where}[{i}]", x)
                    out.append(q(x))
        else:
            raise Unprintable(where, v)
        return out + [("word", "END")]

    def plist(self, k, v, where):
        if not isinstance(v, (list, tuple)):
            raise Unprintable(where, v)
        if not v:
            raise Unsettled(where)
        out = [("word", k.upper())]
        for i, p in enumerate(v):
            out += _point(p, f"{where}[{i}]")
        return out + [("word", "END")]


def expected(root, separate=False):
    e = Expect(separate)
    out = []
    for i, d in enumerate(root if isinstance(root, list) else [root]):
        out += e.obj(d, f"[{i}]" if isinstance(root, list) else "", True)
    return out, e


def same(exp, act, quote):
    k = exp[0]
    if k == "either":
        return any(same(x, act, quote) for x in exp[1])
    if k == "q":
        return act[0] == "q" and act[1] == quote and act[2] == exp[1]
    if k == "qfold":
        return act[0] == "q" and act[1] == quote and act[2].upper() == exp[1].upper()
    if k == "raw":
        return act[0] == "raw" and act[1] == exp[1]
    if k == "word":
        return (act[0] == "word" and act[1] == exp[1]) or (act[0] == "num" and act[1].upper() == exp[1])
    if k == "num":
        if act[0] != "num":
            return False
        try:
            return (int(act[1]) if isinstance(exp[1], int) else float(act[1])) == exp[1]
        except ValueError:
            return False
    raise KeyError(k)


def compare(exp, act, quote):
    """None, or a description of the first difference."""
    for i in range(max(len(exp), len(act))):
        if i >= len(exp):
            return f"after everything the dictionary says, the text goes on with {act[i]}"
        if i >= len(act):
            return f"the text ends where {exp[i]} should follow {exp[i-1] if i else 'nothing'}"
        if not same(exp[i], act[i], quote):
            return f"token {i}: the text says {act[i]}, the dictionary {exp[i]} (after {act[i-1] if i else 'nothing'})"
    return None
