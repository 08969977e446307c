"""C11: any input is either parsed or rejected with a parse error, promptly.

The simulated system is a reader (loads / load / a reused Parser) fed from a store whose blocks a
seeded fault injector damages: torn and lost writes, truncation, duplicated, reordered and
misdirected blocks, flipped bytes, and interrupted token-level edits.  Whatever arrives, the call
must end in a dictionary or in a positioned Lark error; termination is judged by deterministic
event counts at growing sizes, with a CPU limit as the backstop."""
import glob
import io
import os
import random
import re
import sys
import time

from sim import docgen as D
from sim import shrinklib as S
from sim.canon import sha, short
from sim.lane import REPO, Violation

NAME = "C11"
LEVEL = "exploration"
TECH = (
    "seeded damage to the stored text (torn, truncated, lost, duplicated, reordered, misdirected blocks, flipped bytes, "
    "interrupted token edits), exception family and position judged per call, progress judged by event counts at growing sizes"
)
CPU_LIMIT = 60
RUNS = {"quick": 2000, "thorough": 60000}
NONTRIVIAL_EVENTS = 3
RULE = (
    "A run is one store holding 4..14 documents (generated, corpus, vocabulary soup) whose stored text is damaged by 0..5 seeded "
    "faults and then read through loads, load or one reused Parser, or one repeated unit read at sizes n and 4n under event "
    "counting. Non-trivial: at least 3 events; distinct by event digest (texts and outcomes)."
)
STATE_MEASURE = "distinct (fault kinds applied, outcome class, expected-token class of the error) triples"
REAL = ["mappyfile.loads/load/Parser/MapfileToDict", "lark and lark_cython (lark alone in one run of eight)"]
STUBS = ["the stored text: an in-memory store with seeded faults", "Lark grammar compilation memoised per lane (not in replays)"]
ASSUMPTIONS = [
    "an error raised while a fully parsed tree is transformed (lark VisitError) needs no position",
    "nesting of expressions, operator chains and blocks is bounded at 100",
    "INCLUDE directives are not expanded when the text has any (reading files is C15's)",
]


class LaneState:
    pass


def corpus():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "tests", "**", "*.map"), recursive=True)) + sorted(
        glob.glob(os.path.join(REPO, "docs", "**", "*.map"), recursive=True)
    ):
        try:
            if os.path.getsize(f) < 9000:
                out.append(f)
        except OSError:
            pass
    return out


_CORPUS = None


def corpus_text(rng):
    global _CORPUS
    if _CORPUS is None:
        _CORPUS = corpus()
    if not _CORPUS:
        return None
    f = rng.choice(_CORPUS)
    with open(f, encoding="utf-8", errors="replace", newline="") as fh:
        return fh.read()


# ---- texts -------------------------------------------------------------------------------

WORDS = sorted({k for t in D.V for k in D.V[t]} | set(D.V) | {"symbolset", "end", "points", "pattern", "projection", "metadata", "validation", "values", "connectionoptions", "config", "include"})
OPERS = ["=", "==", "!=", "<", "<=", ">", ">=", "~", "~*", "=*", "%", "IN", "EQ", "NE", "LT", "LE", "GT", "GE", "LIKE", "AND", "OR", "NOT", "&&", "||", "!", "+", "-", "*", "/", "^", "(", ")", "{", "}", "[", "]", ",", "[attr]", "(", ")"]
LITS = ["1", "-1", "2.5", "1.e5", ".5", "0x1F", "1e3", "12abc", "'s'", '"s"', "`s`", "'s'i", '"s"i', "/re/", "/re/i", "\\\\re\\\\", "%var%", "#aabbcc", '"#aabbcc"', "'#abc'", "NULL", "TRUE", "FALSE", "AUTO", "HILITE", "SELECTED", "a/b.png", "../x.shp", "./a", "/abs/p.map", "name-with-dash", "a:b", "éa", "ünï", "日本", "a.b", "@", ";", "$x", "\x00", "\x07", "\x7f", "\ud800", "\U0001f5fa", "\u2028", "\x85", "\ufeff", "\\", "'", '"', "`", "#", "# c\n", "/*", "*/", "/* c */", "//", "/", "%", "_", "-", ":", "+", "--1", "1 2", "9" * 30]
SEPS = [" ", "\n", "  ", "\t", "\r\n", "\f", "", "\n\n", "\r", "\v", "\xa0"]


def soup(rng):
    n = rng.choice([1, 2, 3, 5, 8, 13, 30, 60])
    out = []
    style = rng.random()
    if rng.random() < 0.7:
        out.append(rng.choice(D.ROOTS + ["symbolset", "metadata", "validation", "connectionoptions"]))
    for _ in range(n):
        r = rng.random()
        if r < 0.45:
            w = rng.choice(WORDS)
        elif r < 0.6:
            w = rng.choice(["END", "end", "END", "CLASS", "STYLE", "SYMBOL", "LAYER", "GRID", "POINTS", "NAME", "LABEL", "STYLE"])
        elif r < 0.75:
            w = rng.choice(OPERS)
        else:
            w = rng.choice(LITS)
        out.append(w.upper() if style < 0.6 else w)
    if rng.random() < 0.5:
        out += ["END"] * rng.choice([1, 1, 2])
    sep = rng.choice(SEPS[:5])
    if style < 0.3:
        return "".join(w + rng.choice(SEPS) for w in out)
    return sep.join(out)


def nest(rng):
    """Bounded nesting: at most 100 levels in all."""
    n = rng.choice([5, 20, 60, 99])
    k = rng.randrange(8)
    base = rng.choice(["[a]", "1", "'x'", "[a] = 1", '"[n]" ~ "x"'])
    tail = "" if rng.random() < 0.7 else rng.choice([")", "(", " AND", " = ", "]"])
    if k == 0:
        e = "(" * n + base + ")" * n
    elif k == 1:
        e = "( " + rng.choice([" AND ", " OR ", " && ", " || "]).join([rng.choice(["[a] = 1", "[b] < 2", "'x' = 'y'"])] * n) + " )"
    elif k == 2:
        e = "( " + rng.choice([" + ", " * ", " - ", " / ", " ^ "]).join(["[a]"] * n) + " = 1 )"
    elif k == 3:
        e = "(" + "f(" * n + "[a]" + ")" * n + ")"
    elif k == 4:
        e = "( " + " = ".join(["[a]"] * n) + " )"
    elif k == 5:
        e = "{" * n + "a" + "}" * n
    elif k == 6:
        m = min(n, 90)
        return "\n".join(["LAYER", "CLASS", "STYLE", "LABEL"][i % 4] for i in range(m)) + "\nNAME 'x'\n" + "END\n" * (m + rng.choice([0, 0, 0, -1, 1]))
    else:
        e = "( NOT " * min(n, 90) + "( [a] = 1 )" + ")" * min(n, 90)
    return rng.choice(["CLASS\nEXPRESSION %s%s\nEND", "LAYER\nFILTER %s%s\nEND", "CLASS TEXT %s%s END", "STYLE GEOMTRANSFORM %s%s END", "CLUSTER GROUP %s%s END"]) % (e, tail)


def tiny(rng):
    """Root blocks of every type, with comments and separators around."""
    t = rng.choice(D.ROOTS)
    lead = rng.choice(["", "", "# c\n", "/* c */ ", "\n\n", "\t"])
    body = rng.choice(["", "", " # c\n", "\n", " NAME 'x' ", " name x "])
    case = rng.choice([str.upper, str.lower, str.capitalize])
    s = lead + case(t) + rng.choice([" ", "\n", "\r\n", "\t"]) + body + rng.choice([" ", "\n"]) + rng.choice(["END", "end", "End"]) + rng.choice(["", "\n", " # e", "\r\n"])
    if rng.random() < 0.15:
        s = s + "\n" + s
    return s


def base_text(rng):
    r = rng.random()
    if r < 0.5:
        opts = {
            "size": rng.choice([1, 2, 4]), "comments": rng.random() < 0.5, "unicode": rng.random() < 0.4, "ctrl": rng.random() < 0.15,
            "anycase": rng.random() < 0.3, "multi": rng.random() < 0.2, "re_i": rng.random() < 0.2, "ban_words": ("include",),
        }
        doc = D.document(rng, opts, roots=D.ROOTS if rng.random() < 0.4 else None, depth=rng.choice([0, 1, 2]))
        return "generated", rng.choice(["\n", "\n", "\r\n", " \n"]).join(D.text_lines(doc, rng, opts))
    if r < 0.62:
        t = corpus_text(rng)
        if t is not None:
            return "corpus", t
    if r < 0.84:
        return "soup", soup(rng)
    if r < 0.9:
        return "nested", nest(rng)
    return "root", tiny(rng)


TOK = re.compile(r"\"[^\"\n]*\"|'[^'\n]*'|\s+|[A-Za-z0-9_.\-]+|.", re.S)


def damage(rng, text, kind, others):
    """One fault on the stored text."""
    n = len(text)
    if not n:
        return text
    bs = rng.choice([1, 4, 16, 64, 256])
    blocks = [text[i : i + bs] for i in range(0, n, bs)]
    i = rng.randrange(len(blocks))
    if kind == "truncate":
        return text[: rng.randrange(n)]
    if kind == "torn_write":
        other = rng.choice(others) if others else ""
        cut = rng.randrange(n)
        return text[:cut] + other[cut:]
    if kind == "lost_block":
        del blocks[i]
        return "".join(blocks)
    if kind == "zeroed_block":
        blocks[i] = "\x00" * len(blocks[i])
        return "".join(blocks)
    if kind == "dup_block":
        blocks.insert(i, blocks[i])
        return "".join(blocks)
    if kind == "swap_blocks":
        j = rng.randrange(len(blocks))
        blocks[i], blocks[j] = blocks[j], blocks[i]
        return "".join(blocks)
    if kind == "misdirected":
        other = rng.choice(others) if others else text
        if other:
            s = rng.randrange(len(other))
            blocks[i] = other[s : s + bs]
        return "".join(blocks)
    if kind == "bit_flip":
        p = rng.randrange(n)
        b = bytearray(text[p].encode("utf-8", "surrogatepass"))
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        return text[:p] + bytes(b).decode("utf-8", rng.choice(["replace", "surrogateescape"])) + text[p + 1 :]
    toks = TOK.findall(text)
    i = rng.randrange(len(toks))
    j = min(len(toks), i + rng.choice([1, 1, 2, 5]))
    if kind == "tok_delete":
        del toks[i:j]
    elif kind == "tok_dup":
        toks[i:i] = toks[i:j]
    elif kind == "tok_swap":
        k = rng.randrange(len(toks))
        toks[i], toks[k] = toks[k], toks[i]
    elif kind == "tok_insert":
        toks.insert(i, rng.choice([" ", "\n"]) + rng.choice([rng.choice(LITS), rng.choice(OPERS), rng.choice(WORDS).upper(), "END"]) + rng.choice([" ", "\n", ""]))
    elif kind == "tok_replace":
        toks[i] = rng.choice([rng.choice(LITS), rng.choice(OPERS), rng.choice(WORDS).upper(), "END", ""])
    elif kind == "splice":
        other = rng.choice(others) if others else text
        ot = TOK.findall(other) or [""]
        k = rng.randrange(len(ot))
        toks[i:j] = ot[k : k + rng.choice([1, 3, 10])]
    elif kind == "unterminated":
        toks[i] = rng.choice(["'", '"', "`", "/", "/*", "%", "{", "(", "[", "\\\\", "'x", '"x', "/re", '"#aab', "#"]) + toks[i]
    return "".join(toks)


KINDS = [
    "truncate", "torn_write", "lost_block", "zeroed_block", "dup_block", "swap_blocks", "misdirected", "bit_flip",
    "tok_delete", "tok_dup", "tok_swap", "tok_insert", "tok_replace", "splice", "unterminated",
]

UNITS = [
    ("METADATA\n", "'k{i}' \"v\"\n", "END"),
    ("LAYER METADATA\n", "'same' 'v'\n", "END END"),
    ("MAP\n", "CONFIG 'k{i}' 'v'\n", "END"),
    ("MAP\n", "CONFIG 'same' 'v'\n", "END"),
    ("FEATURE\n", "POINTS 1 2 3 4 END\n", "END"),
    ("FEATURE POINTS\n", "{i} 2.5\n", "END END"),
    ("STYLE PATTERN\n", "1 2\n", "END END"),
    ("MAP PROJECTION\n", "'p{i}'\n", "END END"),
    ("MAP\n", "# comment {i}\n", "END"),
    ("MAP\n", "NAME 'x' # comment {i}\n", "END"),
    ("MAP\n", "/* c {i} */ NAME 'x'\n", "END"),
    ("MAP\n# lead\n", "/* c\n {i} */\n", "NAME 'x' END"),
    ("MAP NAME 'x'\n", "# trailing {i}\n", "NAME 'x' LAYER NAME 'y' END END"),
    ("MAP\n", "\n", "END"), ("MAP", " ", "END"), ("MAP\n", "\r\n", "END"), ("", "CLASS END\n", ""), ("", "\t \n", "MAP END"),
    ("MAP NAME '", "x", "' END"), ("MAP NAME '", "x ", ""), ('MAP NAME "', '\\"', ""), ('MAP NAME "', "\\\\", '" END'), ('MAP NAME "', "\\", '" END'),
    ('MAP NAME "', "a\n", '" END'), ("MAP NAME '", "\\'", ""), ("MAP NAME `", "a", ""), ("MAP NAME `", "a ", "` END"),
    ("MAP /*", " x *", ""), ("MAP /*", " / * x\n", "*/ END"), ("MAP ", "/*", ""), ("MAP ", "/", ""), ("MAP NAME ", "/a", " END"), ("MAP NAME ", "/a ", " END"), ("CLASS EXPRESSION /", "a", "/ END"), ("CLASS EXPRESSION /", "(a*)*", ""),
    ("CLASS EXPRESSION \\\\", "a\\", ""), ("LAYER DATA ", "a.", " END"), ("LAYER DATA ", "a/", "! END"), ("LAYER DATA ", "_", " END"), ("LAYER DATA ", "../", "a END"), ("LAYER DATA ", "a_", "/ END"),
    ("LAYER DATA ", ".", " END"), ("LAYER DATA ", "a.-", "! END"), ("LAYER DATA ", "-", "! END"), ("LAYER DATA ", "a-", "! END"), ("LAYER DATA ", "a:", "! END"), ("LAYER DATA ", "a_b.", "! END"), ("LAYER DATA ", "a.b/", "! END"), ("LAYER DATA ", "..", "! END"), ("LAYER DATA ", "./", "! END"), ("MAP NAME %", "a", ""), ("MAP NAME ", "%a%", " END"), ("MAP NAME ", "1", "a END"), ("MAP NAME ", "-", " END"), ("MAP NAME ", "1.", " END"), ("MAP NAME ", "1e", " END"),
    ("STYLE COLOR \"#", "aaa", "\" END"), ("STYLE COLOR '#", "a", " END"), ("MAP ", "'", " END"), ("MAP ", '"', ""), ("MAP ", "'a' ", "END"), ("MAP ", "(", ""), ("MAP ", "[", ""), ("MAP ", "END ", ""),
    ("CLASS EXPRESSION {", "a{i},", "b} END"), ("CLASS EXPRESSION {", "'a b',", "b} END"), ("CLASS EXPRESSION {a", " b", "} END"),
    ("CLASS TEXT (f(", "'a',", "'b')) END"), ("", "CLASS EXPRESSION ( [a] = 1 AND [b] = 2 )\nEND\n", ""), ("LAYER\n", "CLASS EXPRESSION ( [a] IN 'x,y' )\nSTYLE END END\n", "END"),
    ("LAYER\n", "PROCESSING 'a={i}'\n", "END"), ("OUTPUTFORMAT\n", "FORMATOPTION 'a={i}'\n", "END"), ("MAP\n", "INCLUDE 'x{i}'\n", "END"), ("LAYER\n", "SCALETOKEN NAME 'a' VALUES '0' 'x' END END\n", "END"),
    ("SYMBOLSET\n", "SYMBOL NAME 's{i}' TYPE ELLIPSE POINTS 1 1 END END\n", "END"), ("MAP\n", "NAME 'x' ", "END"), ("MAP\n", "NAME x\n", "LAYER LAYER END"), ("MAP ", "SIZE 1 2 EXTENT 1 2 3 4 ", "END"),
    ("LAYER VALIDATION ", "'default_a' 'x' ", "END END"), ("LAYER CONNECTIONOPTIONS ", "'a{i}' 'x' ", "END END"), ("MAP WEB METADATA ", "# c {i}\n'k{i}' 'v'\n", "END END END"),
    ("LAYER\n", "DATA /a/b ", "END"), ("LAYER ", "DATA /a/b/c.shp ", "END"), ("LAYER ", "PROCESSING '/a' ", "END"), ("LAYER ", "CLASS EXPRESSION /a1/ END ", "END"), ("LAYER ", "CLASS EXPRESSION /a1/i END ", "END"),
    ("LAYER ", "CLASS EXPRESSION ( [a] / 2 > 1 ) END ", "END"), ("LAYER ", "CLASS EXPRESSION ( [a] % 2 = 1 ) END ", "END"), ("LAYER ", "CLASS EXPRESSION \\\\a\\\\ END ", "END"), ("LAYER ", "DATA `a` ", "END"), ("LAYER ", "DATA %a% ", "END"),
    ("CLASS EXPRESSION {", "'a',", "'b'} END"), ("CLASS EXPRESSION {", "it's,", "b} END"), ("LAYER ", "DATA aaaa ", "END"), ("LAYER ", "DATA 111 ", "END"), ("LAYER ", "TRANSPARENCY 1.5 ", "END"), ("SYMBOLSET ", "SYMBOL NAME SYMBOL END ", "END"), ("LAYER ", "GRID END ", "END"),
    ("MAP ", "WEB END ", "END"), ("MAP ", "EXTENT -1 -1.5 1e5 1 ", "END"), ("LABEL ", "COLOR [a] ", "END"), ("STYLE ", "COLOR '#aabbcc' ", "END"), ("STYLE ", "COLOR 'red' ", "END"), ("LABEL ", "OFFSET [a] [b] ", "END"), ("LAYER ", "CLASS TEXT ('[a]') END ", "END"),
    ("LAYER\n", "# c\nCLASS # d\nNAME 'x' # e\nEND # f\n", "END"), ("LAYER\n", "/* c */ NAME 'x' /* d */\n", "END"), ("LAYER\nNAME 'x' ", "/* c */ ", "END"), ("LAYER ", "CLASS EXPRESSION /*1/ END ", "END"), ("MAP\n", "include\n", "END"),
    ("MAP\n", "    ", "\nEND"), ("MAP NAME 'x", "\n", "' END"), ("MAP NAME 'x", "\n include\n", "' END"), ("MAP\n", "INCLUDE    ", "\nEND"), ("MAP\nINCLUDE ", "'", "\nEND"), ("MAP\nINCLUDE", " ", "\nEND"), ("MAP\nINCLUDE 'a' ", "#", "\nEND"),
]


CHARS = [chr(c) for c in range(33, 127)] + ["\t", "\xe9", "\u65e5", "\x00"]
HEADS = ["LAYER DATA ", "LAYER DATA '", 'MAP NAME "', "CLASS EXPRESSION ", "CLASS EXPRESSION (", "CLASS EXPRESSION {", "CLASS TEXT (f(", "MAP CONFIG a ", "STYLE COLOR ", "STYLE SIZE 1", "MAP METADATA ", "MAP ", "", "MAP # ", "MAP /* ", "CLASS EXPRESSION /", "LAYER DATA %", "LAYER DATA `", "MAP\nINCLUDE", "LAYER DATA a", "LAYER DATA /", "STYLE PATTERN ", "SYMBOL "]


def char_unit(rng):
    """A run of one character, or of two or three, where it is or is not a token."""
    u = "".join(rng.choice(CHARS) for _ in range(rng.choice([1, 1, 2, 2, 3])))
    if rng.random() < 0.3:
        u = rng.choice([".", "/", "-", "_", "a", "1", ":", "'", "\\", "*", " "]) + u[:1]
    return rng.choice(HEADS), u, rng.choice([" END", "END", "", "\nEND", "' END", '" END', ") END", "} END", "/ END", "!"])


def unit(rng):
    """(head, repeated unit, tail) for a long repetitive input."""
    r = rng.randrange(12)
    if r <= 3:
        typ = rng.choice(D.ROOTS)
        opts = {"size": 3, "ban_words": ("include",), "comments": rng.random() < 0.2}
        b = D.block(rng, typ, 1, opts)
        if r <= 1:
            u = "\n".join(D.lines(b, rng, opts, 1)) + "\n"
            return rng.choice(["MAP\n", "LAYER\n", "", "SYMBOLSET\n", "CLASS\n"]), u, "END"
        for _ in range(20):
            if b["i"]:
                break
            b = D.block(rng, typ, 1, opts)
        items = b["i"] or [["r", "processing", "x=y"]]
        one = {"t": typ, "i": [rng.choice(items)]}
        ls = D.lines(one, rng, opts, 0)
        return ls[0] + "\n", "\n".join(ls[1:-1]) + "\n", ls[-1]
    if rng.random() < 0.5:
        return rng.choice(UNITS)
    return char_unit(rng)


def _pin(i, u):
    c = {"include_comments": i % 2 == 0, "include_position": i % 3 == 0}
    return {"mode": "scale", "head": u[0], "unit": u[1], "tail": u[2], "n": 300, "kw": c, "pure": False, "big": 40000}


# every repetitive shape is tried in every batch
RUNS_OF_ONE = [("LAYER DATA ", c, " END") for c in CHARS if c not in "'\"#`"] + [("LAYER DATA ", "a" + c, "\nEND") for c in CHARS if not c.isalnum()]
# texts of very many cheap lines show work done per line on the whole text, which happens inside C calls
PINNED = [dict(_pin(i, u), **({"big": 90000} if u[1] in ("\n", "\r\n", "\t \n") else {})) for i, u in enumerate(UNITS)] + [dict(_pin(i, u), big=0) for i, u in enumerate(RUNS_OF_ONE)]


def kw_for(rng):
    return {"include_comments": rng.random() < 0.35, "include_position": rng.random() < 0.35}


def gen(rng, tier):
    pure = rng.random() < 0.12
    if rng.random() < 0.13:
        h, u, t = unit(rng)
        return {
            "mode": "scale", "head": h, "unit": u, "tail": t, "n": rng.choice([150, 300, 400]) if len(u) > 80 or pure else rng.choice([300, 500, 700]),
            "kw": kw_for(rng), "pure": pure, "big": 0 if rng.random() < 0.6 else 40000,
        }
    texts = [base_text(rng) for _ in range(rng.choice([4, 6, 10, 14]))]
    pool = [t for _, t in texts]
    cases = []
    for src, t in texts:
        nf = rng.choices([0, 1, 2, 3, 5], [12, 45, 22, 12, 9])[0]
        if src == "root" and rng.random() < 0.6:
            nf = 0
        faults = []
        for _ in range(nf):
            k = rng.choice(KINDS)
            t = damage(rng, t, k, pool)
            faults.append(k)
        cases.append({
            "src": src, "faults": faults, "text": t, "kw": kw_for(rng), "via": rng.choices(["loads", "load", "parser"], [6, 1, 2])[0],
        })
    return {"mode": "store", "cases": cases, "pure": pure}


# ---- execution ---------------------------------------------------------------------------


def go_pure():
    """Run on plain lark, as an installation without lark_cython does."""
    os.environ["MAPPYFILE_USE_CYTHON"] = "false"
    for m in [m for m in sys.modules if m == "mappyfile" or m.startswith("mappyfile.")]:
        del sys.modules[m]
    import logging

    import mappyfile

    logging.getLogger("mappyfile").setLevel(logging.CRITICAL + 10)
    return mappyfile


def has_include(text):
    """A line that names a file to include (a bare INCLUDE has nothing to read and is left to the parser)."""
    return any(re.match(r"\s*include\s*\S", l, re.I) for l in text.split("\n"))


def depth_of(text):
    """A bound on nesting: brackets, chained operators and open blocks."""
    d = max(text.count("("), text.count("{"), text.count("["))
    d += len(re.findall(r"[-+*/^=<>~%&|!]|\b(?:and|or|not|in|eq|ne|lt|le|gt|ge|like)\b", text, re.I)) if d else 0
    return d


def call(mf, text, kw, via, parsers):
    kw = dict(kw)
    if has_include(text):
        kw["expand_includes"] = False
    if via == "load":
        return mf.load(io.StringIO(text, newline=""), **kw)
    if via == "parser":
        from mappyfile.parser import Parser
        from mappyfile.transformer import MapfileToDict

        k = (kw.get("expand_includes", True), kw["include_comments"], kw["include_position"])
        if k not in parsers:
            parsers[k] = (
                Parser(expand_includes=k[0], include_comments=k[1]),
                MapfileToDict(include_comments=k[1], include_position=k[2]),
            )
        p, m = parsers[k]
        return m.transform(p.parse(text))
    return mf.loads(text, **kw)


def offset(text, line, col):
    ls = text.split("\n")
    if not (1 <= line <= len(ls)) or not (1 <= col <= len(ls[line - 1]) + 1):
        return None
    return sum(len(l) + 1 for l in ls[: line - 1]) + col - 1


def is_dict_result(r):
    if isinstance(r, dict):
        return True
    return isinstance(r, list) and len(r) > 0 and all(isinstance(x, dict) for x in r)


def run_one(mf, text, kw, via, parsers):
    """-> (outcome, exception or None)"""
    try:
        r = call(mf, text, kw, via, parsers)
    except Exception as e:
        return type(e).__name__, e
    if not is_dict_result(r):
        raise Violation("not-a-dict", f"{via}({short(repr(text), 300)}) returned {type(r).__name__} {short(repr(r), 200)}", text=text)
    return "ok", None


def judge(mf, c, parsers, ctx):
    import lark.exceptions as LE

    text, kw, via = c["text"], c["kw"], c["via"]
    out, e = run_one(mf, text, kw, via, parsers)
    where = f"{via}({short(repr(text), 400)}, {kw})"
    if e is None:
        return "ok", None
    if isinstance(e, RecursionError) and depth_of(text) > 100:
        ctx.probe("beyond the nesting bound")
        return "deep", None
    if not isinstance(e, LE.LarkError):
        raise Violation("foreign-exception", f"{where} raised {type(e).__module__}.{type(e).__name__}: {short(str(e), 200)}", signature="foreign-exception:" + type(e).__name__)
    if isinstance(e, LE.VisitError):
        o = e.orig_exc
        if isinstance(o, RecursionError) and depth_of(text) <= 100:
            raise Violation("recursion", f"{where} exhausted the recursion limit within the nesting bound")
        return "VisitError:" + type(o).__name__, None
    line, col = getattr(e, "line", None), getattr(e, "column", None)
    if not (isinstance(line, int) and isinstance(col, int)) or isinstance(line, bool) or line < 1 or col < 1:
        raise Violation("no-position", f"{where} raised {type(e).__name__} without a usable position: line={line!r} column={col!r}")
    if re.search("\r(?!\n)", text):
        return out, None
    off = offset(text, line, col)
    if off is None:
        raise Violation("position-outside", f"{where}: {type(e).__name__} at line {line} column {col}, which is not in the text")
    tok = getattr(e, "token", None)
    if isinstance(e, LE.UnexpectedToken) and tok is not None and str(getattr(tok, "type", "")) != "$END":
        s = getattr(tok, "value", tok)
        s = s if isinstance(s, str) else str(s)
        if text[off : off + len(s)] != s:
            raise Violation("position-wrong", f"{where}: unexpected token {s!r} reported at line {line} column {col}, where the text has {text[off : off + 20]!r}")
        ctx.probe("position checked against the token")
        return out, (off, max(1, len(s)))
    if isinstance(e, LE.UnexpectedCharacters):
        ch = getattr(e, "char", None)
        if isinstance(ch, str) and text[off : off + 1] != ch:
            raise Violation("position-wrong", f"{where}: unexpected character {ch!r} reported at line {line} column {col}, where the text has {text[off : off + 20]!r}")
        ctx.probe("position checked against the character")
        return out, (off, 1)
    if isinstance(e, LE.UnexpectedToken):
        # the text ended too early: the position is that of the last token read
        ctx.probe("unexpected end of text")
        # any text cut at that point has to be incomplete too, never in error before it
        return out, (len(text), 0)
    return out, None


def first_error(mf, text, kw):
    """Offset of the offending token; len(text) if the text is complete or merely incomplete."""
    import lark.exceptions as LE

    try:
        call(mf, text, kw, "loads", None)
    except LE.UnexpectedToken as e:
        if str(getattr(e.token, "type", "")) == "$END":
            return len(text)
        return offset(text, e.line, e.column)
    except LE.UnexpectedCharacters as e:
        return offset(text, e.line, e.column)
    except Exception:
        pass
    return len(text)


def offending(mf, c, pos, ctx):
    """The reported token is the first that no continuation could have made acceptable: the text
    before it fails nowhere, and the text up to it fails right there."""
    text, kw = c["text"], c["kw"]
    off, n = pos
    if off == 0 or not text[off - 1].isspace():
        return
    a = first_error(mf, text[:off], kw)
    if a is not None and a < off and text[:off][a:].strip():
        raise Violation("not-first-error", f"loads({short(repr(text), 400)}) reports offset {off}, but the text before it already fails at offset {a}")
    end = off + n
    if n and (end >= len(text) or text[end].isspace()):
        b = first_error(mf, text[: end + 1], kw)
        if b is not None and b != off:
            raise Violation("not-offending", f"loads({short(repr(text), 400)}) reports offset {off}, but the text up to and including that token is {'acceptable so far' if b > off else f'in error at {b}'}")
    ctx.probe("offending token confirmed by prefixes")


MEASURED = {"superlinear-time"}


def counted(f):
    """Deterministic cost of f(): Python calls, returns to loops and branches."""
    M = sys.monitoring
    tool = 3
    cnt = [0]

    def bump(*a):
        cnt[0] += 1

    M.use_tool_id(tool, "c11")
    try:
        ev = M.events.PY_START | M.events.JUMP | M.events.BRANCH | M.events.PY_RESUME
        for e in (M.events.PY_START, M.events.JUMP, M.events.BRANCH, M.events.PY_RESUME):
            M.register_callback(tool, e, bump)
        M.set_events(tool, ev)
        try:
            r = f()
        finally:
            M.set_events(tool, 0)
            for e in (M.events.PY_START, M.events.JUMP, M.events.BRANCH, M.events.PY_RESUME):
                M.register_callback(tool, e, None)
    finally:
        M.free_tool_id(tool)
    return r, cnt[0]


def scaled(sc, n):
    u = sc["unit"]
    if "{i}" in u:
        return sc["head"] + "".join(u.replace("{i}", str(i)) for i in range(n)) + sc["tail"]
    return sc["head"] + u * n + sc["tail"]


def run(sc, ctx):
    import mappyfile as mf

    if sc.get("pure"):
        mf = go_pure()
        ctx.count("runs on plain lark")
    if sc["mode"] == "scale":
        return run_scale(sc, ctx, mf)
    parsers = {}
    for c in sc["cases"]:
        ctx.count("texts")
        ctx.count("source:" + c["src"])
        ctx.count("via:" + c["via"])
        for k in c["faults"]:
            ctx.fault(k)
        ctx.steps += 1
        out, pos = judge(mf, c, parsers, ctx)
        ctx.count("outcome:" + (out if out != "ok" else "dict"))
        ctx.log(sha(c["text"]), out, pos)
        ctx.state((tuple(sorted(set(c["faults"])))[:3], out, None if pos is None else c["text"][pos[0] : pos[0] + min(pos[1], 6)].upper()))
        if c["src"] == "root" and not c["faults"] and out != "ok":
            raise Violation("root-rejected", f"loads({c['text']!r}): a block type at the root was rejected with {out}")
        if pos is not None and c["via"] == "loads" and len(c["text"]) < 6000:
            offending(mf, c, pos, ctx)
        if ("LarkError" in out or out == "ParseError") and pos is None:
            ctx.probe("other syntax errors")


def cpu(f):
    t = time.process_time()
    r = f()
    return r, time.process_time() - t


def run_scale(sc, ctx, mf):
    n = sc["n"]
    costs, outs = [], []

    def one(m):
        return judge(mf, {"text": scaled(sc, m), "kw": sc["kw"], "via": "loads"}, {}, ctx)

    def empty():
        return mf.loads("MAP END", **sc["kw"])

    # what a call costs without any text (each compiles the grammar) is measured and taken off
    empty()
    _, base = counted(empty)
    for m in (n, 4 * n):
        (out, pos), cost = counted(lambda: one(m))
        costs.append(max(1000, cost - base))
        outs.append(out)
        ctx.steps += 1
        ctx.log(m, out)
    ctx.count("repetitive inputs")
    ctx.state(("scale", sha(sc["unit"])[:8], outs[1]))
    where = f"{sc['unit']!r} in {sc['head']!r}..{sc['tail']!r} ({sc['kw']})"
    if outs[0] == outs[1] and costs[1] > 7 * costs[0] + 20000:
        raise Violation("superlinear", f"{costs[0]} steps for {n} repetitions of {where}, {costs[1]} for {4 * n}: not proportional to the length")
    ctx.probe("cost compared at n and 4n")
    if not sc["big"]:
        return
    # the regular expressions of the lexer run in C, out of sight of the event count: CPU time at
    # 40 thousand and four times as many characters, confirmed by repeating both
    m = max(2 * n, sc["big"] // max(1, len(sc["unit"])))
    a, b = [], []
    base = min(cpu(empty)[1] for _ in range(3))
    for i in range(3):
        (o1, _), t1 = cpu(lambda: one(m))
        (o2, _), t2 = cpu(lambda: one(4 * m))
        a.append(max(0.01, t1 - base))
        b.append(t2 - base)
        # the fastest of the long ones against the slowest of the short ones
        if not (o1 == o2 and min(b) > 7 * max(a) + 0.3):
            break
    else:
        # regular expressions that start with /* are tried as comments first, up to the end of the text
        kind = "superlinear-time"
        sig = "comment-scan" if "/*" in sc["unit"] and "*/" not in scaled(sc, 2) else kind
        raise Violation(kind, f"the CPU time for {4 * m} repetitions is more than 7 times that for {m} repetitions of {where}: not proportional to the length", signature=sig)
    ctx.log("big", o2)
    ctx.probe("CPU time compared at m and 4m (40 and 160 thousand characters)")


# ---- minimisation ------------------------------------------------------------------------


def shrink(sc, test):
    if sc["mode"] == "scale":
        for k, v in (("big", 0), ("pure", False), ("n", 150), ("n", 100)):
            cand = dict(sc, **{k: v})
            if cand != sc and test(cand):
                sc = cand
        for k in ("unit", "head", "tail"):
            sc = S.shrink_text(sc, [k], test, ("\n", " "))
        return sc
    sc = S.ddmin_list(sc, ["cases"], test, 1)
    if sc.get("pure") and test(dict(sc, pure=False)):
        sc = dict(sc, pure=False)
    for i in range(len(sc["cases"])):
        for k, v in (("via", "loads"), ("faults", []), ("kw", {"include_comments": False, "include_position": False})):
            cand = S.with_value(sc, ["cases", i, k], v)
            if cand != sc and test(cand):
                sc = cand
        sc = S.shrink_text(sc, ["cases", i, "text"], test)
    return sc
