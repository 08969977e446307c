"""C03: pretty-printed text says exactly what the dictionary says.

The simulated system is an editing session: dictionaries that were loaded, created or built by hand are
edited through the dict API (set, replace, delete, insert, remove, reorder, snippets, mappyfile.update,
reads of missing keys, hidden keys, values without a representation) and printed again and again through
dumps, dump and save with seeded options, onto sinks that fail part way, and with schema reads that fail.
Every printed text is read back by an independent reader (sim/reader.py) and compared with what the
dictionary holds at that moment."""
import copy
import os
import random

from sim import docgen as D
from sim import reader as R
from sim import shrinklib as S
from sim.canon import sha, short
from sim.disk import Disk
from sim.lane import Violation

NAME = "C03"
LEVEL = "exploration"
NEEDS_SHIM = True
TECH = (
    "seeded editing sessions over the dict API, printed between edits through dumps/dump/save onto failing sinks and with failing "
    "schema reads, every text read back by an independent reader and compared with the dictionary"
)
CPU_LIMIT = 60
RUNS = {"quick": 3000, "thorough": 60000}
NONTRIVIAL_EVENTS = 3
RULE = (
    "A run is one editing session: 1..3 starting dictionaries (loaded text, mappyfile.create, plain or case-insensitive dicts) and 4..25 "
    "seeded edits, prints and faults; or one sweep of every keyword and value shape of one object type. Non-trivial: at least 3 events; "
    "distinct by event digest (edits and texts)."
)
STATE_MEASURE = "distinct (object type, keyword, lexical class) triples printed and compared"
REAL = ["mappyfile.loads/create/dumps/dump/save/update, PrettyPrinter, Quoter, Validator schemas, DefaultOrderedDict/CaseInsensitiveOrderedDict"]
STUBS = ["dump sinks that fail part way", "libc open/read/write faults on the schema folder and the saved file through sim/shim.c"]
ASSUMPTIONS = [
    "lexical classes are those of the vocabulary snapshot sim/vocab.json (from the shipped schemas) and the statement",
    "strings that hold the output quote character, or end in a backslash, are not generated",
    "empty METADATA/VALIDATION/VALUES/CONNECTIONOPTIONS/CONFIG dictionaries may be printed empty or refused",
    "a TEXT that is a single attribute binding may be bare or quoted",
]

QUOTES = ["'", '"', "`"]
SINGLE = D.SINGLE
PLURAL = {"layer": "layers", "class": "classes", "style": "styles", "label": "labels", "symbol": "symbols", "outputformat": "outputformats",
          "feature": "features", "scaletoken": "scaletokens", "composite": "composites", "join": "joins"}
# the vocabulary of the reader (nothing dropped) against the shapes that are generated
GEN = {t: dict(D.V[t]) for t in D.V}
for _t in ("class", "style"):
    GEN[_t]["symbol"] = GEN[_t]["symbol"] + [["blk", "symbol"]]
GEN["map"] = dict(GEN["map"])


def clean(s, opts):
    for c in "\"'`":
        s = s.replace(c, "")
    while s.endswith("\\"):
        s = s[:-1]
    return s


def gopts(rng):
    return {
        "size": rng.choice([1, 2, 4, 6]), "unicode": rng.random() < 0.5, "ctrl": rng.random() < 0.1, "ban_quote": rng.choice(["\"'", "\"'", '"', "'"]),
        "ban_words": (), "re_i": True, "anycase": rng.random() < 0.3, "comments": rng.random() < 0.2,
    }


HOWS = ["text", "text", "plain", "ci", "od", "create"]


def gen(rng, tier):
    opts = gopts(rng)
    starts = []
    for _ in range(rng.choice([1, 1, 2])):
        how = rng.choice(HOWS)
        o = dict(opts, ban_words=("include",)) if how == "text" else opts
        st = {"how": how}
        if how == "create":
            st["type"] = rng.choice(["map", "layer", "class", "style", "label", "web", "legend", "scalebar", "querymap", "reference", "outputformat", "symbol", "feature", "cluster", "composite", "join", "leader", "scaletoken", "grid"])
        else:
            st["doc"] = D.document(rng, dict(o, multi=rng.random() < 0.15), roots=None if rng.random() < 0.6 else D.ROOTS, depth=rng.choice([0, 1, 2, 2]))
            st["kw"] = {"include_comments": rng.random() < 0.25, "include_position": rng.random() < 0.25}
            st["ts"] = rng.randrange(1 << 30)
        starts.append(st)
    n = rng.choice([3, 6, 10, 16, 25]) if tier == "quick" else rng.choice([6, 16, 30, 60])
    ops = []
    for _ in range(n):
        k = rng.choices(
            ["set", "del", "insert", "remove", "reorder", "move", "pairs", "config", "points", "proj", "rep", "update", "read", "hidden", "bad", "repair", "print", "sinkfail", "schemafail", "savefail", "validate", "copy", "unknown"],
            [16, 5, 7, 3, 4, 2, 6, 3, 3, 2, 3, 6, 3, 4, 3, 5, 14, 3, 2, 3, 2, 2, 2],
        )[0]
        ops.append({"op": k, "r": rng.randrange(1 << 30)})
    return {"mode": "hist", "opts": dict(opts, ban_words=[]), "starts": starts, "ops": ops}


def pin_sweeps():
    return [{"mode": "sweep", "type": t, "r": i * 7919 + 5} for i, t in enumerate(sorted(GEN))]


PINNED = pin_sweeps() + [
    {"mode": "direct", "dict": {"__type__": "map", "name": "C:\\data\\"}},
    {"mode": "direct", "dict": {"__type__": "map", "name": "C:\\data\\x"}},
]


# ---- building ------------------------------------------------------------------------------


def mk(kind):
    from collections import OrderedDict
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict

    if kind == "ci":
        return CaseInsensitiveOrderedDict(CaseInsensitiveOrderedDict)
    return OrderedDict() if kind == "od" else {}


def build(b, kind):
    d = mk(kind)
    d["__type__"] = b["t"]
    for it in b["i"]:
        k = it[0]
        if k == "a":
            d[it[1]] = copy.deepcopy(it[3])
        elif k == "b":
            c = build(it[1], kind)
            t = it[1]["t"]
            if t in SINGLE:
                d[t] = c
            else:
                if PLURAL[t] not in d:
                    d[PLURAL[t]] = []
                d[PLURAL[t]].append(c)
        elif k == "kv":
            p = mk(kind)
            p["__type__"] = it[1]
            for a, v in it[2]:
                p[a] = v
            d[it[1]] = p
        elif k == "pts":
            pts = [list(p) for p in it[2]]
            if it[1] == "points" and "points" in d:
                old = d["points"]
                d["points"] = (old if isinstance(old[0][0], list) else [old]) + [pts]
            else:
                d[it[1]] = pts
        elif k == "proj":
            d["projection"] = ["auto"] if it[1] == "AUTO" else list(it[1])
        elif k == "cfg":
            if "config" not in d:
                d["config"] = mk(kind)
            d["config"][it[1].lower()] = it[2]
        elif k == "r":
            if it[1] not in d:
                d[it[1]] = []
            d[it[1]].append(it[2])
    return d


BAD = ["none", "emptylist", "empty", "emptyci", "dict", "object", "set", "bytes", "nan", "inf", "complex", "fraction"]


def bad_value(kind):
    from collections import OrderedDict
    from fractions import Fraction
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict

    if kind == "emptyci":
        return CaseInsensitiveOrderedDict(CaseInsensitiveOrderedDict)
    return {"none": None, "emptylist": [], "empty": {}, "dict": OrderedDict(name="x"), "object": object(), "set": {"a"}, "bytes": b"abc", "nan": float("nan"), "inf": float("-inf"), "complex": 1 + 2j, "fraction": Fraction(1, 2)}[kind]


# ---- the session ------------------------------------------------------------------------------


class Sink:
    """A file-like object that accepts so many characters, then fails."""

    def __init__(self, room):
        self.room = room
        self.got = []

    def write(self, s):
        if self.room is not None and len(s) > self.room:
            self.got.append(s[: self.room])
            self.room = 0
            raise OSError(28, "No space left on device")
        if self.room is not None:
            self.room -= len(s)
        self.got.append(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return "".join(self.got)


class World:
    def __init__(self, sc, ctx):
        import mappyfile

        self.m = mappyfile
        self.sc = sc
        self.ctx = ctx
        self.opts = dict(sc["opts"], ban_words=tuple(sc["opts"]["ban_words"]))
        self.trace = []
        self.roots = []
        self.disk = Disk([os.path.join(os.path.dirname(mappyfile.__file__), "schemas"), ctx.scratch])

    def say(self, s):
        self.trace.append(s)
        self.ctx.log(s)

    def hist(self):
        return " ; ".join(self.trace[-14:])

    # -- navigation: composites of all roots, in order

    def objs(self):
        out, seen = [], set()

        def walk(d, path, parent, key):
            if not isinstance(d, dict) or not dict.__contains__(d, "__type__") or id(d) in seen:
                return
            t = dict.get(d, "__type__")
            if t not in GEN and t != "symbolset":
                return
            seen.add(id(d))
            out.append((d, path, parent, key))
            for k in list(dict.keys(d)):
                v = dict.__getitem__(d, k)
                if R.hidden(k):
                    continue
                if isinstance(v, dict):
                    walk(v, f"{path}.{k}", d, k)
                elif isinstance(v, list):
                    for i, x in enumerate(v):
                        walk(x, f"{path}.{k}[{i}]", v, i)

        for i, r in enumerate(self.roots):
            for j, d in enumerate(r if isinstance(r, list) else [r]):
                walk(d, f"d{i}" + (f"[{j}]" if isinstance(r, list) else ""), None, None)
        return out

    def pick(self, rng, types=None):
        os_ = self.objs()
        if types:
            os_ = [o for o in os_ if dict.get(o[0], "__type__") in types]
        return rng.choice(os_) if os_ else None

    def snippet(self, rng, typ, depth=1):
        """An object made outside the document: from text, by hand, or created."""
        o = dict(self.opts, size=rng.choice([1, 2, 4]))
        how = rng.choice(["text", "plain", "ci", "od", "create"])
        if how == "create":
            return self.m.create(typ), f"create({typ!r})"
        b = D.block(rng, typ, depth, o)
        if how == "text":
            try:
                t = "\n".join(D.lines(b, rng, dict(o, comments=False)))
                if "include" not in t.lower():
                    d = self.m.loads(t)
                    if isinstance(d, dict):
                        return d, f"loads({short(t, 60)!r})"
            except Exception:
                pass
            how = "plain"
        return build(b, how), f"{how} {typ}"

    # -- printing

    def options(self, rng, root):
        o = {"quote": self.pick_quote(rng, root)}
        if rng.random() < 0.6:
            o["indent"] = rng.choice([0, 1, 2, 4, 8])
            o["spacer"] = rng.choice([" ", " ", "\t"])
            nl = ["\n", "\n", "\r\n"]
            o["end_comment"] = rng.random() < 0.3
            if not o["end_comment"] and "__comments__" not in repr_keys(root):
                nl += [" ", "  "]
            o["newlinechar"] = rng.choice(nl)
            o["align_values"] = rng.random() < 0.4
            o["separate_complex_types"] = rng.random() < 0.25
            if o["align_values"] and o["indent"] == 0:
                o["indent"] = 2
        return o

    def pick_quote(self, rng, root):
        ban = self.opts["ban_quote"]
        free = [q for q in "\"'" if q in ban]
        # strings in the document never hold the quotes of ban_quote
        return rng.choice(free) if len(free) > 1 else free[0]

    def judge(self, root, text, o, how):
        sep = bool(o.get("separate_complex_types"))
        first = None
        for s in ([True, "symbol"] if sep else [False]):
            exp, e = self.exp[s]
            try:
                act = R.read(text)
            except R.Unreadable as ex:
                raise Violation("unreadable", f"{self.hist()} ; {how}: the text cannot be read ({ex}): {short(text, 500)}")
            dif = R.compare(exp, act, o["quote"])
            if dif is None:
                first = None
                break
            first = first or dif
        if first:
            raise Violation("differs", f"{self.hist()} ; {how}: {first}; text: {short(text, 500)}")
        self.ctx.probe("texts compared")
        self.ctx.count("tokens compared", len(exp))

    def prepare(self, root, o):
        """What the text has to say, taken before printing.  -> "refuse", "may-refuse", "print", "skip" """
        self.exp = {}
        for s in ([True, "symbol"] if o.get("separate_complex_types") else [False]):
            self.exp[s] = R.expected(root, s)
        e = next(iter(self.exp.values()))[1]
        if e.bad:
            return "refuse", e
        if e.unsettled:
            return "skip", e
        return ("may-refuse" if e.soft else "print"), e

    def emit(self, root, o, f, how):
        """Print through f; judge the text or the refusal."""
        verdict, e = self.prepare(root, o)
        try:
            text = f()
        except Exception as ex:
            if verdict in ("refuse", "may-refuse"):
                self.ctx.probe("refused: " + type(ex).__name__)
                self.say(f"{how} refused")
                return None
            if verdict == "skip":
                return None
            raise Violation("refused", f"{self.hist()} ; {how} raised {type(ex).__name__}: {short(str(ex), 200)}", signature="refused:" + type(ex).__name__)
        if verdict == "skip":
            self.ctx.count("not judged: " + e.unsettled[0].split(".")[-1][:50])
            return text
        if verdict == "refuse":
            w, v = e.bad[0]
            raise Violation("printed-unprintable", f"{self.hist()} ; {how}: {w} holds {short(repr(v), 80)}, which has no Mapfile representation, but was written: {short(text, 400)}")
        self.judge(root, text, o, how)
        self.states(root)
        self.say(f"{how} -> {sha(text)[:8]}")
        return text

    def states(self, root):
        for d in root if isinstance(root, list) else [root]:
            self._states(d)

    def _states(self, d):
        t = d.get("__type__")
        for k in list(d):
            if R.hidden(k):
                continue
            v = d[k]
            if isinstance(v, dict):
                if "__type__" in v and t in GEN:
                    self._states(v)
            elif isinstance(v, list) and v and isinstance(v[0], dict):
                for x in v:
                    self._states(x)
            elif t in GEN:
                x = v[0] if isinstance(v, list) and v else v
                c = "b" if isinstance(x, bool) else "n" if isinstance(x, (int, float)) else "l" if isinstance(x, list) else x[:1] if isinstance(x, str) and x[:1] in "([{/#" else "s"
                self.ctx.state(f"{t}.{k}:{c}")

    def print_(self, rng, root, o, how):
        if how == "dumps":
            return self.emit(root, o, lambda: self.m.dumps(root, **o), f"dumps({o})")
        if how == "dump":
            s = Sink(None)

            def f():
                self.m.dump(root, s, **o)
                return s.text()

            return self.emit(root, o, f, f"dump({o})")
        p = os.path.join(self.ctx.scratch, f"out{rng.randrange(3)}.map")

        def g():
            self.m.save(root, p, **o)
            with open(p, encoding="utf-8", newline="") as fh:
                return fh.read()

        return self.emit(root, o, g, f"save({o})")


def repr_keys(x):
    out = set()

    def w(x):
        if isinstance(x, dict):
            for k in dict.keys(x):
                out.add(k)
                w(dict.__getitem__(x, k))
        elif isinstance(x, list):
            for y in x:
                w(y)

    w(x)
    return out


def start(w, st):
    rng = random.Random(st.get("ts", 0))
    if st["how"] == "create":
        w.say(f"d{len(w.roots)} = create({st['type']!r})")
        return w.m.create(st["type"])
    if st["how"] == "text":
        opts = dict(w.opts, ban_words=("include",))
        t = "\n".join(D.text_lines(st["doc"], rng, opts))
        try:
            d = w.m.loads(t, **st["kw"])
            w.say(f"d{len(w.roots)} = loads({short(t, 160)!r})")
            return d
        except Exception:
            w.ctx.count("start text rejected")
    bs = [build(b, "ci" if st["how"] == "text" else st["how"]) for b in st["doc"]]
    w.say(f"d{len(w.roots)} = {st['how']} {short(str(bs[0] if len(bs) == 1 else bs), 200)}")
    return bs[0] if len(bs) == 1 else bs


def anycase(rng, k, d):
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict

    if isinstance(d, CaseInsensitiveOrderedDict):
        return rng.choice([k, k, k.upper(), k.capitalize()])
    return k


# strings that look like something else; they are free strings where nothing else is allowed
ODD = [
    "", " ", "5", "-1.5", "1e3", "0x1F", "true", "FALSE", "on", "END", "end", "MAP", "auto", "#", "# x", "#abc", "a#b", "/* a", "*/", "a /* b */ c", "//", "/",
    "[a]-[b]", "[a] [b]", "[a", "a]", "[]", "a [b]", "(a", "a)", "a (b)", "{a", "a}", "{a} b", "/tmp/x", "tmp/", "/i", "a/i", "NOT", "NOT x", "not (a", "=", "i",
    "\\d+", "a\\b", "\ttab", "a\u00a0b", "\u2028", "`x`", "%v%", "a,b", "a:b", "a=b", "init=epsg:4326", " padded ", "\U0001f600", "None", "null", "nan", "{}x",
]
SHAPED = ["[a]", "(a)", "( [a] > 1 )", "/a/", "/a/i", "{a,b}", "{a}", "(a b)", "NOT (a)"]


def odd(rng, w, shapes):
    """An odd string for a keyword of these shapes."""
    if len({x[0] for x in shapes}) == 1:
        return fix(rng.choice(ODD + SHAPED), w)
    return fix(rng.choice(ODD), w)


ANY_SCALAR = sorted({k for t in GEN for k, ss in GEN[t].items() if all(s[0] in ("str", "enum", "int", "num", "bool") for s in ss)} - {"include"})


def attr_value(w, rng, t):
    ks = [k for k, ss in sorted(GEN[t].items()) if any(s[0] in D.ATTRK for s in ss)]
    if not ks:
        return None
    k = rng.choice(ks)
    ss = [s for s in GEN[t][k] if s[0] in D.ATTRK]
    s = rng.choice(ss)
    v = D.attr_item(rng, t, k, w.opts, s)[3]
    if isinstance(v, str):
        if s[0] == "str":
            v = fix(v, w)
            if len(GEN[t][k]) > 1 and D.looks_special(v):
                v = "plain"
            if rng.random() < 0.15:
                v = odd(rng, w, GEN[t][k])
        elif s[0] in ("expr", "bind", "list", "re") and v[:1] in tuple("([{/") and rng.random() < 0.2:
            # typed over several lines, as people do
            v = rng.choice([" " + v, v + " ", "\n    " + v + "\n", v + "\t"])
    return k, v


def fix(v, w):
    for c in w.opts["ban_quote"]:
        v = v.replace(c, "")
    while v.endswith("\\"):
        v = v[:-1]
    return v


# each operation: op_<name>(w, rng)


def op_set(w, rng, how=None):
    o = w.pick(rng)
    if not o:
        return
    d, p = o[:2]
    t = dict.get(d, "__type__")
    if t not in GEN:
        return
    kv = attr_value(w, rng, t)
    if not kv:
        return
    k, v = kv
    if isinstance(v, list) and rng.random() < 0.2:
        v = tuple(v)
    how = how or rng.choice(["item", "item", "item", "update", "setdefault", "mf.update"])
    kk = anycase(rng, k, d)
    if isinstance(dict.get(d, k), dict) and how in ("setdefault", "mf.update"):
        how = "item"
    if how == "item":
        d[kk] = v
    elif how == "update":
        d.update({k: v})
    elif how == "setdefault":
        d.setdefault(kk, v)
    else:
        try:
            w.m.update(d, {k: v})
        except Exception:
            d[kk] = v
            how = "item"
    w.say(f"{p} {how} {kk}={v!r}")


def op_unknown(w, rng):
    """A keyword that is in no schema of this type: a newer MapServer's, a private one, a misplaced or misspelt one."""
    o = w.pick(rng)
    if not o:
        return
    d, p = o[:2]
    t = dict.get(d, "__type__")
    if t not in GEN:
        return
    k = rng.choice(["foo", "vendorext", "x_1", "titel", "opacitty", rng.choice(ANY_SCALAR)])
    if k in GEN[t]:
        return
    r = rng.random()
    if r < 0.7:
        v = fix(rng.choice([D.free_string(rng, w.opts), rng.choice(ODD), "a b"]), w)
    elif r < 0.95:
        v = rng.choice([5, -2.5, True, False, [1, 2], ["a b", "c"], [0.5, "x y", 3], (1, 2)])
    else:
        v = rng.choice(SHAPED)
    d[anycase(rng, k, d)] = v
    w.say(f"{p} unknown {k}={v!r}")


def op_del(w, rng):
    o = w.pick(rng)
    if not o:
        return
    d, p = o[:2]
    ks = [k for k in dict.keys(d) if k != "__type__"]
    if not ks:
        return
    k = rng.choice(sorted(ks))
    if rng.random() < 0.5:
        del d[anycase(rng, k, d)]
    else:
        d.pop(anycase(rng, k, d))
    w.say(f"del {p}.{k}")


CHILDREN = {}
for _t in GEN:
    CHILDREN[_t] = sorted({s[1] for ss in GEN[_t].values() for s in ss if s[0] in ("blk", "blks")})


def op_insert(w, rng):
    o = w.pick(rng, [t for t in CHILDREN if CHILDREN[t]])
    if not o:
        return
    d, p = o[:2]
    t = dict.get(d, "__type__")
    c = rng.choice(CHILDREN[t])
    x, how = w.snippet(rng, c)
    if c in SINGLE or (c == "symbol" and t in ("class", "style")):
        d[c] = x
        w.say(f"{p}.{c} = {how}")
        return
    k = PLURAL[c]
    cur = dict.get(d, k)
    if cur is not None and not isinstance(cur, list):
        return
    if cur is None:
        if not getattr(d, "default_factory", None) or rng.random() < 0.5:
            d[k] = []
    lst = d[k]
    i = rng.randint(0, len(lst))
    lst.insert(i, x)
    w.say(f"{p}.{k}.insert({i}, {how})")


def lists(w):
    out = []
    for d, p, _, _ in w.objs():
        for k in sorted(dict.keys(d)):
            v = dict.__getitem__(d, k)
            if k in PLURAL.values() and isinstance(v, list) and v:
                out.append((v, f"{p}.{k}"))
    return out


def op_remove(w, rng):
    ls = lists(w)
    if not ls:
        return
    l, p = rng.choice(ls)
    i = rng.randrange(len(l))
    l.pop(i)
    w.say(f"{p}.pop({i})")


def op_reorder(w, rng):
    ls = [x for x in lists(w) if len(x[0]) > 1]
    if ls and rng.random() < 0.6:
        l, p = rng.choice(ls)
        if rng.random() < 0.5:
            l.reverse()
            w.say(f"{p}.reverse()")
        else:
            l.insert(0, l.pop())
            w.say(f"{p} rotated")
        return
    o = w.pick(rng)
    if not o:
        return
    d, p = o[:2]
    ks = [k for k in dict.keys(d) if not R.hidden(k)]
    if ks:
        k = rng.choice(ks)
        v = d.pop(k)
        d[k] = v
        w.say(f"{p}.{k} moved to the end")


def op_move(w, rng):
    ls = lists(w)
    if not ls:
        return
    l, p = rng.choice(ls)
    x = rng.choice(l)
    same = [(a, b) for a, b in ls if b.split(".")[-1] == p.split(".")[-1]]
    l2, p2 = rng.choice(same)
    if contains(x, l2):
        return
    l2.append(x)  # the same object in two places is printed in both
    w.say(f"{p2}.append({p}[..])")


def contains(x, l):
    if x is l:
        return True
    if isinstance(x, dict):
        return any(contains(dict.__getitem__(x, k), l) for k in dict.keys(x))
    if isinstance(x, list):
        return any(contains(y, l) for y in x)
    return False


def op_copy(w, rng):
    ls = lists(w)
    if not ls:
        return
    l, p = rng.choice(ls)
    i = rng.randrange(len(l))
    x = copy.deepcopy(l[i]) if rng.random() < 0.6 else copy.copy(l[i])
    l.insert(i, x)
    w.say(f"{p}[{i}] copied")


def pair_owner(w, rng):
    k = rng.choice(R.PAIRS)
    ts = [t for t in GEN if k in GEN[t]]
    o = w.pick(rng, ts)
    return (o[0], o[1], k) if o else None


def op_pairs(w, rng):
    x = pair_owner(w, rng)
    if not x:
        return
    d, p, k = x
    cur = dict.get(d, k)
    if cur is None:
        if getattr(d, "default_factory", None) and rng.random() < 0.5:
            d[anycase(rng, k, d)]  # auto-created by the read
        else:
            d[k] = rng.choice([dict, lambda: mk("ci")])()
            if rng.random() < 0.5:
                d[k]["__type__"] = k
    c = d[k]
    if not isinstance(c, dict):
        return
    if rng.random() < 0.2 and [a for a in c if not R.hidden(a)]:
        a = rng.choice([a for a in c if not R.hidden(a)])
        del c[a]
        w.say(f"del {p}.{k}[{a!r}]")
        return
    a = rng.choice(["wms_title", "ows_enable_request", "k", "default_x", "a b", "name", "layers", "points", "end", "x-y", "__x", "x__", "_a_"])
    v = rng.choice([fix(D.free_string(rng, w.opts), w), fix(D.free_string(rng, w.opts), w), 5, 2.5, "[a]", "(b)", "/c/"])
    c[anycase(rng, a, c)] = v
    w.say(f"{p}.{k}[{a!r}] = {v!r}")


def op_config(w, rng):
    o = w.pick(rng, ["map"])
    if not o:
        return
    d, p = o[:2]
    if "config" not in d:
        if not (getattr(d, "default_factory", None) and rng.random() < 0.5):
            d["config"] = mk(rng.choice(["ci", "plain"]))
    c = d["config"]
    if not isinstance(c, dict):
        return
    a = rng.choice(["ms_errorfile", "proj_lib", "ON_MISSING_DATA", "cpl_debug"])
    v = rng.choice([fix(D.free_string(rng, w.opts), w), 5, "ON"])
    c[a] = v
    w.say(f"{p}.config[{a!r}] = {v!r}")


def op_points(w, rng):
    k = rng.choice(["points", "pattern"])
    o = w.pick(rng, [t for t in GEN if k in GEN[t]])
    if not o:
        return
    d, p = o[:2]
    n = lambda: [[D.num(rng), D.num(rng)] for _ in range(rng.choice([1, 2, 3]))]
    v = n()
    if rng.random() < 0.3:
        v = [tuple(x) for x in v]
    if k == "points" and dict.get(d, "__type__") == "feature" and rng.random() < 0.5:
        v = [n() for _ in range(rng.choice([1, 2, 3]))]
    d[k] = v
    w.say(f"{p}.{k} = {v}")


def op_proj(w, rng):
    o = w.pick(rng, ["map", "layer"])
    if not o:
        return
    d, p = o[:2]
    v = rng.choice([["auto"], ["AUTO"], ["init=epsg:4326"], ["proj=utm", "zone=15"], "init=epsg:3857", ["proj=utm", "auto"]])
    d["projection"] = copy.copy(v)
    w.say(f"{p}.projection = {v}")


def op_rep(w, rng):
    k = rng.choice(["processing", "formatoption", "include", "compfilter"])
    o = w.pick(rng, [t for t in GEN if k in GEN[t]])
    if not o:
        return
    d, p = o[:2]
    v = rng.choice([fix(D.free_string(rng, w.opts), w), "BANDS=1,2", "[a]"])
    if dict.get(d, k) is None or not isinstance(d[k], list):
        d[k] = []
    d[k].insert(rng.randint(0, len(d[k])), v)
    w.say(f"{p}.{k} += {v!r}")


def op_update(w, rng):
    """mappyfile.update with a nested patch."""
    o = w.pick(rng)
    if not o:
        return
    d, p = o[:2]
    t = dict.get(d, "__type__")
    if t not in GEN:
        return
    patch = {}
    for _ in range(rng.choice([1, 2, 3])):
        kv = attr_value(w, rng, t)
        if kv and not isinstance(dict.get(d, kv[0]), dict):
            patch[kv[0]] = kv[1]
    for k, lst in [(k, dict.get(d, k)) for k in PLURAL.values()]:
        if isinstance(lst, list) and lst and rng.random() < 0.6:
            i = rng.randrange(len(lst))
            c = dict.get(lst[i], "__type__") if isinstance(lst[i], dict) else None
            if c in GEN:
                kv = attr_value(w, rng, c)
                if kv and not isinstance(dict.get(lst[i], kv[0]), dict):
                    patch[k] = [{} for _ in range(i)] + [{kv[0]: kv[1]}]
    for k in R.PAIRS:
        if isinstance(dict.get(d, k), dict) and rng.random() < 0.5:
            patch[k] = {"k": fix(D.free_string(rng, w.opts), w)}
    if rng.random() < 0.3:
        ks = [k for k in dict.keys(d) if not R.hidden(k) and k not in patch]
        if ks:
            patch[rng.choice(ks)] = {"__delete__": True}
    try:
        w.m.update(d, copy.deepcopy(patch))
    except Exception as e:
        w.say(f"update({p}, {short(repr(patch), 80)}) raised {type(e).__name__}")
        return
    w.say(f"update({p}, {short(repr(patch), 120)})")


def op_read(w, rng):
    """A read of a missing key: it may create an empty object, which has no representation."""
    o = w.pick(rng)
    if not o or not getattr(o[0], "default_factory", None):
        return
    d, p = o[:2]
    t = dict.get(d, "__type__")
    ks = [k for k in sorted(GEN.get(t, {})) if k not in d and k != "include"]
    if not ks:
        return
    k = rng.choice(ks)
    how = rng.choice(["item", "item", "get", "in", "chain"])
    try:
        if how == "item":
            d[anycase(rng, k, d)]
        elif how == "get":
            d.get(k)
        elif how == "in":
            k in d
        else:
            d[k]["inner"]
    except Exception:
        pass
    w.say(f"{p} read {how} {k}")


def op_hidden(w, rng):
    o = w.pick(rng)
    if not o:
        return
    d, p = o[:2]
    k = rng.choice(["__note__", "__x__", "____", "__a b__", "__1__", "__é__"])
    v = rng.choice(["secret", 5, None, {}, {"a": "b"}, [1, 2], True, [{"__type__": "layer"}]])
    where = d
    if rng.random() < 0.4:
        subs = [x for x in (dict.get(d, y) for y in R.PAIRS + ("config",)) if isinstance(x, dict)]
        if subs:
            where = rng.choice(subs)
            p += ".<pairs>"
    where[k] = v
    w.say(f"{p}[{k!r}] = {v!r}")


def op_bad(w, rng):
    """A value without representation somewhere; printing has to refuse until it is repaired."""
    o = w.pick(rng)
    if not o:
        return
    d, p = o[:2]
    t = dict.get(d, "__type__")
    if t not in GEN:
        return
    kind = rng.choice(BAD)
    v = bad_value(kind)
    r = rng.random()
    if r < 0.5:
        ks = [k for k in sorted(GEN[t]) if k != "include"]
        if not ks:
            return
        k = rng.choice(ks)
        if k in R.PAIRS + ("config",) and isinstance(v, dict):
            v = None
        d[k] = v
        where = k
    elif r < 0.7:
        subs = [(y, dict.get(d, y)) for y in R.PAIRS + ("config",) if isinstance(dict.get(d, y), dict)]
        if not subs:
            return
        y, c = rng.choice(subs)
        if rng.random() < 0.2:
            v = ["a", "b"]
        c["wms_bad"] = v
        where = f"{y}.wms_bad"
    elif r < 0.85:
        subs = [(y, dict.get(d, y)) for y in sorted(dict.keys(d)) if isinstance(dict.get(d, y), list) and dict.get(d, y) and not R.hidden(y)]
        if not subs:
            return
        y, c = rng.choice(subs)
        i = rng.randrange(len(c))
        if y in ("points", "pattern") and isinstance(c[i], list) and c[i] and not isinstance(c[i][0], (list, tuple)):
            c[i][0] = v
        else:
            c[i] = v
        where = f"{y}[{i}]"
    else:
        k = rng.choice(sorted(PLURAL.values()))
        if k not in GEN[t]:
            return
        d[k] = v if rng.random() < 0.5 else [v]
        where = k
    w.say(f"{p}.{where} = <{kind}>")


def op_repair(w, rng):
    """Remove what cannot be printed, wherever it is."""
    for root in w.roots:
        for _ in range(60):
            _, e = R.expected(root)
            bad = e.bad
            if not bad:
                break
            if not drop(root, bad[0][0]):
                break
            w.say(f"repair {bad[0][0]}")


def drop(root, path):
    import re

    parts = re.findall(r"\[(\d+)\]|([^.\[\]]+)", path)
    steps = [int(a) if a else b for a, b in parts]
    if not steps:
        return False
    x = root
    try:
        for s in steps[:-1]:
            x = dict.__getitem__(x, s) if isinstance(x, dict) else x[s]
        if isinstance(x, tuple):
            return False
        if isinstance(x, list) and len(x) == 1 or (isinstance(x, list) and not isinstance(x[0], dict) and len(steps) > 1):
            # a list cannot lose a single number of a pair or a colour: drop the keyword
            y = root
            last = max(i for i, s in enumerate(steps) if isinstance(s, str))
            for s in steps[:last]:
                y = dict.__getitem__(y, s) if isinstance(y, dict) else y[s]
            del y[steps[last]]
            return True
        del x[steps[-1]]
        return True
    except (KeyError, IndexError, TypeError):
        return False


def choose_root(w, rng):
    if not w.roots:
        return None
    r = rng.choice(w.roots)
    if rng.random() < 0.25:
        o = w.pick(rng)
        if o:
            return o[0]
    return r


def op_print(w, rng):
    root = choose_root(w, rng)
    if root is None:
        return
    w.print_(rng, root, w.options(rng, root), rng.choice(["dumps", "dumps", "dump", "save"]))


def op_sinkfail(w, rng):
    """dump onto a sink that fails part way; then again onto one that does not."""
    root = choose_root(w, rng)
    if root is None:
        return
    o = w.options(rng, root)
    s = Sink(rng.choice([0, 1, 7, 40, 200]))
    try:
        w.m.dump(root, s, **o)
        failed = False
    except OSError:
        failed = True
        w.ctx.fault("sink full")
    except Exception:
        failed = None
    w.say(f"dump onto a sink of {'enough' if failed is False else 'too little'} room")
    o2 = dict(o)
    t = w.print_(rng, root, o2, "dumps")
    if t is not None and failed and not t.startswith(s.text()):
        if not o.get("separate_complex_types"):
            raise Violation("partial-differs", f"{w.hist()}: the part written before the failure is not the start of the text: {short(s.text(), 200)}")


def op_schemafail(w, rng):
    root = choose_root(w, rng)
    if root is None:
        return
    o = w.options(rng, root)
    w.disk.arm([{"op": rng.choice(["open", "read"]), "nth": rng.choice([1, 1, 2, 3, 5, 9]), "act": "errno", "arg": rng.choice(["EIO", "EACCES", "EMFILE"]), "sticky": rng.random() < 0.3, "sub": "schemas/"}])
    t = None
    verdict, e = w.prepare(root, o)
    try:
        t = w.m.dumps(root, **o)
    except Exception as ex:
        w.say(f"dumps with failing schema reads: {type(ex).__name__}")
    n = sum(f for _, f in w.disk.fired())
    w.disk.disarm()
    if n:
        w.ctx.fault("schema read fails", n)
    if t is not None and verdict == "refuse":
        raise Violation("printed-unprintable", f"{w.hist()} ; dumps with failing schema reads wrote {short(repr(e.bad[0]), 100)}")
    if t is not None and verdict in ("print", "may-refuse"):
        # a text that was produced all the same has to be right
        w.judge(root, t, o, "dumps with failing schema reads")
    if n == 0 and t is None and verdict == "print":
        raise Violation("refused", f"{w.hist()} ; dumps raised without a fault", signature="refused")
    w.print_(rng, root, o, "dumps")


def op_savefail(w, rng):
    """save onto a disk that fails; what save reported as done has to be there."""
    root = choose_root(w, rng)
    if root is None:
        return
    o = w.options(rng, root)
    fault = rng.choice([
        {"op": "open", "act": "errno", "arg": "EACCES"}, {"op": "write", "act": "errno", "arg": "ENOSPC"}, {"op": "write", "act": "short", "arg": rng.choice([1, 10])},
        {"op": "write", "act": "errno", "arg": "EINTR"}, {"op": "close", "act": "errno", "arg": "EIO"},
    ])
    fault = dict(fault, nth=1, sticky=fault["act"] == "short", sub="out")
    w.disk.arm([fault])
    done = False

    def f():
        nonlocal done
        p = os.path.join(w.ctx.scratch, "outf.map")
        try:
            w.m.save(root, p, **o)
            done = True
        except OSError as ex:
            raise Faulted(ex) from ex
        finally:
            n = sum(x for _, x in w.disk.fired())
            w.disk.disarm()
            if n:
                w.ctx.fault(f"save {fault['op']} {fault.get('arg') if fault['act'] == 'errno' else fault['act']}", n)
        with open(p, encoding="utf-8", newline="") as fh:
            return fh.read()

    verdict, e = w.prepare(root, o)
    try:
        text = f()
    except Faulted:
        w.say("save failed")
    except Exception as ex:
        if verdict == "print":
            raise Violation("refused", f"{w.hist()} ; save raised {type(ex).__name__}: {ex}", signature="refused:" + type(ex).__name__)
    else:
        if verdict == "refuse":
            raise Violation("printed-unprintable", f"{w.hist()} ; save wrote {short(repr(e.bad[0]), 100)}")
        if verdict != "skip":
            w.judge(root, text, o, "save under faults")
    w.print_(rng, root, o, "dumps")


class Faulted(Exception):
    pass


def op_validate(w, rng):
    from mappyfile.validator import Validator

    o = w.pick(rng)
    if not o:
        return
    d, p = o[:2]
    try:
        if rng.random() < 0.5:
            w.m.validate(d)
        else:
            Validator().validate(d, add_comments=True)
        w.say(f"validate({p})")
    except Exception as e:
        w.say(f"validate({p}) raised {type(e).__name__}")


def run(sc, ctx):
    if sc["mode"] == "sweep":
        return sweep(sc, ctx)
    if sc["mode"] == "direct":
        return direct(sc, ctx)
    w = World(sc, ctx)
    for st in sc["starts"]:
        w.roots.append(start(w, st))
    for op in sc["ops"]:
        ctx.steps += 1
        ctx.count(op["op"])
        globals()["op_" + op["op"]](w, random.Random(op["r"]))
    rng = random.Random(len(sc["ops"]) * 7 + 1)
    for root in w.roots:
        w.print_(rng, root, {"quote": w.pick_quote(rng, root)}, "dumps")
    op_repair(w, rng)
    for root in w.roots:
        for how in ("dumps", "save"):
            w.print_(rng, root, w.options(rng, root), how)


def direct(sc, ctx):
    """One dictionary, as it is."""
    w = World({"opts": dict(gopts(random.Random(1)), ban_words=[], ban_quote="")}, ctx)
    d = copy.deepcopy(sc["dict"])
    w.say(f"d0 = {short(repr(d), 200)}")
    ctx.steps += 1
    try:
        w.emit(d, {"quote": '"'}, lambda: w.m.dumps(d), "dumps()")
    except Violation as v:
        if any(x.endswith("\\") for x in strings(d)):
            raise Violation(v.kind, v.msg, signature="string-trailing-backslash")
        raise


def strings(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from strings(v)
    elif isinstance(x, list):
        for v in x:
            yield from strings(v)


def sweep(sc, ctx):
    """Every keyword of one object type with every shape of value it takes, one at a time."""
    rng = random.Random(sc["r"])
    w = World({"opts": dict(gopts(rng), ban_words=[], ban_quote="\"'", unicode=True)}, ctx)
    t = sc["type"]
    for k in sorted(GEN[t]):
        for s in GEN[t][k]:
            for kind in ("plain", "ci"):
                n = 3 if s[0] in ("str", "expr", "re", "rei", "mixed") else 1
                vals = []
                if s[0] == "enum":
                    vals = [x for word in s[1] for x in (word, word.upper())]
                elif s[0] in ("strenum", "inum"):
                    vals = list(s[1])
                elif s[0] in D.ATTRK:
                    for _ in range(n):
                        v = D.attr_item(rng, t, k, w.opts, s)[3]
                        vals.append(fix(v, w) if s[0] == "str" else v)
                    if s[0] == "str":
                        vals += ODD + (SHAPED if len({x[0] for x in GEN[t][k]}) == 1 else [])
                elif s[0] in ("points", "mpoints"):
                    vals = [[[1, 2], [3.5, -4]]] + ([[[[1, 2], [3, 4]], [[5, 6], [7, 8]]], [[[1, 2]]]] if s[0] == "mpoints" else [])
                elif s[0] == "proj":
                    vals = [["auto"], ["AUTO"], ["init=epsg:4326"], "init=epsg:4326", ["a", "b"], ["auto", "b"], "auto"] + [[x] for x in ODD + SHAPED]
                elif s[0] == "kv":
                    vals = [{"__type__": k, "a": "b", "c d": "[e]"}, {"a": 5}, {x: y for x, y in zip(ODD + SHAPED, reversed(ODD + SHAPED))}]
                elif s[0] == "cfg":
                    vals = [{"ms_errorfile": "stderr", "x": 5}, {x: y for x, y in zip(ODD + SHAPED, reversed(ODD + SHAPED))}]
                elif s[0] == "rep":
                    vals = [["a=b"], ["a=b", "[c]"], ODD + SHAPED]
                elif s[0] in ("blk", "blks"):
                    c = {"__type__": s[1]}
                    vals = [c] if s[0] == "blk" else [[c], [c, dict(c)]]
                for v in vals:
                    d = mk(kind)
                    d["__type__"] = t
                    d[k] = copy.deepcopy(v)
                    w.trace[:] = [f"{kind} {t}: {k} = {v!r}"]
                    ctx.steps += 1
                    for q in "\"'":
                        if isinstance(v, str) and q in v and s[0] == "str":
                            continue
                        w.emit(d, {"quote": q}, lambda: w.m.dumps(d, quote=q), f"dumps(quote={q})")
            for bad in BAD:
                v = bad_value(bad)
                if isinstance(v, dict) and k in R.PAIRS + ("config",):
                    continue
                d = mk("ci")
                d["__type__"] = t
                d[k] = v
                w.trace[:] = [f"{t}: {k} = <{bad}>"]
                w.emit(d, {"quote": '"'}, lambda: w.m.dumps(d), "dumps()")
    ctx.log(t, ctx.steps)


# ---- minimisation ----------------------------------------------------------------------------


def shrink(sc, test):
    if sc["mode"] != "hist":
        return sc
    sc = S.ddmin_list(sc, ["ops"], test)
    sc = S.ddmin_list(sc, ["starts"], test, 1)
    for i, st in enumerate(sc["starts"]):
        if "doc" not in st:
            continue
        sc = S.ddmin_list(sc, ["starts", i, "doc"], test, 1)

        def blocks(b, p):
            yield p + ["i"]
            for j, it in enumerate(b["i"]):
                if it[0] == "b":
                    yield from blocks(it[1], p + ["i", j, 1])

        for j in range(len(sc["starts"][i]["doc"])):
            for p in sorted(blocks(sc["starts"][i]["doc"][j], ["starts", i, "doc", j]), key=len):
                try:
                    S.get(sc, p)
                except (KeyError, IndexError, TypeError):
                    continue
                sc = S.ddmin_list(sc, p, test)
    return sc
