"""C12: calls are pure, history-independent and safe to run concurrently.

The simulated system is a process with 1..16 caller threads.  A seeded scheduler owns every
hand-over between them (preemption at any line or bytecode instruction of mappyfile, lock
operations and sleeps), each thread owns worker objects it reuses over a history of documents,
arguments are shared between threads, files change on disk and reads fail.  Every call's result is
compared with the same call made alone, with fresh objects, in a pristine interpreter."""
import builtins
import gc
import io
import json
import os
import random

from sim import docgen as D
from sim import sched as SC
from sim import shrinklib as S
from sim.canon import canon, canon_exc, first_diff, fp, sha, short
from sim.disk import Disk, fault_name, is_hard
from sim.lane import REPO, Discard, Violation

NAME = "C12"
LEVEL = "exploration"
TECH = "seeded thread interleavings (preemption at lines/instructions of mappyfile), call histories on reused worker objects, changing files and failing reads, against each call alone in a pristine interpreter"
NEEDS_SHIM = True
CPU_LIMIT = 120
RUNS = {"quick": 600, "thorough": 20000}
RULE = (
    "A run is 1..16 simulated threads, each with a history of API calls and reused Parser/MapfileToDict/PrettyPrinter/"
    "Validator objects over shared and private arguments, one seeded schedule (random or PCT priorities, line or "
    "instruction preemption) and injected read/write failures; every call is compared with its own result in a pristine "
    "process and every argument with itself before the call. Non-trivial: at least 3 events; distinct by event digest, "
    "which covers the schedule."
)
STATE_MEASURE = "distinct (location of the preempted thread, location of the resumed thread) pairs"
REAL = ["mappyfile.*", "lark, lark_cython, jsonschema, jsonref", "CPython threads (one runs at a time)", "kernel file system under a scratch directory"]
STUBS = [
    "thread scheduler, threading/_thread locks, time and sleep (sim/sched.py)", "libc open/read/write faults through sim/shim.c",
    "Lark grammar compilation memoised per lane in most runs (not in replays)",
]
ASSUMPTIONS = [
    "a call that overlaps an injected I/O failure may raise, but if it returns, its result must be the right one",
    "preemption happens at lines or instructions of Python code (mappyfile; lark/jsonschema/jsonref/referencing in wide runs), not inside C extensions",
]


def before_import():
    SC.install()


# ---- documents ---------------------------------------------------------------------------


def mk_doc(rng, kind=None):
    kind = kind or rng.choices(["ok", "bad", "invalid", "multi", "snippet"], [60, 12, 12, 6, 10])[0]
    opts = {
        "size": rng.choice([1, 2, 3, 4]), "comments": rng.random() < 0.6, "unicode": rng.random() < 0.3,
        "anycase": rng.random() < 0.3, "multi": kind == "multi", "ban_words": ("include",), "ban_quote": '"\\',
        "re_i": rng.random() < 0.2,
    }
    if kind == "snippet":
        k = rng.choice(["metadata", "validation", "connectionoptions"])
        return k.upper() + ' # c\n  "a" "b"\n  "Key" \'v%d\'\nEND' % rng.randint(0, 3)
    doc = D.document(rng, opts, depth=rng.choice([0, 1, 1, 2]))
    lines = D.text_lines(doc, rng, opts)
    if kind == "bad":
        m = rng.randrange(6)
        i = rng.randrange(len(lines))
        if m == 0:
            lines = lines[: max(1, i)]
        elif m == 1:
            lines.insert(i, rng.choice(["END", "END END", "FOO BAR BAZ !", '"', "LAYER LAYER", "# half\n/* open"]))
        elif m == 2:
            del lines[-1]
        elif m == 3:
            lines[i] = lines[i] + rng.choice([" = ", " (", ' "', " END"])
        elif m == 4:
            lines.insert(0, "# lead comment\n" + rng.choice(["NAME", "}", "12"]))
        else:
            lines.append("garbage ( [a")
    elif kind == "invalid":
        for _ in range(rng.choice([1, 2])):
            lines.insert(rng.randrange(1, len(lines)) if len(lines) > 2 else 1, rng.choice(["STATUS NOTASTATUS", "SIZE -1 -1", "TYPE 12", "UNITS PARSECS", "OPACITY 777", "DEBUG 99"]))
    return "\n".join(lines)


POOL = {}


def pool_doc(rng):
    i = rng.randrange(32)
    if i not in POOL:
        POOL[i] = mk_doc(random.Random(f"pool:{i}"), "ok" if i % 4 else "invalid")
    return POOL[i]


EDIT_KEYS = ["name", "status", "debug", "metadata", "group", "maxscaledenom", "web", "type", "nosuchkey", "extent"]
EDIT_VALS = ["x", "ON", 5, 1.5, True, [1, 2, 3], "[a]", "(1 = 1)", {}, None, "Été", {"k": "v"}, [], "END"]


# values in the shapes that the printer treats one by one
PUTS = [
    ("projection", ["auto"]), ("projection", "auto"), ("projection", ["AUTO"]), ("projection", ["init=epsg:4326", "x"]), ("projection", "init=epsg:4326"), ("projection", []),
    ("config", {"Key": "v", "__type__": "config"}), ("config", {"ms_errorfile": "x", "__note__": 1}), ("config", {}), ("config", {"a": " padded ", "B": "", "c": "x\ty"}), ("metadata", {"K": "  two  blanks ", "l": "line\nline"}), ("processing", [" a ", "b "]),
    ("metadata", {"A": "b", "c": 5}), ("metadata", {"__type__": "metadata", "Wms_Title": "x", "__comments__": {"wms_title": ["# c"]}}), ("validation", {"q": "^[a]$"}), ("connectionoptions", {"flat": "yes"}),
    ("points", [[1, 2], [3, 4]]), ("points", [[[1, 2]], [[3, 4], [5, 6.5]]]), ("points", [[1, 2]]), ("pattern", [[5, 5], [1, 1]]), ("pattern", []),
    ("processing", ["BANDS=1", "BANDS=1"]), ("processing", "BANDS=1"), ("formatoption", ["A=1"]), ("include", ["a.map"]), ("compfilter", ["grayscale()"]),
    ("color", [1, 2, 3]), ("color", "#AABBCC"), ("color", "[Attr]"), ("size", [10, 20]), ("size", "[S]"), ("expression", "([A] > 1)"), ("expression", "{a,b}"), ("expression", "/Re/i"), ("text", "([A])"), ("geomtransform", "END"),
    ("offset", ["[a]", 1]), ("labelitem", "It's"), ("title", 'a "b" c'), ("data", ["one"]), ("data", "x"), ("symbol", "Circle"), ("symbol", 5), ("style", 1), ("__comments__", {"name": "# kept", "__type__": ["# a", "# b"]}),
]
HIDDEN = ["__type__", "__note__", "__comments__", "__position__", "__x"]


def dicts(d):
    out = []

    def walk(x):
        if isinstance(x, dict):
            out.append(x)
            for v in list(x.values()):
                walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                walk(v)

    walk(d)
    return out


def mk_edits(rng):
    out = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        k = rng.choices(["set", "put", "hide", "tup", "del", "read", "child", "empty", "notype", "rev"], [5, 5, 2, 1, 2, 3, 2, 1.2, 0.8, 1])[0]
        key, val = rng.choice(PUTS) if k == "put" else (rng.choice(HIDDEN), rng.choice(["x", "metadata", 5, {}])) if k == "hide" else (rng.choice(EDIT_KEYS), rng.choice(EDIT_VALS))
        out.append([k, rng.randrange(8), key, val, rng.choice(["layers", "classes", "styles", "labels", "symbols"])])
    return out


def composites(d):
    out = []

    def walk(x):
        if isinstance(x, dict):
            if "__type__" in list(x.keys()):
                out.append(x)
            for v in list(x.values()):
                walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                walk(v)

    walk(d)
    return out or ([d] if isinstance(d, dict) else [])


def apply_edits(d, edits):
    import mappyfile.ordereddict as od

    for k, i, key, val, lst in edits:
        cs = composites(d)
        if not cs:
            return d
        c = cs[i % len(cs)]
        try:
            if k == "hide":
                ds = dicts(d)
                c = ds[(i * 7 + len(ds) - 1) % len(ds)]
                if key not in c:
                    c[key] = json.loads(json.dumps(val))
            elif k == "tup":
                for kk in list(c.keys()):
                    if isinstance(c[kk], list):
                        c[kk] = tuple(c[kk])
            elif k in ("set", "put"):
                c[key] = json.loads(json.dumps(val))
            elif k == "del":
                if key in c:
                    del c[key]
            elif k == "read":
                c[key]
            elif k in ("child", "empty", "notype"):
                l = c.get(lst)
                if not isinstance(l, list):
                    c[lst] = l = []
                if k == "child":
                    l.append({"__type__": lst[:-1] if lst != "classes" else "class", "name": "added"})
                elif k == "empty":
                    l.append(od.CaseInsensitiveOrderedDict(od.CaseInsensitiveOrderedDict))
                else:
                    x = od.CaseInsensitiveOrderedDict(od.CaseInsensitiveOrderedDict)
                    x["name"] = "untyped"
                    l.append(x)
            elif k == "rev":
                for kk in list(c.keys()):
                    if isinstance(c[kk], list):
                        c[kk].reverse()
        except (KeyError, TypeError, AttributeError):
            pass
    return d


# ---- arguments: serialised by the oracle, rebuilt without calling the API -----------------


class Foreign(Exception):
    pass


def ser(x):
    if x is None or type(x) in (bool, int, float, str):
        return x
    t = type(x)
    if isinstance(x, dict):
        if t.__module__ not in ("mappyfile.ordereddict", "collections", "builtins"):
            raise Foreign(str(t))
        df = getattr(x, "default_factory", None)
        return {"D": t.__name__, "f": getattr(df, "__name__", None) if df else None, "i": [[ser(k), ser(v)] for k, v in x.items()]}
    if t is list:
        return [ser(v) for v in x]
    if t is tuple:
        return {"T": [ser(v) for v in x]}
    raise Foreign(str(t))


def rebuild(s):
    if isinstance(s, list):
        return [rebuild(v) for v in s]
    if not isinstance(s, dict):
        return s
    if "T" in s:
        return tuple(rebuild(v) for v in s["T"])
    import collections

    import mappyfile.ordereddict as od

    name = s["D"]
    if name == "dict":
        return {rebuild(k): rebuild(v) for k, v in s["i"]}
    if name == "OrderedDict":
        return collections.OrderedDict((rebuild(k), rebuild(v)) for k, v in s["i"])
    cls = getattr(od, name)
    x = cls(getattr(od, s["f"], None) or getattr(builtins, s["f"], None) or getattr(collections, s["f"])) if s["f"] else cls()
    for k, v in s["i"]:
        collections.OrderedDict.__setitem__(x, rebuild(k), rebuild(v))
    return x


# ---- operations: one function for the oracle and for the lane -----------------------------

VERS = [None, 4.8, 5.0, 5.6, 6.0, 6.2, 6.4, 7.0, 7.2, 7.4, 7.6, 8.0, 8.2, 8.6, 7, 99.0, 0.5]
SCHEMAS = ["map", "layer", "class", "style", "label", "web", "symbol", "outputformat", "metadata", "cluster", "join"]
PPK = {
    "indent": [0, 1, 2, 4, 8], "spacer": [" ", "\t"], "quote": ['"', "'"], "newlinechar": ["\n", "\r\n"],
    "end_comment": [True, False], "align_values": [True, False],
}


class Sink(io.StringIO):
    """A file that accepts `room` characters and then fails, as a full disk does."""

    def __init__(self, room=None):
        super().__init__()
        self.room = room

    def write(self, s):
        if self.room is not None and self.tell() + len(s) > self.room:
            super().write(s[: max(0, self.room - self.tell())])
            raise OSError(28, "No space left on device")
        return super().write(s)


class BadReader(io.StringIO):
    def read(self, *a):
        raise OSError(5, "Input/output error")


class Fresh:
    """Resolver used by the oracle: everything is new."""

    def __init__(self, dir):
        self.dir = dir

    def path(self, op):
        return op["root"] if op.get("rel") else os.path.join(self.dir, op["root"])

    def arg(self, op):
        return rebuild_arg(op["a"])

    def worker(self, kind, op):
        return new_worker(kind, op["cfg"])

    def arg2(self, op):
        return json.loads(json.dumps(op["b"]))


def rebuild_arg(spec):
    import mappyfile

    return apply_edits(mappyfile.loads(spec["text"], **spec["kw"]), spec["edits"])


def new_worker(kind, cfg):
    from mappyfile.parser import Parser
    from mappyfile.pprint import PrettyPrinter
    from mappyfile.transformer import MapfileToDict
    from mappyfile.validator import Validator

    if kind == "P":
        return Parser(expand_includes=cfg["exp"], include_comments=cfg["cm"])
    if kind == "M":
        return MapfileToDict(include_position=cfg["pos"], include_comments=cfg["cm"])
    if kind == "PP":
        return PrettyPrinter(**cfg["pp"])
    return Validator()


# files next to the working directory of the process, for texts that come without a file name
STATIC = {"cwd0.map": "NAME 'zero'", "cwd1.map": "# c1\nDEBUG 1\n", "deep/cwd2.map": "# deep\nINCLUDE 'cwd0.map'\nSTATUS ON", "deep/cwd3.map": "INCLUDE deep/cwd2.map # c"}


def write_static(dir):
    for rel, text in STATIC.items():
        p = os.path.join(dir, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with builtins.open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text)


def write_files(dir, op):
    mt = op.get("mtime", 0)
    for rel, text in op["files"].items():
        p = os.path.join(dir, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        # written outside the faulty part of the disk, then moved into place
        tmp = os.path.join(os.path.dirname(os.path.dirname(dir)), "stage")
        with builtins.open(tmp, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        os.replace(tmp, p)
        os.utime(p, (1_600_000_000 + mt, 1_600_000_000 + mt))


def perform(op, R):
    """Runs one call -> (raw result, canonical result, argument dict or None)."""
    import mappyfile

    k = op["k"]
    arg = None
    raw = None
    try:
        if k == "loads":
            raw = mappyfile.loads(op["text"], **op["kw"])
            out = canon(raw)
        elif k == "open":
            raw = mappyfile.open(R.path(op), **op["kw"])
            out = canon(raw)
        elif k == "load":
            if op["how"] == "file":
                with builtins.open(R.path(op), encoding="utf-8", newline="") as f:
                    raw = mappyfile.load(f, **op["kw"])
            elif op["how"] == "bad":
                raw = mappyfile.load(BadReader("x"), **op["kw"])
            else:
                raw = mappyfile.load(io.StringIO(op["text"], newline=""), **op["kw"])
            out = canon(raw)
        elif k == "dumps":
            arg = R.arg(op)
            raw = mappyfile.dumps(arg, **op["kw"])
            out = canon(raw)
        elif k == "dump":
            arg = R.arg(op)
            sink = Sink(op.get("room"))
            try:
                mappyfile.dump(arg, sink, **op["kw"])
                out = ["dumped", sink.getvalue()]
            except OSError as e:
                out = ["dump failed", type(e).__name__, sink.getvalue()]
        elif k == "save":
            arg = R.arg(op)
            p = os.path.join(R.dir, op["root"])
            raw = mappyfile.save(arg, p, **op["kw"])
            with builtins.open(p, "rb") as f:
                out = ["saved", raw == p, f.read().hex()]
        elif k == "validate":
            arg = R.arg(op)
            raw = mappyfile.validate(arg, version=op["v"])
            out = canon(raw)
        elif k == "create":
            raw = mappyfile.create(op["type"], **({} if op["v"] is None else {"version": op["v"]}))
            out = canon(raw)
        elif k in ("find", "findall", "findunique", "findkey"):
            arg = R.arg(op)
            cs = composites(arg)
            c = cs[op["c"] % len(cs)] if cs else {}
            if k == "findkey":
                raw = mappyfile.findkey(c, *op["path"])
            else:
                lst = c.get(op["lst"], [])
                if k == "findunique":
                    raw = mappyfile.findunique(lst, op["key"])
                elif k == "findall":
                    raw = mappyfile.findall(lst, op["key"], op["val"])
                else:
                    raw = mappyfile.find(lst, op["key"], op["val"])
            out = canon(raw)
            raw = None  # parts of the argument: not ours to keep
        elif k == "update":
            d1 = R.arg(op)  # always a private copy
            raw = mappyfile.update(d1, R.arg2(op), overwrite=op["ow"])
            out = canon(raw)
        elif k == "w.parse":
            p = R.worker("P", op)
            m = R.worker("M", op)
            if op["how"] == "file":
                t = p.parse_file(R.path(op))
            elif op["how"] == "load":
                t = p.load(io.StringIO(op["text"], newline=""))
            else:
                t = p.parse(op["text"])
            raw = m.transform(t)
            out = canon(raw)
        elif k == "w.pp":
            arg = R.arg(op)
            raw = R.worker("PP", op).pprint(arg)
            out = canon(raw)
        elif k == "w.val":
            arg = R.arg(op)
            raw = R.worker("V", op).validate(arg, schema_name=op["schema"], version=op["v"], add_comments=op["ac"])
            out = canon(raw)
            if op["ac"]:
                out = ["with comments", out, canon(arg)]
        elif k == "w.schema":
            v = R.worker("V", op)
            raw = v.get_versioned_schema(op["v"], op["schema"])
            out = ["schema", sha(json.dumps(canon(raw)))]
        elif k == "w.expanded":
            raw = R.worker("V", op).get_expanded_schema(op["schema"])
            out = ["schema", sha(json.dumps(canon(raw)))]
        else:
            raise SystemExit("unknown op " + k)
    except Exception as e:
        raw, out = None, canon_exc(e)
    return raw, out, arg


FILEOPS = ("open", "load", "w.parse")
NOFP = ("update",)


def oracle(q, scratch):
    if q.get("q") == "arg":
        try:
            return {"ser": ser(rebuild_arg(q["spec"]))}
        except Foreign as e:
            return {"foreign": str(e)}
        except Exception as e:
            return {"exc": canon_exc(e)}
    if "files" in q:
        write_files(scratch, q)
    if q.get("cwd"):
        write_static(scratch)
    os.chdir(scratch)
    return perform(q, Fresh(scratch))[1]


# ---- generation --------------------------------------------------------------------------

THEMES = {
    "mixed": {"loads": 5, "open": 2, "load": 1, "dumps": 4, "dump": 1, "save": 1, "validate": 0.7, "create": 0.6, "find": 1, "findall": 1, "findunique": 1, "findkey": 1, "update": 0.6, "w.parse": 3, "w.pp": 3, "w.val": 0.6, "w.schema": 0.4, "w.expanded": 0.3},
    "parse": {"loads": 6, "open": 2, "load": 1, "w.parse": 6},
    "print": {"dumps": 6, "dump": 2, "save": 1, "w.pp": 6},
    "validate": {"validate": 3, "w.val": 4, "w.schema": 2, "w.expanded": 1, "create": 1, "dumps": 1},
    "reuse": {"w.parse": 9, "w.pp": 3, "loads": 0.5, "w.val": 0.2},
    "query": {"find": 3, "findall": 3, "findunique": 3, "findkey": 3, "dumps": 1.5, "update": 1, "loads": 1},
}


def kwparse(rng):
    return {"include_comments": rng.random() < 0.5, "include_position": rng.random() < 0.3, "expand_includes": rng.random() < 0.8}


def gen(rng, tier):
    nt = rng.choices([1, 2, 3, 4, 6, 8, 16], [22, 28, 16, 12, 8, 8, 6])[0]
    theme = rng.choices(["mixed", "parse", "print", "validate", "query", "reuse"], [34, 16, 13, 12, 11, 14])[0]
    memo = rng.random() < 0.8
    wide = rng.random() < 0.06
    if wide:
        memo = False
        nt = min(nt, 3)
    ndocs = rng.choice([1, 2, 3, 4])
    docs = [pool_doc(rng) if rng.random() < 0.6 else mk_doc(rng) for _ in range(ndocs)]
    reuse = theme == "reuse"
    if reuse:
        # worker objects that meet failures: a call after a failed one must not see its remains
        nt = rng.choice([1, 1, 1, 2])
        docs = [pool_doc(rng), mk_doc(rng, "ok"), mk_doc(rng, "bad"), mk_doc(rng, rng.choice(["bad", "snippet", "multi"]))]
        for i in (2, 3):
            docs[i] = "# first of %d\n" % i + docs[i].replace("\n", "  # mark %d\n" % i, 2)
    args = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        args.append({
            "text": pool_doc(rng) if rng.random() < 0.65 else mk_doc(rng, rng.choice(["ok", "ok", "invalid", "multi", "snippet"])),
            "kw": {"include_comments": rng.random() < 0.3, "include_position": rng.random() < 0.25},
            "edits": mk_edits(rng),
        })
    if nt == 1:
        nops = rng.choice([8, 12, 20] if memo else [5, 8])
    else:
        nops = {2: [2, 3, 4, 6], 3: [2, 3, 4], 4: [2, 3], 6: [1, 2, 3], 8: [1, 2], 16: [1, 2]}[nt]
        nops = rng.choice(nops) if memo else 2 if nt < 6 else 1
    heavy = [8 if memo else 4]
    weights = THEMES[theme]
    cfgs = {}
    threads = []
    ctr = [0]
    seq = [0]

    def cfg(t, slot):
        if (t, slot) not in cfgs:
            cm = rng.random() < (0.85 if reuse else 0.6)
            cfgs[(t, slot)] = {
                "exp": rng.random() < 0.7, "cm": cm, "pos": rng.random() < 0.3,
                "pp": {kk: rng.choice(v) for kk, v in PPK.items() if rng.random() < 0.3},
            }
        return cfgs[(t, slot)]

    def files(op):
        seq[0] += 1
        nm = "root.map"
        inc = rng.random() < 0.6
        text = rng.choice(docs)
        f = {}
        if inc:
            lines = text.split("\n")
            at = rng.randrange(1, len(lines)) if len(lines) > 2 else 0
            lines.insert(at, f"  INCLUDE \"{rng.choice(['inc.map', 'sub/inc.map', 'inc.map', 'missing.map'])}\"")
            text = "\n".join(lines)
            body = rng.choice(["NAME 'one'", "NAME 'two'", "# c1", "DEBUG 1\n# c", "STATUS ON", ")("])
            f["inc.map"] = body
            f["sub/inc.map"] = body + " # s"
        f[nm] = text
        op["files"], op["root"] = f, nm
        if rng.random() < 0.35:
            op["rel"] = 1  # a path relative to the working directory
        # the clock of the file system may not move between two writes
        op["mtime"] = rng.choice([0, 0, seq[0], seq[0], -seq[0]])

    def text_for(op):
        """A document; sometimes one whose INCLUDE is resolved against the working directory."""
        op["text"] = rng.choice(docs)
        if rng.random() < 0.2:
            lines = op["text"].split("\n")
            at = rng.randrange(1, len(lines)) if len(lines) > 2 else 0
            lines.insert(at, "  INCLUDE " + rng.choice(['"cwd0.map"', "'cwd1.map'", "deep/cwd2.map", '"deep/cwd3.map"', "gone.map"]))
            op["text"] = "\n".join(lines)
            op["cwd"] = 1

    # a long life: the same calls many times over in one process
    long = nt == 1 and memo and rng.random() < 0.2
    for t in range(nt):
        ops = []
        for _ in range(nops):
            k = rng.choices(list(weights), list(weights.values()))[0]
            if k in ("validate", "w.val", "w.schema", "create", "w.expanded"):
                if heavy[0] <= 0:
                    k = "loads" if theme != "print" else "dumps"
                else:
                    heavy[0] -= 1
            ctr[0] += 1
            op = {"k": k, "uid": f"o{ctr[0]}"}
            slot = rng.choices([0, 1], [4, 1])[0]
            if k == "loads":
                text_for(op)
                op["kw"] = kwparse(rng)
            elif k == "open":
                op["kw"] = kwparse(rng)
                files(op)
            elif k == "load":
                op["kw"] = kwparse(rng)
                op["how"] = rng.choice(["file", "str", "str", "bad"])
                text_for(op)
                if op["how"] == "file":
                    files(op)
            elif k == "w.parse":
                op["cfg"], op["slot"] = cfg(t, slot), slot
                op["how"] = rng.choice(["parse", "parse", "parse", "load", "file"])
                text_for(op)
                if op["how"] == "file":
                    files(op)
            elif k in ("dumps", "dump", "save"):
                op["kw"] = {kk: rng.choice(v) for kk, v in PPK.items() if rng.random() < 0.25}
                if k == "dump" and rng.random() < 0.3:
                    op["room"] = rng.choice([0, 5, 60])
                if k == "save":
                    op["root"] = f"out{rng.randrange(2)}.map"
                if rng.random() < 0.1:
                    op["kw"]["separate_complex_types"] = True
                    op["fresh"] = 1
            elif k == "w.pp":
                op["cfg"], op["slot"] = cfg(t, slot), slot
                if rng.random() < 0.06:
                    op["cfg"]["pp"]["separate_complex_types"] = True
                    op["fresh"] = 1
            elif k in ("validate", "w.val"):
                op["v"] = rng.choice(VERS) if rng.random() < 0.6 else None
                if k == "w.val":
                    op["slot"], op["cfg"] = slot, None
                    op["schema"] = rng.choice(SCHEMAS) if rng.random() < 0.4 else "map"
                    op["ac"] = rng.random() < 0.2
                    if op["ac"]:
                        op["fresh"] = 1
            elif k in ("w.schema", "w.expanded"):
                op["v"] = rng.choice(VERS)
                op["slot"], op["cfg"] = slot, None
                op["schema"] = rng.choice(SCHEMAS[1:]) if rng.random() < 0.8 else "map"
            elif k == "create":
                op["type"] = rng.choice(SCHEMAS[:-3] + ["nosuchtype"])
                op["v"] = rng.choice(VERS) if rng.random() < 0.5 else None
            elif k in ("find", "findall", "findunique", "findkey"):
                op["c"] = rng.randrange(6)
                op["lst"] = rng.choice(["layers", "classes", "styles", "labels", "symbols", "outputformats"])
                op["key"] = rng.choice(["name", "NAME", "group", "status", "type", "metadata", "nosuch", "size", "color"])
                op["val"] = rng.choice(["plain", "ON", "roads", "added", "point", 1, ["plain", "added"], {}, None])
                op["path"] = rng.choice([[], ["layers"], ["layers", 0], ["name"], ["metadata"], ["metadata", "k"], ["nosuch", "x"], ["web", "metadata", "wms_title"], ["classes", 0, "styles"], ["__type__"]])
            elif k == "update":
                op["b"] = rng.choice([{"name": "z"}, {"metadata": {"a": "b"}}, {"layers": [{"name": "u"}, {"__delete__": True}]}, {"name": "__delete__"}, {"web": {"__delete__": True}}, {}])
                op["ow"] = rng.random() < 0.7
                op["fresh"] = 1
            if k in ("dumps", "dump", "save", "w.pp", "validate", "w.val", "find", "findall", "findunique", "findkey", "update"):
                op["a"] = rng.randrange(len(args))
                if rng.random() < 0.2:
                    op["fresh"] = 1
            elif rng.random() < 0.2 and k not in ("w.schema", "w.expanded"):
                op["scribble"] = 1
            if long and k not in ("validate", "w.val", "w.schema", "create", "w.expanded") and rng.random() < 0.5:
                op["times"] = rng.choice([6, 40, 140])
            ops.append(op)
        threads.append(ops)
    # a shared configuration that reorders its argument must not meet a shared argument
    for ops in threads:
        for op in ops:
            if op["k"] == "w.pp" and op["cfg"]["pp"].get("separate_complex_types"):
                op["fresh"] = 1
    faults = []
    if rng.random() < 0.25:
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["open", "read", "read", "read", "write"])
            act = rng.choice(["errno", "errno", "short"]) if kind != "open" else "errno"
            faults.append({
                "op": kind, "nth": rng.choice([1, 1, 2, 3, 5, 9]), "act": act,
                "arg": rng.choice(["EIO", "EINTR", "ENOSPC" if kind == "write" else "EIO"]) if kind != "open" else rng.choice(["EMFILE", "EACCES", "EIO"]),
                "sticky": False, "sub": rng.choice(["schemas/", "schemas/", "/t0/", "/t1/", "root.map", "out0.map"] + ([] if memo else ["mapfile.lark"])),
            })
            if act == "short":
                faults[-1]["arg"] = rng.choice([1, 7, 100])
            if kind == "open" and faults[-1]["arg"] == "EINTR":
                faults[-1]["arg"] = "EIO"
    est = 400 * sum(len(o) for o in threads)
    if nt == 1:
        strat = {"mode": "none"}
    elif rng.random() < 0.7:
        strat = {"mode": "random", "mean": rng.choice([2, 10, 50, 300, 2000]), "seed": rng.randrange(1 << 30)}
    else:
        n = rng.choice([1, 2, 3, 5, 10])
        strat = {"mode": "pct", "points": sorted(rng.randrange(1, est) for _ in range(n)), "prios": rng.sample(range(40), 16), "seed": rng.randrange(1 << 30)}
    strat["gran"] = "instr" if rng.random() < 0.25 and nt > 1 else "line"
    strat["wide"] = wide
    if wide:
        strat["gran"] = "line"
        if "mean" in strat:
            strat["mean"] *= 50
    return {"args": args, "threads": threads, "sched": strat, "memo": memo, "faults": faults}


# ---- lane --------------------------------------------------------------------------------


class LaneState:
    pass


def lane_setup(base):
    from sim.oracle import Oracle

    st = LaneState()
    st.oracle = Oracle("sim.props.c12", base)
    import jsonref
    import jsonschema
    import lark
    import mappyfile
    import referencing

    st.near = SC.code_objects([os.path.join(REPO, "mappyfile")])
    st.wide = SC.code_objects([os.path.dirname(m.__file__) for m in (lark, jsonschema, referencing)] + [os.path.dirname(jsonref.__file__) if os.path.basename(os.path.dirname(jsonref.__file__)) == "jsonref" else jsonref.__file__])
    # Lark's grammar compiler walks sets of objects hashed by address: how many lines it runs differs
    # from one execution to the next, so it is no preemption point (its result does not differ)
    addr = ("lalr_analysis.py", "grammar_analysis.py", "grammar.py", "load_grammar.py", "lark/utils.py")
    st.wide = [c for c in st.wide if not c.co_filename.endswith(addr)]
    return st


def after_run(st, res):
    if res.get("ok") is not True:
        st.oracle.restart()


def lane_close(st):
    st.oracle.close()


def question(op, sc):
    """The op as a self-contained question."""
    q = {k: v for k, v in op.items() if k not in ("uid", "slot", "fresh", "scribble", "mtime", "times")}
    if "a" in q:
        q["a"] = sc["args"][op["a"]]
    return q


class R:
    """Resolver of one simulated thread."""

    def __init__(self, dir, shared, sers, workers):
        self.dir, self.shared, self.sers, self.workers = dir, shared, sers, workers
        self.cwd = os.path.dirname(dir)

    def path(self, op):
        p = os.path.join(self.dir, op["root"])
        return os.path.relpath(p, self.cwd) if op.get("rel") else p

    def arg(self, op):
        return rebuild(self.sers[op["a"]]) if op.get("fresh") else self.shared[op["a"]]

    def arg2(self, op):
        return json.loads(json.dumps(op["b"]))

    def worker(self, kind, op):
        key = (kind, op["slot"]) + ((json.dumps(op["cfg"], sort_keys=True),) if op["cfg"] else ())
        w = self.workers.get(key)
        if w is None:
            w = self.workers[key] = new_worker(kind, op["cfg"])
        return w


def scribble(x, depth=0):
    """What a caller may do to a result of his own."""
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v, depth + 1)
        x["scribbled"] = "x"
        for k in list(x.keys())[:2]:
            if not k.startswith("__"):
                x[k] = "scribbled"
    elif isinstance(x, list):
        for v in x:
            scribble(v, depth + 1)
        x.append("scribbled")


def run(sc, ctx):
    st = ctx.lane_state
    if not sc["memo"] or sc["sched"].get("wide"):
        from sim import memo

        memo.uninstall()
    orc = st.oracle
    # 1. what every call gives on its own
    expected = {}
    for ops in sc["threads"]:
        for op in ops:
            expected[op["uid"]] = orc.ask(question(op, sc))
    sers, shared = [], []
    used = {op["a"] for ops in sc["threads"] for op in ops if "a" in op}
    for i, spec in enumerate(sc["args"]):
        if i not in used:
            sers.append(None)
            shared.append(None)
            continue
        r = orc.ask({"q": "arg", "spec": spec})
        if "exc" in r:
            raise Discard("argument document does not load: " + json.dumps(r["exc"]))
        if "foreign" in r:
            raise Discard("argument of a foreign type")
        sers.append(r["ser"])
        shared.append(rebuild(r["ser"]))
    base_fp = [None if x is None else fp(x) for x in shared]
    # 2. the simulated threads
    os.chdir(ctx.scratch)
    if any(op.get("cwd") for ops in sc["threads"] for op in ops):
        write_static(ctx.scratch)
    disk = Disk([os.path.join(REPO, "mappyfile"), ctx.scratch])
    nt = len(sc["threads"])
    strat = sc["sched"]
    s = SC.Sched(strat, random.Random(strat.get("seed", 0)))
    problems = []
    kept = []
    spans = {}  # uid -> [start, end] in units of hard faults fired
    log = []
    npend = [0]

    def hard_fired():
        return sum(n for r, n in disk.fired() if is_hard(r))

    def thread(ti, ops):
        dir = os.path.join(ctx.scratch, f"t{ti}")
        os.makedirs(dir, exist_ok=True)
        res = R(dir, shared, sers, {})

        def fn(t):
            for op in (o for o in ops for _ in range(o.get("times", 1))):
                if problems:
                    return
                op = json.loads(json.dumps(op))  # the call may spoil what it is given, not the scenario
                if "files" in op:
                    write_files(dir, op)
                t.uid, t.n = op["uid"], 0
                t.loc = (op["k"], 0)
                f0 = hard_fired() if sc["faults"] else 0
                s.event()
                given = json.dumps([op.get("val"), op.get("path"), op.get("kw"), op.get("cfg")])
                raw, out, arg = perform(op, res)
                t.loc = (op["k"], -1)
                f1 = hard_fired() if sc["faults"] else 0
                exp = expected[op["uid"]]
                is_exc = isinstance(out, list) and out and out[0] in ("exc", "dump failed")
                tainted = f1 != f0
                log.append((ti, op["uid"], op["k"], sha(json.dumps(out)), tainted))
                ctx.count(op["k"])
                if op.get("times"):
                    ctx.count("repeated calls")
                if out != exp:
                    if tainted and (is_exc or op["k"] == "save"):
                        ctx.probe("call failed under a fault")
                    else:
                        problems.append(("result", op, ti, exp, out))
                        return
                if given != json.dumps([op.get("val"), op.get("path"), op.get("kw"), op.get("cfg")]):
                    problems.append(("value", op, ti, given, json.dumps([op.get("val"), op.get("path"), op.get("kw"), op.get("cfg")])))
                    return
                if arg is not None and not op.get("fresh"):
                    if fp(arg) != base_fp[op["a"]]:
                        problems.append(("argument", op, ti, None, arg))
                        return
                elif arg is not None and not (op.get("kw", {}).get("separate_complex_types") or op.get("ac") or (op["k"] == "w.pp" and op["cfg"]["pp"].get("separate_complex_types"))):
                    if fp(arg) != base_fp[op["a"]]:
                        problems.append(("argument", op, ti, None, arg))
                        return
                if raw is not None and not is_exc:
                    if op.get("scribble"):
                        scribble(raw)
                        ctx.probe("result scribbled on by its owner")
                    elif len(kept) < 60:
                        kept.append((op, ti, raw, None if op["k"] in ("w.schema", "w.expanded") else out))
                raw = arg = None

        return fn

    for ti, ops in enumerate(sc["threads"]):
        s.add(thread(ti, ops))
    codes = st.near + (st.wide if strat.get("wide") else [])
    gc.disable()
    if nt > 1:
        SC.monitor(codes, strat.get("gran"))
    disk.arm(sc["faults"])
    try:
        s.run()
    finally:
        fired = disk.fired()
        disk.disarm()
        disk.close()
        if nt > 1:
            SC.unmonitor(codes)
    for rule, n in fired:
        if n:
            ctx.fault(fault_name(rule), n)
    ctx.steps = s.total
    ctx.simtime = s.now
    ctx.count("threads", nt)
    ctx.count("preemptions", s.nswitch)
    if s.contention:
        ctx.probe("lock waits", s.contention)
    for (a, b) in s.pairs:
        ctx.state(f"{a[0]}:{a[1]}>{b[0]}:{b[1]}")
    for x in log:
        ctx.log(*x)
    ctx.log("switches", sha(json.dumps(s.switches)))
    if strat["mode"] != "explicit":
        strat_found = s.explicit_form()
    else:
        strat_found = strat

    def bad(kind, msg, **d):
        sc["sched"] = strat_found
        raise Violation(kind, msg, **d)

    if s.dead is not None:
        bad("deadlock", f"threads wait for each other for ever: {s.dead}")
    if problems:
        what, op, ti, exp, out = problems[0]
        brief = short({k: v for k, v in op.items() if k not in ("files",)}, 300)
        if what == "argument":
            # say what changed
            d = first_diff(canon(rebuild(sers[op["a"]])), canon(out))
            bad("argument-modified", f"{op['k']} modified the dictionary passed to it: {d}; call {brief}")
        if what == "value":
            bad("argument-modified", f"{op['k']} modified a list or options passed to it: {exp} became {out}")
        d = first_diff(exp, out)
        how = "alone with fresh objects" if nt > 1 or sum(map(len, sc["threads"])) > 1 else "in another process"
        bad("result-depends-on-history", f"thread {ti}: {op['k']} gives another result than {how}: {d}; call {brief}")
    for i, x in enumerate(shared):
        if x is not None and fp(x) != base_fp[i]:
            bad("argument-modified", f"an argument was modified: {first_diff(canon(rebuild(sers[i])), canon(x))}")
    for op, ti, raw, out in kept:
        if out is None:
            now = ["schema", sha(json.dumps(canon(raw)))]
            if now != expected[op["uid"]]:
                bad("result-changed-later", f"the schema returned by {op['k']} (version {op.get('v')}, {op['schema']}) was changed by a later call")
        elif op["k"] == "update":
            continue
        elif op.get("ac"):
            continue
        elif canon(raw) != out and op["k"] != "save":
            bad("result-changed-later", f"the result of {op['k']} was changed by a later call: {first_diff(out, canon(raw))}")


# ---- minimisation ------------------------------------------------------------------------


def shrink(sc, test):
    def better(cand):
        """The candidate, or the candidate under another schedule that fails the same way."""
        if test(cand):
            return cand
        if len(cand["threads"]) > 1:
            for k in range(3):
                c2 = json.loads(json.dumps(cand))
                c2["sched"] = {"mode": "random", "mean": [5, 40, 300][k], "seed": k, "gran": sc["sched"].get("gran"), "wide": sc["sched"].get("wide")}
                if test(c2):
                    return test.last["scenario"]
        return None

    # whole threads, then ops
    i = 0
    while i < len(sc["threads"]) and len(sc["threads"]) > 1:
        cand = json.loads(json.dumps(sc))
        if all(not c for c in [cand["threads"][i]]):
            pass
        cand["threads"][i] = []
        got = better(cand) if sc["threads"][i] else None
        if got:
            sc = got
        i += 1
    for i in range(len(sc["threads"])):
        j = len(sc["threads"][i]) - 1
        while j >= 0:
            cand = json.loads(json.dumps(sc))
            del cand["threads"][i][j]
            got = better(cand)
            if got:
                sc = got
            j -= 1
    for i in range(len(sc["threads"])):
        for j in range(len(sc["threads"][i])):
            n = sc["threads"][i][j].get("times", 1)
            for m in (1, 2, 5, 20, n // 2):
                if m < n:
                    cand = json.loads(json.dumps(sc))
                    cand["threads"][i][j]["times"] = m
                    if test(cand):
                        sc = cand
                        break
    # trailing empty threads
    while len(sc["threads"]) > 1 and not sc["threads"][-1]:
        cand = json.loads(json.dumps(sc))
        cand["threads"].pop()
        if not test(cand):
            break
        sc = cand
    if sc["faults"]:
        sc = S.ddmin_list(sc, ["faults"], test)
    if sc["sched"]["mode"] == "explicit":
        sc = S.ddmin_list(sc, ["sched", "switches"], test)
    for i, a in enumerate(sc["args"]):
        if a.get("edits"):
            sc = S.ddmin_list(sc, ["args", i, "edits"], test)
    # texts, shared by name
    texts = []
    for a in sc["args"]:
        texts.append(a["text"])
    for ops in sc["threads"]:
        for op in ops:
            if "text" in op:
                texts.append(op["text"])
    for tx in dict.fromkeys(texts):
        lines = tx.split("\n")
        n = max(1, len(lines) // 2)
        cur = tx
        while n >= 1:
            k = 0
            while k < len(lines):
                new = "\n".join(lines[:k] + lines[k + n :])
                cand = replace_text(sc, cur, new)
                if len(lines) > n and test(cand):
                    sc, cur, lines = cand, new, new.split("\n")
                else:
                    k += n
            n //= 2
    return sc


def replace_text(sc, old, new):
    sc = json.loads(json.dumps(sc))
    for a in sc["args"]:
        if a["text"] == old:
            a["text"] = new
    for ops in sc["threads"]:
        for op in ops:
            if op.get("text") == old:
                op["text"] = new
    return sc
