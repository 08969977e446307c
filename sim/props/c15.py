"""C15: INCLUDE expansion equals textual substitution, bounded at 5 levels.

The simulated system is a mappyfile caller plus a file tree that changes between calls: include
trees with decoys, files rewritten, removed and replaced by directories, loads through every
front end from several working directories, and disk faults inside the loads."""
import io
import json
import os
import re

from sim import docgen as D
from sim import shrinklib as S
from sim.canon import canon, canon_exc, first_diff, sha, short
from sim.disk import Disk, fault_name, is_hard
from sim.lane import Violation

NAME = "C15"
LEVEL = "exploration"
TECH = "seeded include trees and load histories on a faulty simulated disk, against textual substitution"
NEEDS_SHIM = True
RUNS = {"quick": 3000, "thorough": 60000}
RULE = (
    "A run is a seeded include tree (documents cut at line boundaries, depth 0..7, fan-out up to 4, cycles, decoys in "
    "wrong base directories) and a history of loads (open/load/loads/reused Parser, flags, working directories) "
    "interleaved with file rewrites, removals and injected disk faults; each load is compared with loading the flattened "
    "text. Non-trivial: at least 3 events; distinct by event digest."
)
STATE_MEASURE = "distinct (tree shape, verdict) pairs"
REAL = ["mappyfile.parser", "mappyfile.utils", "mappyfile.transformer", "mappyfile.pprint (no-expand write back)", "kernel file system under a scratch directory"]
STUBS = ["libc open/read/close faults through sim/shim.c", "Lark grammar compilation memoised per lane (not in replays)"]
ASSUMPTIONS = [
    "the reference flattening is the text obtained by replacing the INCLUDE line (without its newline) by the file content",
    "when several errors are present in one tree, any of them may be the one reported",
]
# The shim must never see /repo paths here: only the scratch directory is faulty.

NAMES = ["inc%d.map", "part%d.inc", "UP%d.MAP", "include%d.map", "a-b_%d.map", "dots..%d.map"]
ODD = ["with space %d.map", "hash#%d.map", "naïve%d.map", "日本%d.map", "it's%d.map", "comma,%d.map", "(p)%d.map",
       # names that a shell, a URL, a format string or another system would read differently
       "$HOME-%d.map", "${PATH}%d.map", "~/h%d.map", "back\\slash%d.map", "{x}%d.map", "*%d.map", "%%41%d.map", "%%s%d.map", "&amp%d.map", "e\u0301%d.map", "\ufb01%d.map"]


def relto(path, base):
    return os.path.relpath("/" + path, "/" + base)


def gen_tree(rng, cfg):
    """-> files {path: {"parts": [...], "eol", "final"}}, root path"""
    opts = {
        "size": rng.choice([2, 3, 5]), "unicode": rng.random() < 0.4, "comments": rng.random() < 0.4,
        "anycase": rng.random() < 0.3, "ban_words": ("include",), "pad": rng.choice(["    ", "  ", "\t", ""]),
    }
    doc = D.document(rng, opts, depth=rng.choice([1, 2, 2, 3]))
    lines = D.text_lines(doc, rng, opts)
    if any("\n" in l for l in lines):
        lines = [l.replace("\n", " ") for l in lines]
    rootdir = rng.choice(["", "maps", "maps/sub dir", "p/q"])
    files = {}
    counter = [0]
    target_depth = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 5, 5, 6, 6, 7])
    fan = rng.choice([1, 1, 2, 3, 4])
    odd = rng.random() < 0.35

    def newname():
        counter[0] += 1
        n = rng.choice(NAMES + (ODD if odd else [])) % counter[0]
        d = rng.choice([rootdir, rootdir, os.path.join(rootdir, "inc"), os.path.join(rootdir, "inc/deep"), "shared", "other dir" if odd else "shared"])
        return os.path.normpath(os.path.join(d, n))

    def inc_part(target):
        needs_quote = any(c in target for c in " #(),'$~\\{}*%&;") or not target.isascii()
        q = rng.choice(['"', '"', "'", ""])
        if needs_quote and (q == "" or (q == "'" and "'" in target)):
            q = '"'
        return {
            "inc": target, "abs": rng.random() < 0.15, "dot": rng.random() < 0.1, "q": q,
            "kw": rng.choice(["INCLUDE", "INCLUDE", "include", "Include"]),
            "ind": rng.choice(["", "  ", "\t", "      "]),
            "sep": rng.choice([" ", " ", "  ", "\t"]),
            "cmt": rng.choice(["", "", "", " # comment", " #c", " # INCLUDE \"zzz.map\"", "  # it's", "#tight", " # a \"b\" c", "   "]),
        }

    def build(ls, path, level):
        parts = [{"l": x} for x in ls]
        if level < target_depth:
            n = rng.randint(1, fan)
            for c in range(n):
                if not parts:
                    break
                i = rng.randrange(len(parts))
                j = min(len(parts), i + rng.choice([0, 1, 1, 2, 3, 6, 12]))
                if level + 1 < target_depth and c == 0:
                    # keep enough lines to go deeper
                    i, j = min(i, len(parts) // 3), max(j, len(parts) - 1)
                if any("inc" in p for p in parts[i:j]):
                    continue
                name = newname()
                sub = [p["l"] for p in parts[i:j]]
                parts[i:j] = [inc_part(name)]
                build(sub, name, level + 1)
        files[path] = {"parts": parts, "eol": rng.choice(["\n", "\n", "\n", "\r\n"]), "final": rng.random() < 0.7}

    root = os.path.normpath(os.path.join(rootdir, rng.choice(["root.map", "main.MAP", "r 1.map" if odd else "root.map"])))
    build(lines, root, 0)
    names = [p for p in files if p != root]
    if names and rng.random() < 0.12:
        # a cycle
        a = rng.choice(names + [root])
        b = rng.choice(names + [root])
        files[a]["parts"].insert(rng.randrange(len(files[a]["parts"]) + 1), inc_part(b))
    if names and rng.random() < 0.1:
        # the same file twice
        a = rng.choice([root] + names)
        files[a]["parts"].append(inc_part(rng.choice(names)))
    if names and rng.random() < 0.12:
        # one file many times, from one file or from several
        t = newname()
        files[t] = {"parts": [{"l": rng.choice(["# again", "", 'PROCESSING "A=1"', "NAME 'x'"])}], "eol": "\n", "final": rng.random() < 0.7}
        same = inc_part(t)
        for _ in range(rng.choice([2, 3, 4, 6, 7, 9, 12, 20])):
            ps = files[rng.choice([root] * 3 + names)]["parts"]
            ps.insert(rng.randrange(len(ps) + 1), dict(same) if rng.random() < 0.4 else inc_part(t))
    if rng.random() < 0.05:
        files[root]["parts"].append(inc_part(newname()))  # never created
    return files, root, rootdir


FAULTS = [
    {"op": "open", "act": "errno", "arg": "EIO"}, {"op": "open", "act": "errno", "arg": "EACCES"},
    {"op": "open", "act": "errno", "arg": "EMFILE"}, {"op": "open", "act": "errno", "arg": "ENOENT"},
    {"op": "read", "act": "errno", "arg": "EIO"}, {"op": "read", "act": "errno", "arg": "EIO"},
    {"op": "read", "act": "errno", "arg": "EINTR"}, {"op": "open", "act": "errno", "arg": "EINTR"},
    {"op": "read", "act": "short", "arg": 1, "sticky": True}, {"op": "read", "act": "short", "arg": 3, "sticky": True},
    {"op": "read", "act": "short", "arg": 7}, {"op": "close", "act": "errno", "arg": "EIO"},
]


def gen_load(rng, files, faulty):
    op = {
        "op": "load",
        "how": rng.choice(["open_abs", "open_abs", "open_rel", "load_file", "load_sio", "loads", "loads", "load_fd", "parser", "open_path"]),
        "cwd": rng.choice(["root", "base", "other", "inc"]),
        "pos": rng.random() < 0.3,
        "com": rng.random() < 0.3,
        "expand": rng.random() < 0.85,
        "faults": [],
    }
    if faulty and rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            f = dict(rng.choice(FAULTS))
            f["nth"] = rng.choice([1, 1, 2, 2, 3, 4, 5, 6])
            if rng.random() < 0.2:
                f["sub"] = os.path.basename(rng.choice(sorted(files)))
                if " " in f["sub"] or not f["sub"].isascii():
                    f.pop("sub")
            op["faults"].append(f)
    return op


def gen(rng, tier):
    files, root, rootdir = gen_tree(rng, None)
    faulty = rng.random() < 0.5
    decoys = rng.random() < 0.5
    ops = []
    paths = sorted(files)
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        r = rng.random()
        if r < 0.72 or not ops:
            ops.append(gen_load(rng, files, faulty))
        elif r < 0.87:
            p = rng.choice(paths)
            ops.append({"op": "rewrite", "path": p, "how": rng.choice(["addline", "empty", "dropinc", "swapeol", "append_inc", "dup", "digit", "digit", "swap"]), "x": rng.randrange(1000), "coarse": rng.random() < 0.5})
            ops.append(gen_load(rng, files, faulty))
        elif r < 0.93:
            p = rng.choice(paths)
            ops.append({"op": rng.choice(["rm", "dir"]), "path": p})
            ops.append(gen_load(rng, files, faulty))
            if rng.random() < 0.6:
                ops.append({"op": "restore", "path": p})
                ops.append(gen_load(rng, files, faulty))
        else:
            ops.append({"op": "clock", "by": rng.choice([-3600, 0, 1, 86400])})
    return {"files": files, "root": root, "rootdir": rootdir, "decoys": decoys, "ops": ops}


def inc_text(p, base, rootdir):
    t = p["inc"]
    if p.get("abs"):
        name = os.path.join(base, t)
    else:
        name = relto(t, rootdir)
        if p.get("dot"):
            name = "./" + name
    return p["ind"] + p["kw"] + p["sep"] + p["q"] + name + p["q"] + p["cmt"]


def content(f, base, rootdir):
    ls = [p["l"] if "l" in p else inc_text(p, base, rootdir) for p in f["parts"]]
    return f["eol"].join(ls) + (f["eol"] if f["final"] else "")


INC_RE = re.compile(r"""^\s*include[ \t]+(?:"([^"]*)"|'([^']*)'|([^\s#"']+))""", re.I)


class Model:
    """The simulated disk as the caller believes it to be, and the substitution rule."""

    def __init__(self):
        self.fs = {}  # abs path -> text | "DIR"

    def flatten(self, text, basedir, errs, depth=0, budget=None):
        budget = budget if budget is not None else [3000]
        out = []
        for line in text.split("\n"):
            m = INC_RE.match(line) if line.strip().lower().startswith("include") else None
            if not m:
                out.append(line)
                continue
            budget[0] -= 1
            if budget[0] < 0:
                errs.add("deep")
                continue
            if depth >= 5:
                errs.add("deep")
                continue
            name = next(g for g in m.groups() if g is not None)
            p = name if os.path.isabs(name) else os.path.normpath(os.path.join(basedir, name))
            t = self.fs.get(p)
            if t is None or t == "DIR":
                errs.add("missing")
                continue
            out.append(self.flatten(t, basedir, errs, depth + 1, budget))
        return "\n".join(out)


BLOCKW = {"MAP", "LAYER", "CLASS", "STYLE", "LABEL", "WEB", "LEGEND", "SCALEBAR", "QUERYMAP", "REFERENCE", "OUTPUTFORMAT", "SYMBOL",
          "FEATURE", "CLUSTER", "COMPOSITE", "JOIN", "LEADER", "SCALETOKEN", "GRID", "METADATA", "VALIDATION", "VALUES",
          "CONNECTIONOPTIONS", "PROJECTION", "POINTS", "PATTERN"}
KVB = {"METADATA", "VALIDATION", "VALUES", "CONNECTIONOPTIONS", "PROJECTION", "POINTS", "PATTERN"}


def scan_directives(text):
    """Per block: the INCLUDE names in order; None when the text is not one-item-per-line or an
    INCLUDE stands inside a key-value block."""
    stack, out = [], {}
    n = 0
    for line in re.split(r"\r?\n", text):
        s = line.strip()
        if not s or s.startswith("#") or s.startswith("/*"):
            continue
        w = s.split()[0].upper()
        if w == "END":
            if not stack:
                return None
            stack.pop()
        elif w in BLOCKW and (len(s.split()) == 1 or s.split()[1].startswith("#")):
            n += 1
            stack.append((w, n))
        elif w == "INCLUDE":
            m = INC_RE.match(line)
            if not m or not stack or stack[-1][0] in KVB:
                return None
            out.setdefault(tuple(stack), []).append(next(g for g in m.groups() if g is not None))
    if stack:
        return None
    return sorted(["/".join(w for w, _ in k), v] for k, v in out.items())


def run(sc, ctx):
    import mappyfile
    from mappyfile.parser import Parser
    from mappyfile.transformer import MapfileToDict

    base = os.path.join(ctx.scratch, "t")
    os.makedirs(base)
    rootdir = sc["rootdir"]
    absroot = os.path.join(base, rootdir) if rootdir else base
    model = Model()
    clock = [1_700_000_000]

    stamps = {}

    def write(path, text, coarse=False):
        p = os.path.normpath(os.path.join(base, path))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.isdir(p):
            os.rmdir(p)
        with io.open(p, "wb") as f:
            f.write(text.encode("utf-8", "surrogatepass"))
        clock[0] += 1
        if not coarse or p not in stamps:
            stamps[p] = clock[0]
        os.utime(p, (stamps[p], stamps[p]))
        model.fs[p] = text
        return p

    files = json.loads(json.dumps(sc["files"]))
    for path, f in files.items():
        write(path, content(f, base, rootdir))
    for d in ("other", "elsewhere", os.path.join(rootdir, "inc")):
        os.makedirs(os.path.join(base, d), exist_ok=True)
    os.makedirs(absroot, exist_ok=True)
    cwds = {"root": absroot, "base": base, "other": os.path.join(base, "other"), "inc": os.path.join(absroot, "inc")}
    if sc.get("decoys"):
        # same relative names, different content, where a wrong base directory would find them
        for path in list(files):
            for d in (cwds["other"], cwds["inc"]) + ((base,) if rootdir else ()):
                rel = relto(path, rootdir)
                p = os.path.normpath(os.path.join(d, rel))
                if p.startswith(base + "/") and p not in model.fs:
                    try:
                        write(os.path.relpath(p, base), f"# decoy\nDECOY {len(path)}\n")
                    except OSError:
                        pass
    rootabs = os.path.normpath(os.path.join(base, sc["root"]))
    disk = Disk([base])
    parsers = {}
    for op in sc["ops"]:
        ctx.steps += 1
        o = op["op"]
        if o == "clock":
            clock[0] += op["by"]
            ctx.fault("clock_jump")
            continue
        if o in ("rewrite", "rm", "dir", "restore"):
            f = files.get(op["path"])
            if f is None:
                continue
            p = os.path.normpath(os.path.join(base, op["path"]))
            if o == "rm":
                if os.path.isfile(p):
                    os.unlink(p)
                    model.fs.pop(p, None)
                    ctx.fault("file_removed")
            elif o == "dir":
                if os.path.isfile(p):
                    os.unlink(p)
                    os.mkdir(p)
                    model.fs[p] = "DIR"
                    ctx.fault("file_became_directory")
            elif o == "restore":
                write(op["path"], content(f, base, rootdir))
            else:
                how, x = op["how"], op["x"]
                if how == "addline":
                    f["parts"].insert(x % (len(f["parts"]) + 1), {"l": "# rewritten %d" % x})
                elif how == "empty":
                    f["parts"] = []
                elif how == "dropinc":
                    f["parts"] = [q for q in f["parts"] if "inc" not in q]
                elif how == "swapeol":
                    f["eol"] = "\r\n" if f["eol"] == "\n" else "\n"
                elif how == "append_inc":
                    t = sorted(files)[x % len(files)]
                    f["parts"].append({"inc": t, "abs": False, "dot": False, "q": '"', "kw": "INCLUDE", "ind": "", "sep": " ", "cmt": ""})
                elif how == "dup" and f["parts"]:
                    f["parts"].insert(x % len(f["parts"]), dict(f["parts"][x % len(f["parts"])]))
                elif how == "digit":
                    # as long as before: only the contents tell
                    at = [(i, m.start()) for i, q in enumerate(f["parts"]) if "l" in q for m in re.finditer(r"\d", q["l"])]
                    if at:
                        i, k = at[x % len(at)]
                        l = f["parts"][i]["l"]
                        f["parts"][i]["l"] = l[:k] + str((int(l[k]) + 1 + x) % 10) + l[k + 1 :]
                elif how == "swap" and len(f["parts"]) > 1:
                    i = x % (len(f["parts"]) - 1)
                    f["parts"][i], f["parts"][i + 1] = f["parts"][i + 1], f["parts"][i]
                write(op["path"], content(f, base, rootdir), op.get("coarse"))
                ctx.fault("file_rewritten" + (" within the clock's resolution" if op.get("coarse") else ""))
            ctx.log(o, op["path"])
            continue
        do_load(op, ctx, mappyfile, Parser, MapfileToDict, model, disk, parsers, rootabs, absroot, cwds)
    disk.close()


def call(fn):
    try:
        return ("ok", fn())
    except RecursionError as e:
        return ("exc", e)
    except Exception as e:
        return ("exc", e)


def do_load(op, ctx, mappyfile, Parser, MapfileToDict, model, disk, parsers, rootabs, absroot, cwds):
    how = op["how"]
    flags = {"include_position": op["pos"], "include_comments": op["com"]}
    expand = op["expand"]
    cwd = cwds[op["cwd"]]
    os.chdir(cwd)
    text = model.fs.get(rootabs)
    desc = f"{how}(expand={expand}, {flags}) from cwd {cwd}"
    memory = how in ("load_sio", "loads", "load_fd")
    if memory and (text is None or text == "DIR"):
        return
    basedir = cwd if memory else absroot
    fp = None
    if how == "load_sio":
        fp = io.StringIO(text, newline="")
    elif how == "load_fd":
        # a file object whose name is a descriptor number: nothing to resolve against but the cwd
        fd = os.memfd_create("mem")
        os.write(fd, text.encode("utf-8"))
        os.lseek(fd, 0, 0)
        fp = os.fdopen(fd, "r", encoding="utf-8", newline="")
    disk.arm(op["faults"])
    if how == "open_abs":
        got = call(lambda: mappyfile.open(rootabs, expand_includes=expand, **flags))
    elif how == "open_path":
        import pathlib

        got = call(lambda: mappyfile.open(pathlib.Path(rootabs), expand_includes=expand, **flags))
    elif how == "open_rel":
        got = call(lambda: mappyfile.open(os.path.relpath(rootabs, cwd), expand_includes=expand, **flags))
    elif how == "load_file":

        def f():
            with io.open(rootabs, encoding="utf-8", newline="") as fp:
                return mappyfile.load(fp, expand_includes=expand, **flags)

        got = call(f)
    elif how in ("load_sio", "load_fd"):
        got = call(lambda: mappyfile.load(fp, expand_includes=expand, **flags))
    elif how == "loads":
        got = call(lambda: mappyfile.loads(text, expand_includes=expand, **flags))
    else:
        key = (expand, op["com"])
        p = parsers.get(key)
        if p is None:
            p = parsers[key] = Parser(expand_includes=expand, include_comments=op["com"])
        got = call(lambda: MapfileToDict(**flags).transform(p.parse_file(rootabs)))
    fired = [(r, n) for r, n in disk.fired() if n]
    opens = [l for l in disk.log() if l.startswith("open")]
    disk.disarm()
    if fp is not None:
        fp.close()
    hard = False
    for r, n in fired:
        ctx.fault(fault_name(r), n)
        hard = hard or is_hard(r)
    ctx.count(how)
    if len(opens) > 6000:
        raise Violation("unbounded", f"{desc}: {len(opens)} files opened")
    # what should it be?
    errs = set()
    flat = None
    if text is None or text == "DIR":
        errs.add("missing")
    elif expand:
        flat = model.flatten(text, basedir, errs)
        if "deep" in errs:
            ctx.probe("too_deep_or_cyclic")
        if "missing" in errs:
            ctx.probe("missing_include")
    else:
        flat = text
    kind, val = got
    if kind == "exc" and isinstance(val, (RecursionError, MemoryError)):
        raise Violation("recursion", f"{desc}: {type(val).__name__}")
    if not errs and not hard or (hard and kind == "ok" and not errs):
        ref = call(lambda: mappyfile.loads(flat, expand_includes=expand, **flags))
        a = canon(val) if kind == "ok" else canon_exc(val)
        b = canon(ref[1]) if ref[0] == "ok" else canon_exc(ref[1])
        if a != b:
            raise Violation(
                "substitution" if expand else "no-expand",
                f"{desc}: {'a disk error was swallowed and ' if hard else ''}result differs from loading the flattened text: {first_diff(a, b)}"
                + (f" ({val})" if kind == "exc" and not hasattr(val, "token") else ""),
            )
        if expand:
            ctx.probe("judged_equal" if ref[0] == "ok" else "both_rejected")
            if flat.count("\n") != text.count("\n") or flat != text:
                ctx.probe("with_includes")
        ctx.log(how, expand, sha(ctx.clean(json.dumps(a))))
        ctx.state(sha(ctx.clean(json.dumps(a))))
    elif errs:
        if kind == "ok":
            raise Violation("accepted-" + "-".join(sorted(errs)), f"{desc}: returned {short(canon(val))} though the tree has: {sorted(errs)}")
        if errs == {"missing"} and not isinstance(val, OSError):
            raise Violation("missing-not-ioerror", f"{desc}: a missing file raised {type(val).__name__}: {val}")
        ctx.log(how, expand, sorted(errs), "raised", type(val).__name__ if errs != {"missing", "deep"} else "")
        ctx.state("err" + "".join(sorted(errs)))
    else:  # hard fault, no result
        if not isinstance(val, OSError):
            raise Violation("io-error-lost", f"{desc}: a disk error surfaced as {type(val).__name__}: {val}")
        ctx.log(how, expand, "fault", type(val).__name__)
    if not expand and text not in (None, "DIR") and not hard:
        others = [l for l in opens if os.path.normpath(os.path.join(os.getcwd(), l[5:].rsplit(" ", 3)[0])) != rootabs]
        if others:
            raise Violation("no-expand-reads", f"{desc}: other files opened without expansion: {others[:4]}")
        if kind == "ok":
            no_expand(op, ctx, desc, mappyfile, val, text)


def collect(d, path, out):
    if isinstance(d, list):
        for x in d:
            collect(x, path, out)
        return
    if not isinstance(d, dict):
        return
    t = d.get("__type__")
    here = path + [t.upper()] if t else path
    if isinstance(d.get("include"), list) and t not in ("metadata", "validation", "values", "connectionoptions"):
        out.append(["/".join(here), [str(x) for x in d["include"]]])
    for k, v in d.items():
        if not k.startswith("__") and isinstance(v, (dict, list)):
            if isinstance(v, dict) and "__type__" not in v:
                continue
            collect(v, here, out)


def no_expand(op, ctx, desc, mappyfile, d, text):
    want = scan_directives(text)
    if want is None or any('"' in n for _, v in want for n in v):
        return
    out = []
    collect(d, [], out)
    got = sorted(out)
    if got != want:
        raise Violation("no-expand-data", f"{desc}: directives {want} were kept as {got}")
    printed = mappyfile.dumps(d)
    back = scan_directives(printed)
    if back != want:
        raise Violation("no-expand-written", f"{desc}: directives {want} were written back as {back}")
    if want:
        ctx.probe("directives_written_back")


def shrink(sc, test):
    sc = S.ddmin_list(sc, ["ops"], test)
    for i, o in enumerate(sc["ops"]):
        if o.get("faults"):
            sc = S.ddmin_list(sc, ["ops", i, "faults"], test)
    for p in sorted(sc["files"]):
        if p != sc["root"]:
            fs = {k: v for k, v in sc["files"].items() if k != p}
            c = S.with_value(sc, ["files"], fs)
            if test(c):
                sc = c
                continue
        sc = S.ddmin_list(sc, ["files", p, "parts"], test)
    if sc.get("decoys"):
        c = S.with_value(sc, ["decoys"], False)
        if test(c):
            sc = c
    for i, o in enumerate(sc["ops"]):
        for k, v in (("pos", False), ("com", False), ("cwd", "root"), ("how", "open_abs")):
            if o.get(k) not in (None, v):
                c = S.with_value(sc, ["ops", i, k], v)
                if test(c):
                    sc = c
    return sc
