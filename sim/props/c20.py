"""C20: file, stream and command-line front ends agree with the string API.

The simulated system is a directory of Mapfiles on a faulty disk with users saving, loading,
formatting and validating in it: writers that are interrupted or killed part-way and repeated,
targets that already hold a longer file, streams that fail, CLI processes (forked `main`, and a
sample of real processes) whose exit status, stdout and output file are what is judged."""
import codecs
import glob
import io
import json
import os
import signal
import subprocess
import sys

from sim import docgen as D
from sim import shrinklib as S
from sim.canon import canon, canon_exc, first_diff, sha, short
from sim.disk import Disk, env_spec, fault_name, is_hard
from sim.lane import Violation

NAME = "C20"
LEVEL = "exploration"
TECH = "seeded front-end and CLI histories on a faulty simulated disk with crashes, judged by exit statuses and file contents"
NEEDS_SHIM = True
RUNS = {"quick": 1200, "thorough": 40000}
CPU_LIMIT = 120
RULE = (
    "A run is a seeded set of Mapfiles (valid, 1..300 errors, unparseable, not UTF-8, with includes) and a history of saves, "
    "dumps, loads, `format`, `validate` and `schema` invocations (forked main; a sample as real processes) with injected "
    "read/write/open/close errors, short and torn writes, crashes followed by a repeat, and failing stdout. Non-trivial: at "
    "least 3 events; distinct by event digest."
)
STATE_MEASURE = "distinct (operation, outcome, content digest) triples"
REAL = ["mappyfile.utils", "mappyfile.cli (click)", "mappyfile.parser", "mappyfile.pprint", "mappyfile.validator", "kernel file system under a scratch directory", "real /opt/venv/bin/mappyfile processes (sample)"]
STUBS = ["libc open/read/write/close faults through sim/shim.c", "Lark grammar compilation memoised per lane (not in replays, not in real processes)"]
ASSUMPTIONS = [
    "strings with lone surrogates (not Unicode, not encodable in UTF-8) have to be refused by save; strings do not hold the quote character chosen for output (documented limitation)",
    "a file whose read fails counts as one problem of `validate`",
]
CLI = "/opt/venv/bin/mappyfile"
VERSIONS = [4.6, 5.0, 5.4, 5.6, 6.0, 6.2, 6.4, 7.0, 7.2, 7.4, 7.6, 8.0, 8.2, 8.4, 7.55, 7.59, 7.601, 5.98, 6.199, 8.04, 7.25, 5.96, 4.599]

def _pin(value):
    return {"files": {}, "ops": [{"op": "save", "src": None, "text": "MAP\nNAME 'x'\nLAYER TYPE POINT NAME 'y' END\nEND", "how": "save", "out": "out.map", "prefill": 0,
                                  "fmt": {}, "inject": [[0, value]], "faults": []}]}


# the recorded findings, re-examined on every run
PINNED = [_pin("C:\\data\\"), _pin("a\ninclude 'b'")]
BOM = "\ufeff"
for _t in ("MAP NAME 'é' END", "# c\nMAP\nNAME 'x'\nEND", "LAYER TYPE POINT END"):
    PINNED.append({"files": {"a.map": {"kind": "bom", "text": BOM + _t}, "b.map": {"kind": "ok", "text": _t}}, "ops": [
        {"op": "loaders", "src": n, "expand": True, "pos": True, "com": com, "faults": []} for n in ("a.map", "b.map") for com in (False, True)
    ] + [{"op": "validate", "pats": ["*.map"], "expand": True, "version": None, "real": False, "rel": True, "faults": [], "stdout": ""}]})

# every combination of the options on Mapfiles with includes: an option that only matters in combination
_INC = {"a.map": {"kind": "inc", "text": "# c0\nMAP # c1\n# c2\nNAME 'x'\nINCLUDE \"part.inc\" # c3\nLAYER TYPE POINT # c4\nINCLUDE 'sub/l.inc'\nEND\nEND"},
        "part.inc": {"kind": "part", "text": "# p\nANGLE 5\nINCLUDE 'nest.inc'\n"}, "nest.inc": {"kind": "part", "text": "CONFIG 'é' 'ß' # n\nSIZE 1 1"},
        "sub/l.inc": {"kind": "part", "text": "NAME 'l'\r\nSTATUS 'maybe'\r\n"}}
for _rel in (False, True):
    PINNED.append({"files": dict(_INC), "ops": [
        {"op": "loaders", "src": "a.map", "expand": e, "pos": pos, "com": com, "relpath": _rel, "faults": []} for e in (False, True) for pos in (False, True) for com in (False, True)
    ] + [{"op": "format", "src": "a.map", "out": "fmt.map", "fmt": fm, "expand": e, "com": com, "prefill": 0, "real": False, "rel": _rel, "esc": False, "glob": [], "faults": []}
         for e in (False, True) for com in (False, True) for fm in ({}, {"indent": 0, "quote": "'", "newlinechar": "\r\n"}, {"indent": 2, "spacer": "\t"})
    ] + [{"op": "validate", "pats": ["a.map"], "expand": e, "version": v, "real": False, "rel": _rel, "glob": [], "faults": [], "stdout": ""} for e in (False, True) for v in (None, 7.6)]})

VALUES = D.ASCII + D.UNI * 2 + D.CTRL * 2 + [
    "\x00", "a\x00b", "\x01\x02\x7f", "\ufeffbom", "a\ufeff", "x\ty", "\r", "\n", "a\r", "a\r\n\r\nb", "\u2028", "\x85", "\x0c", "\x1c\x1d\x1e",
    "\U0010ffff", "\ufffe", "\uffff", "e\u0301", "\u00e9", "ß", "İ", "ſ", "ǆ", "Ω", "Ω", "\u00a0", "\u3000wide", "/* not a comment */", "# not a comment",
    "it's", "`tick`", "a;b", "\\n", "\\", "a\\b", "\u202e", "👩\u200d👩\u200d👧", "%20", "{", "}", "(", "[", "]", "x" * 300, "é" * 5000, "𝔘" * 2100,
]


def rand_value(rng):
    r = rng.random()
    if r < 0.6:
        s = rng.choice(VALUES)
    elif r < 0.9:
        s = "".join(chr(pick_cp(rng)) for _ in range(rng.choice([1, 2, 3, 8, 20])))
    else:
        # straddle buffer boundaries with multi-byte characters
        s = "a" * rng.choice([0, 1, 2, 3, 4093, 8189]) + rng.choice(["é", "日", "𝔘"]) * rng.choice([1, 2730, 4096])
    # recorded findings of their own (see PINNED): kept out of the general search
    if rng.random() < 0.01:
        s += rng.choice(["\ud800", "\udfff", "\udc80x"])
    s = s.rstrip("\\") or "b"
    if any(l.strip().lower().startswith("include") for l in s.split("\n")[1:]):
        s = "c"
    return s


def pick_cp(rng):
    while True:
        c = rng.choice([
            lambda: rng.randrange(0, 0x80), lambda: rng.randrange(0x80, 0x800), lambda: rng.randrange(0x800, 0x10000),
            lambda: rng.randrange(0x10000, 0x110000), lambda: rng.randrange(0, 0x20),
        ])()
        if not 0xD800 <= c <= 0xDFFF:
            return c


FAULTS_W = [
    {"op": "write", "act": "errno", "arg": "ENOSPC"}, {"op": "write", "act": "errno", "arg": "EIO"}, {"op": "write", "act": "errno", "arg": "EDQUOT"},
    {"op": "write", "act": "short", "arg": 1}, {"op": "write", "act": "short", "arg": 5, "sticky": True}, {"op": "write", "act": "short", "arg": 100},
    {"op": "write", "act": "errno", "arg": "EINTR"}, {"op": "close", "act": "errno", "arg": "EIO"}, {"op": "open", "act": "errno", "arg": "EACCES"},
    {"op": "open", "act": "errno", "arg": "ENOSPC"}, {"op": "open", "act": "errno", "arg": "EINTR"}, {"op": "open", "act": "errno", "arg": "EROFS"},
    {"op": "write", "act": "torn", "arg": 0}, {"op": "write", "act": "torn", "arg": 10}, {"op": "write", "act": "torn", "arg": 1000},
    {"op": "write", "act": "crash"}, {"op": "close", "act": "crash"},
]
FAULTS_R = [
    {"op": "open", "act": "errno", "arg": "EIO"}, {"op": "open", "act": "errno", "arg": "EACCES"}, {"op": "open", "act": "errno", "arg": "EMFILE"},
    {"op": "read", "act": "errno", "arg": "EIO"}, {"op": "read", "act": "errno", "arg": "EINTR"}, {"op": "open", "act": "errno", "arg": "EINTR"},
    {"op": "read", "act": "short", "arg": 1, "sticky": True}, {"op": "read", "act": "short", "arg": 3, "sticky": True}, {"op": "read", "act": "short", "arg": 11},
    {"op": "open", "act": "errno", "arg": "ENOENT"},
]


def pick_faults(rng, pool, p, multi=(1, 1, 1, 2)):
    out = []
    if rng.random() < p:
        for _ in range(rng.choice(multi)):
            f = dict(rng.choice(pool))
            f["nth"] = rng.choice([1, 1, 1, 2, 3]) if not f.get("sticky") else 1
            out.append(f)
    return out


def gen_fmt(rng, cli=False):
    o = {}
    if rng.random() < 0.5:
        o["indent"] = rng.choice([0, 1, 2, 3, 4, 8])
    if rng.random() < 0.3:
        o["spacer"] = rng.choice(["\t", " ", "  "])
    if rng.random() < 0.4:
        o["quote"] = rng.choice(["'", '"'])
    if rng.random() < 0.35:
        o["newlinechar"] = rng.choice(["\n", "\r\n", "\r\n", " ", "\n\n", "\r"])
    if cli and rng.random() < 0.1:
        # any characters will do: what is compared is what save(open(IN)) writes with the same ones
        o[rng.choice(["spacer", "newlinechar"])] = rng.choice(["é", "\u3000", "\u00a0\t", "→", "\n\u2003", "\U0001f600\n"])
    if not cli:
        if rng.random() < 0.25:
            o["end_comment"] = True
        if rng.random() < 0.3:
            o["align_values"] = True
        if rng.random() < 0.2:
            o["separate_complex_types"] = True
        if o.get("end_comment") and o.get("newlinechar") in (" ", "\r"):
            o["newlinechar"] = "\r\n"
    return o


def gen_text(rng, roots=None, **kw):
    opts = {"size": rng.choice([2, 3, 5]), "unicode": True, "ctrl": rng.random() < 0.5, "comments": rng.random() < 0.4, "anycase": rng.random() < 0.3,
            "ban_words": ("include",), "multi": rng.random() < 0.1}
    opts.update(kw)
    doc = D.document(rng, opts, roots=roots)
    eol = rng.choice(["\n", "\n", "\n", "\r\n"])
    return eol.join(D.text_lines(doc, rng, opts)) + rng.choice(["", eol])


def err_text(rng, n):
    """A Mapfile with n validation errors, about."""
    out = ["MAP"]
    left = n
    while left > 0:
        k = min(left, rng.choice([1, 5, 50, 300]))
        out.append("LAYER TYPE POINT NAME 'é %d'" % left)
        for i in range(k):
            out.append(rng.choice(["CLASS FOO 1 END", "CLASS STATUS 'maybe' END", "CLASS BAR [x] END", "CLASS NAME 5 END"]))
        out.append("END")
        left -= k
    if rng.random() < 0.2:
        out.append("SIZE 10.5 20")
    if rng.random() < 0.2:
        out.append("EXTENT 1 2 3")
    out.append("END")
    return "\n".join(out)


BROKEN = ["MAP", "MAP NAME 'x", "MAP LAYER END", "END", "", "FOO", "MAP NAME x END END", "MAP\nNAME \"a\"\n\nLAYER\nBOGUS (\nEND\nEND", "MAP { }", "\x00", "# only a comment\n",
          "MAP INCLUDE END", "INCLUDE", "MAP EXTENT a b c d END x"]
NAMES = ["a.map", "b.map", "c d.map", "é.map", "日本.map", "UP.MAP", "sub/x.map", "sub/y z.map", "-dash.map", "long" * 20 + ".map"]


def gen_file(rng):
    r = rng.random()
    if r < 0.3:
        return {"kind": "gen", "text": rng.choice([BOM] + [""] * 9) + gen_text(rng)}
    if r < 0.5:
        return {"kind": "gen", "text": gen_text(rng, roots=["map"])}
    if r < 0.6:
        return {"kind": "ok", "text": rng.choice(["MAP NAME 'é' END", "MAP LAYER TYPE POINT END END", "MAP\r\nNAME 'x'\r\nEND\r\n", "MAP SIZE 1 1 END"])}
    if r < 0.76:
        return {"kind": "errs", "text": err_text(rng, rng.choice([1, 1, 2, 3, 5, 17, 85, 100, 127, 128, 200, 254, 255, 256, 257, 300]))}
    if r < 0.9:
        return {"kind": "broken", "text": rng.choice(BROKEN)}
    if r < 0.94:
        return {"kind": "bytes", "hex": rng.choice(["4d4150204e414d452027e927 20454e44", "fffe4d00", "efbbbf4d4150204e414d4520277827 20454e44", "c0af", "eda080", "4d415020454e44ff"]).replace(" ", "")}
    if r < 0.955:
        return {"kind": "inc", "text": "MAP\nINCLUDE \"missing.inc\"\nEND"}
    return {"kind": "inc", "text": rng.choice(["MAP\nINCLUDE \"part.inc\"\nNAME 'x'\nEND", "# c\nMAP # d\nINCLUDE 'part.inc' # e\nEND", "MAP\r\nLAYER TYPE POINT\r\nINCLUDE \"sub/part.inc\"\r\nEND\r\nEND"])}


GLOBAL = [[], [], [], [], ["-v"], ["-vv"], ["-q"], ["-qqq"], ["--verbose", "--quiet"]]


def gen(rng, tier):
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 4]))
    files = {n: gen_file(rng) for n in names}
    if rng.random() < 0.12 and len(names) >= 2:
        # sums that are exact multiples of 256
        tot = rng.choice([255, 256, 256, 257, 512])
        k = rng.choice([1, 100, 128, 255])
        files[names[0]] = {"kind": "errs", "text": "MAP LAYER TYPE POINT\n" + "CLASS FOO 1 END\n" * k + "END END"}
        files[names[1]] = {"kind": "errs", "text": "MAP LAYER TYPE POINT\n" + "CLASS FOO 1 END\n" * (tot - k) + "END END"}
    if any(f["kind"] == "inc" for f in files.values()) or rng.random() < 0.1:
        files["part.inc"] = {"kind": "part", "text": rng.choice(["SIZE 10 10", "SIZE 'x'", "LAYER TYPE POINT END", "BOGUS ("])}
        files["sub/part.inc"] = {"kind": "part", "text": "SIZE 20 20"}
    faulty = rng.random() < 0.6
    ops = []
    mapnames = [n for n in names]
    for _ in range(rng.choice([1, 2, 2, 3, 4, 5])):
        r = rng.random()
        real = rng.random() < 0.06
        f = rng.choice(mapnames)
        if r < 0.36:
            op = {
                "op": "save", "src": f if rng.random() < 0.3 else None, "text": gen_text(rng, ctrl=False), "how": rng.choice(["save", "save", "dump_file", "dump_sio", "dumps_file"]),
                "out": rng.choice(["out.map", "out.map", "é out.map", "sub/o.map", f]), "prefill": rng.choice([0, 0, 0, 50, 100000]),
                "fmt": gen_fmt(rng), "inject": [[rng.randrange(1000), rand_value(rng)] for _ in range(rng.choice([0, 1, 1, 2, 4]))],
                "faults": pick_faults(rng, FAULTS_W, 0.5) if faulty else [],
            }
            if op["src"]:
                op["text"] = None
        elif r < 0.5:
            op = {"op": "loaders", "src": f, "relpath": rng.random() < 0.3, "header": rng.choice([None, None, None, "MAPFILE 1\n", "é\n", "\n", "MAP\n"]), "expand": rng.random() < 0.8, "pos": rng.random() < 0.4, "com": rng.random() < 0.4,
                  "faults": pick_faults(rng, FAULTS_R, 0.4) if faulty else []}
        elif r < 0.7:
            op = {"op": "format", "src": f, "out": rng.choice(["fmt.map", "fmt.map", "é fmt.map", f]), "fmt": gen_fmt(rng, True), "expand": rng.random() < 0.8,
                  "com": rng.random() < 0.3, "prefill": rng.choice([0, 0, 100000]), "real": real, "rel": rng.random() < 0.3, "esc": rng.random() < 0.5, "glob": rng.choice(GLOBAL),
                  "faults": pick_faults(rng, FAULTS_W + FAULTS_R, 0.5) if faulty else []}
        elif r < 0.93:
            pats = rng.choice([["*.map"], ["*.map", "sub/*.map"], [rng.choice(mapnames)], [rng.choice(mapnames), rng.choice(mapnames)], ["*"], ["nothing*.map"], ["*.MAP", "*.map"], mapnames])
            op = {"op": "validate", "pats": pats, "expand": rng.random() < 0.8, "version": rng.choice([None] + VERSIONS), "real": real, "rel": rng.random() < 0.3, "glob": rng.choice(GLOBAL),
                  "faults": pick_faults(rng, FAULTS_R, 0.45) if faulty else [], "stdout": "full" if faulty and rng.random() < 0.08 else ""}
        else:
            op = {"op": "schema", "out": "schema.json", "version": rng.choice([None] + VERSIONS), "prefill": rng.choice([0, 10, 3000000]), "real": real,
                  "faults": pick_faults(rng, FAULTS_W, 0.4) if faulty else []}
        ops.append(op)
    return {"files": files, "ops": ops}


# ---------------------------------------------------------------------------------------------


def call(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("exc", e)


def file_bytes(f):
    return bytes.fromhex(f["hex"]) if "hex" in f else f["text"].encode("utf-8")


def rd(p):
    try:
        with io.open(p, "rb") as fp:
            return fp.read()
    except OSError:
        return None


class World:
    def __init__(self, sc, ctx):
        import mappyfile

        self.m = mappyfile
        self.ctx = ctx
        self.base = os.path.join(ctx.scratch, "w")
        self.side = os.path.join(ctx.scratch, "side")
        os.makedirs(os.path.join(self.base, "sub"))
        os.makedirs(self.side)
        for n, f in sc["files"].items():
            self.put(n, file_bytes(f))
        os.chdir(self.base)
        self.disk = Disk([self.base])

    def path(self, n):
        return os.path.join(self.base, n)

    def put(self, n, b):
        with io.open(self.path(n), "wb") as f:
            f.write(b)

    def note_faults(self, fired):
        hard = False
        for r, n in fired:
            if n:
                self.ctx.fault(fault_name(r), n)
                hard = hard or is_hard(r)
        return hard

    def in_child(self, fn, faults, stdout=None):
        """Run fn() in a forked process with faults armed; -> (status, fired).  status is the
        exit status as a shell sees it."""
        side = os.path.join(self.side, "fired")
        try:
            os.unlink(side)
        except OSError:
            pass
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                out = os.open(stdout or os.devnull, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
                os.dup2(out, 1)
                err = os.open(os.path.join(self.side, "stderr"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
                os.dup2(err, 2)
                sys.stdout = io.open(1, "w", encoding="utf-8", errors="surrogateescape", closefd=False)
                sys.stderr = io.open(2, "w", encoding="utf-8", errors="backslashreplace", closefd=False)
                self.disk.arm(faults)
                try:
                    fn()
                    code = 0
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                except BaseException as e:
                    code = 1
                    os.write(2, repr(e).encode("utf-8", "replace"))
                try:
                    sys.stdout.flush()
                except OSError:
                    code = code or 120
                fired = [n for _, n in self.disk.fired()]
                self.disk.disarm()
                fd = os.open(side, os.O_WRONLY | os.O_CREAT, 0o644)
                os.write(fd, json.dumps(fired).encode())
                os.close(fd)
            except BaseException as e:
                os.write(2, repr(e).encode("utf-8", "replace"))
                code = 71
            os._exit(code & 0xFF)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            raise Violation("process-crash", f"process died with signal {os.WTERMSIG(st)}")
        status = os.WEXITSTATUS(st)
        b = rd(side)
        if b is None:
            fired = [(r, 1 if r["act"] in ("crash", "torn") else 0) for r in faults]
        else:
            fired = list(zip(faults, json.loads(b)))
        return status, fired

    def cli(self, args, faults, real, stdout=None):
        """-> (status, fired, stdout bytes)"""
        outp = stdout or os.path.join(self.side, "stdout")
        if not stdout:
            try:
                os.unlink(outp)
            except OSError:
                pass
        if real:
            self.ctx.count("real_process")
            env = {k: v for k, v in os.environ.items() if not k.startswith("SIM_")}
            log = os.path.join(self.side, "shimlog")
            try:
                os.unlink(log)
            except OSError:
                pass
            if faults:
                env["SIM_SHIM"] = env_spec([self.base], faults)
                env["SIM_SHIM_LOG"] = log
            with io.open(outp, "wb") as fo, io.open(os.path.join(self.side, "stderr"), "wb") as fe:
                p = subprocess.run([CLI] + args, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, cwd=self.base)
            status = p.returncode
            lg = (rd(log) or b"").decode("utf-8", "replace").splitlines()
            fired = []
            for r in faults:
                what = {"errno": r.get("arg"), "short": "SHORT", "crash": "CRASH", "torn": "TORN"}[r["act"]]
                n = sum(1 for l in lg if l.startswith(r["op"] + " ") and (l.endswith(" " + what) or (r["act"] == "torn" and l.endswith("CRASH"))))
                fired.append((r, n))
        else:
            from mappyfile import cli

            status, fired = self.in_child(lambda: cli.main(args=list(args), prog_name="mappyfile"), faults, outp)
        self.ctx.count("cli")
        return status, fired, (b"" if stdout else rd(outp))

    def stderr(self):
        return (rd(os.path.join(self.side, "stderr")) or b"").decode("utf-8", "replace")[-300:]


SLOT_KEYS = {}


def slots(d, out=None):
    """Every place that holds a free string, in document order."""
    out = [] if out is None else out
    if isinstance(d, list):
        for x in d:
            slots(x, out)
        return out
    t = d.get("__type__") if "__type__" in d else None
    for k in list(d.keys()):
        v = dict.__getitem__(d, k)
        if k.startswith("__"):
            continue
        if isinstance(v, str):
            if t in ("metadata", "validation", "connectionoptions", "values") or t is None:
                out.append((d, k))
            elif t in D.V and D.V[t].get(k) == [["str"]]:
                out.append((d, k))
        elif isinstance(v, dict):
            slots(v, out)
        elif isinstance(v, list) and v and isinstance(v[0], dict):
            slots(v, out)
        elif k in ("processing", "formatoption") and isinstance(v, list):
            for i in range(len(v)):
                if isinstance(v[i], str):
                    out.append((v, i))
    return out


def raw(c, k):
    return dict.__getitem__(c, k) if isinstance(c, dict) else c[k]


def run(sc, ctx):
    w = World(sc, ctx)
    for op in sc["ops"]:
        ctx.steps += 1
        ctx.count(op["op"])
        w.disk.disarm()
        globals()["op_" + op["op"]](w, op, ctx)


def op_save(w, op, ctx):
    m = w.m
    if op["src"]:
        k, d = call(lambda: m.open(w.path(op["src"])))
    else:
        k, d = call(lambda: m.loads(op["text"], expand_includes=False))
    if k != "ok":
        ctx.log("save", "unparseable")
        return
    fmt = dict(op["fmt"])
    q = fmt.get("quote", '"')
    sl = slots(d)
    trailing = inc = False
    for i, v in op["inject"]:
        if not sl:
            break
        v = v.replace(q, "")
        c, key = sl[i % len(sl)]
        c[key] = v
    for c, key in sl:
        if q in raw(c, key):
            c[key] = raw(c, key).replace(q, "")
        v = raw(c, key)
        if v.endswith("\\"):
            trailing = True
        if any(l.strip().lower().startswith("include") for l in v.split("\n")[1:]):
            inc = True
    k, text = call(lambda: m.dumps(d, **fmt))
    if k != "ok":
        # refusing to print is C03's business; the file writers must refuse too
        ctx.log("save", "refused", type(text).__name__)
        k2, e = call(lambda: m.save(d, w.path("refused.map"), **fmt))
        if k2 == "ok":
            raise Violation("save-disagrees", f"dumps({fmt}) raised {text!r} but save wrote a file")
        return
    try:
        want = text.encode("utf-8")
    except UnicodeEncodeError:
        # not a Unicode string (a lone surrogate): no UTF-8 file can hold it, so save may not claim that it does
        k2, e = call(lambda: m.save(d, w.path("refused.map"), **fmt))
        if k2 == "ok":
            raise Violation("save-silent", f"save({fmt}) returned normally although the text of dumps cannot be written as UTF-8; the file holds {ascii(rd(w.path('refused.map')))[:200]}")
        ctx.probe("unencodable_refused")
        ctx.log("save", "unencodable")
        return
    out = w.path(op["out"])
    if op["prefill"]:
        w.put(op["out"], b"#" * op["prefill"])
    how = op["how"]

    def write():
        if how == "save":
            m.save(d, out, **fmt)
        elif how == "dump_file":
            with io.open(out, "w", encoding="utf-8", newline="") as fp:
                m.dump(d, fp, **fmt)
        elif how == "dump_sio":
            s = io.StringIO(newline="")
            m.dump(d, s, **fmt)
            with io.open(out, "wb") as fp:
                fp.write(s.getvalue().encode("utf-8"))
        else:
            with io.open(out, "wb") as fp:
                fp.write(m.dumps(d, **fmt).encode("utf-8"))

    faults = op["faults"]
    if any(r["act"] in ("crash", "torn") for r in faults):
        status, fired = w.in_child(write, faults)
        w.note_faults(fired)
        if status == 137:
            ctx.probe("crashed_mid_save")
            left = rd(out)
            ctx.log("crash", how, len(left) if left is not None else -1)
        elif status == 0 and rd(out) != want:
            raise Violation("save-content", f"{how}({fmt}) exited normally but the file differs from dumps: {bdiff(rd(out), want)}")
    elif faults:
        w.disk.arm(faults)
        k, e = call(write)
        fired = w.disk.fired()
        w.disk.disarm()
        hard = w.note_faults(fired)
        got = rd(out)
        if k == "ok" and got != want:
            raise Violation("save-silent", f"{how}({fmt}) returned normally under {[fault_name(r) for r, n in fired if n]} but the file differs from dumps: {bdiff(got, want)}")
        if k == "exc" and not hard:
            raise Violation("save-soft-fault", f"{how}({fmt}) raised {e!r} though every fault could be retried")
        ctx.log("fault", how, k, [fault_name(r) for r, n in fired if n])
    # the user tries again (or for the first time) on a healthy disk
    k, e = call(write)
    if k != "ok":
        raise Violation("save-raises", f"{how}({fmt}) raised {e!r} though dumps works")
    got = rd(out)
    if got != want:
        raise Violation("save-content", f"{how}({fmt}): the file differs from dumps: {bdiff(got, want)}")
    sl = slots(d)  # separate_complex_types may have reordered the dictionary
    want_vals = [raw(c, k) for c, k in sl]
    # and reads it back through every front end
    comp = compare_loaders(w, out, text, ctx, f"after {how}({fmt})", expand=True)
    if comp is None:
        return
    k2, d2 = comp
    sig = None
    if trailing:
        sig = "string-trailing-backslash"
    elif inc:
        sig = "include-line-in-string"
    if k2 != "ok":
        # does the document survive with harmless strings?  If not, it is not about strings.
        for c, key in sl:
            c[key] = "x"
        k3, t3 = call(lambda: m.loads(m.dumps(d, **fmt)))
        if k3 == "ok":
            raise Violation("string-lost", f"{how}({fmt}) then open fails with {type(d2).__name__} because of the strings {short(want_vals)}", **({"signature": sig} if sig else {}))
        ctx.log("save", "unreadable")
        return
    got_vals = [raw(c, k) for c, k in slots(d2)]
    if len(got_vals) != len(want_vals):
        for c, key in sl:
            c[key] = "x"
        k3, t3 = call(lambda: slots(m.loads(m.dumps(d, **fmt))))
        if k3 == "ok" and len(t3) == len(want_vals):
            raise Violation("string-lost", f"{how}({fmt}) then open: {len(want_vals)} strings became {len(got_vals)}: {short(want_vals)}", **({"signature": sig} if sig else {}))
        ctx.log("save", "shape changed")
        return
    for a, b in zip(want_vals, got_vals):
        if a != b:
            raise Violation("string-changed", f"{how}({fmt}) then open: {ascii(a)[:200]} came back as {ascii(b)[:200]}", **({"signature": sig} if sig else {}))
    ctx.probe("strings_survived", len(want_vals))
    ctx.log("save", how, sha(want))
    ctx.state("save:" + sha(want))


def bdiff(a, b):
    if a is None:
        return "no file"
    n = min(len(a), len(b))
    i = next((i for i in range(n) if a[i] != b[i]), n)
    return f"{len(a)} bytes vs {len(b)}, first difference at {i}: {a[i:i+40]!r} vs {b[i:i+40]!r}"


def compare_loaders(w, path, text, ctx, desc, expand=True, faults=(), relpath=False, **flags):
    m = w.m
    kw = dict(flags, expand_includes=expand)
    os.chdir(os.path.dirname(path))
    ref = call(lambda: m.loads(text, **kw))

    def via_load():
        with io.open(path, encoding="utf-8", newline="") as fp:
            return m.load(fp, **kw)

    res = None
    fronts = [("open", lambda: m.open(path, **kw)), ("load", via_load), ("load(StringIO)", lambda: m.load(io.StringIO(text, newline=""), **kw))]
    if relpath:
        fronts.append(("open(relative)", lambda: m.open(os.path.basename(path), **kw)))
    for name, f in fronts:
        if faults:
            w.disk.arm(list(faults))
        got = call(f)
        hard = False
        if faults:
            fired = w.disk.fired()
            w.disk.disarm()
            hard = w.note_faults(fired)
        a = canon(got[1]) if got[0] == "ok" else canon_exc(got[1])
        b = canon(ref[1]) if ref[0] == "ok" else canon_exc(ref[1])
        if hard and got[0] == "exc" and isinstance(got[1], OSError):
            ctx.log(name, "fault surfaced")
            continue
        if a != b:
            raise Violation("loaders-disagree", f"{desc}: {name}({kw}) and loads disagree: {first_diff(a, b)}")
        res = got
    os.chdir(w.base)
    ctx.probe("loaders_agree" if ref[0] == "ok" else "loaders_agree_on_error")
    return res


def op_loaders(w, op, ctx):
    p = w.path(op["src"])
    b = rd(p)
    flags = {"include_position": op["pos"], "include_comments": op["com"]}
    try:
        text = b.decode("utf-8")
    except UnicodeDecodeError:
        k, e = call(lambda: w.m.open(p, **flags))
        if k == "ok":
            raise Violation("loaders-disagree", f"open accepted {op['src']}, which is not UTF-8")
        ctx.log("loaders", "not utf-8")
        return
    r = compare_loaders(w, p, text, ctx, op["src"], op["expand"], op["faults"], op.get("relpath", False), **flags)
    if op.get("header"):
        # a stream that has been read in part: load takes what is left of it
        def rest(make):
            with make() as fp:
                fp.readline()
                return w.m.load(fp, expand_includes=False, **flags)

        body = io.StringIO(op["header"] + text, newline="")
        body.readline()
        ref = call(lambda: w.m.loads(body.read(), expand_includes=False, **flags))
        w.put("header.map", (op["header"] + text).encode("utf-8"))
        for name, make in (("load(file)", lambda: io.open(w.path("header.map"), encoding="utf-8", newline="")), ("load(StringIO)", lambda: io.StringIO(op["header"] + text, newline=""))):
            got = call(lambda: rest(make))
            a, b = [canon(x[1]) if x[0] == "ok" else canon_exc(x[1]) for x in (got, ref)]
            if a != b:
                raise Violation("loaders-disagree", f"{op['src']} behind the header {op['header']!r}: {name} of the rest and loads disagree: {first_diff(a, b)}")
        os.unlink(w.path("header.map"))
        ctx.probe("partly_read_stream")
    ctx.log("loaders", None if r is None else ctx.clean(json.dumps(canon(r[1]) if r[0] == "ok" else canon_exc(r[1])))[:2000])


def esc_arg(s, esc):
    if not esc:
        return s
    return s.replace("\t", "\\t").replace("\r", "\\r").replace("\n", "\\n").replace('"', '\\"').replace("'", "\\'")


def op_format(w, op, ctx):
    m = w.m
    src, out = op["src"], op["out"]
    before = rd(w.path(src))
    if op["prefill"] and out != src:
        w.put(out, b"x" * op["prefill"])
    if os.path.isdir(w.path(out)):
        return
    a_src, a_out = (src, out) if op["rel"] else (w.path(src), w.path(out))
    args = list(op.get("glob") or []) + ["format"]
    for k, v in op["fmt"].items():
        if k == "indent":
            args.append(f"--indent={v}")
        else:
            args.append(f"--{k}={esc_arg(v, op['esc'] or chr(0) in v)}")
    if not op["expand"]:
        args.append("--no-expand")
    if op["com"]:
        args.append("--comments")
    args += ["--", a_src, a_out]
    # what the API gives
    k, want = call(lambda: m.dumps(m.open(w.path(src), expand_includes=op["expand"], include_comments=op["com"]), **op["fmt"]).encode("utf-8"))

    def once(faults):
        status, fired, _ = w.cli(args, faults, op["real"])
        hard = w.note_faults(fired)
        got = rd(w.path(out))
        names = [fault_name(r) for r, n in fired if n]
        if k == "ok":
            if status == 0 and got != want:
                raise Violation("format-content", f"{args} (faults {names}) exited 0 but wrote something else than save(open(IN)): {bdiff(got, want)}")
            if status != 0 and not hard:
                raise Violation("format-status", f"{args} (faults {names}) exited {status} though save(open(IN)) works: {w.stderr()}")
        elif status == 0:
            raise Violation("format-status", f"{args} exited 0 though save(open(IN)) raises {want!r}")
        if status == 137:
            ctx.probe("crashed_mid_format")
        ctx.log("format", status if status in (0, 1, 137) else "other", names)
        return status

    st = once(op["faults"])
    if op["faults"]:
        if rd(w.path(src)) != before:  # formatting in place destroyed its input: put it back
            w.put(src, before)
        st = once([])
    if out == src and st != 0:
        w.put(src, before)
    if k == "ok":
        ctx.probe("formatted")
        ctx.state("format:" + sha(want))
    else:
        ctx.probe("format_refused")


def expected_validate(w, op, pats):
    """[(file name as given, [messages] | None when unparseable)]"""
    m = w.m
    version = op["version"] if op["version"] is not None else 8.2
    res = []
    for p in pats:
        for fn in glob.glob(p):
            if os.path.isdir(fn):
                continue
            k, d = call(lambda: m.open(fn, expand_includes=op["expand"], include_position=True))
            if k != "ok":
                res.append((fn, None))
                continue
            k, msgs = call(lambda: m.validate(d, version))
            if k != "ok":
                return None, fn, msgs
            res.append((fn, msgs))
    return res, None, None


def op_validate(w, op, ctx):
    pats = [p if op["rel"] else w.path(p) for p in op["pats"]]
    exp, bad, err = expected_validate(w, op, pats)
    args = list(op.get("glob") or []) + ["validate"]
    if not op["expand"]:
        args.append("--no-expand")
    if op["version"] is not None:
        args.append(f"--version={op['version']}")
    args += ["--"] + pats
    if exp is None:
        raise Violation("validate-raises", f"mappyfile.validate raises {err!r} for {bad}: no message line can be printed for it")
    faults = [dict(f) for f in op["faults"]]
    files = [fn for fn, _ in exp]
    target = None
    if faults and files and len(set(files)) == len(files):
        # aim the faults at one file, so that the expected outcome is known
        target = files[sum(f["nth"] for f in faults) % len(files)]
        base = os.path.basename(target)
        if " " in base or not base.isascii() or any(base in g and g != target for g in files):
            target = None
        else:
            for f in faults:
                f["sub"] = base
                f["nth"] = 1
    stdout = "/dev/full" if op["stdout"] == "full" else None
    status, fired, outb = w.cli(args, faults, op["real"], stdout)
    hard = w.note_faults(fired)
    names = [fault_name(r) for r, n in fired if n]
    desc = f"{args} (faults {names})"
    if hard and target is not None:
        exp = [(fn, None if fn == target else ms) for fn, ms in exp]
    problems = sum(1 if ms is None else len(ms) for _, ms in exp)
    ctx.log("validate", problems, names, bool(stdout))
    ctx.state(f"validate:{problems}:{len(exp)}")
    if stdout:
        ctx.fault("stdout_full")
        if problems and status == 0:
            raise Violation("validate-status", f"{desc} with a full stdout exited 0 for {problems} problems")
        return
    if hard and target is None:
        if status == 0:
            raise Violation("validate-status", f"{desc}: a file could not be read but the exit status is 0")
        return
    what = f"{problems} problem(s) in {len(exp)} file(s)"
    if problems == 0:
        if status != 0:
            raise Violation("validate-status", f"{desc} exited {status} for {what}: {w.stderr()}")
    elif problems <= 255:
        if status != problems:
            raise Violation("validate-status", f"{desc} exited {status} for {what}: {w.stderr()}")
    elif status == 0:
        raise Violation("validate-status", f"{desc} exited 0 for {what}")
    if problems > 255:
        ctx.probe("more_than_255_problems")
    if any(ms is None for _, ms in exp):
        ctx.probe("unparseable_counted")
    # one line per message, in order
    text = outb.decode("utf-8", "surrogateescape")
    lines = text.split("\n")
    pos = 0
    n = 0
    for fn, ms in exp:
        for msg in ms or ():
            e = msg["error"]
            while pos < len(lines) and not (fn in lines[pos] and e in lines[pos] and msg["message"] in lines[pos]):
                pos += 1
            if pos >= len(lines):
                raise Violation("validate-lines", f"{desc}: no line (in order) for {short(msg, 300)} of {fn}; output: {short(text, 500)}")
            pos += 1
            n += 1
    got_n = sum(1 for l in lines if "(Line:" in l)
    if got_n > n and n == 0:
        raise Violation("validate-lines", f"{desc}: {got_n} message lines for {n} messages")
    for fn, ms in exp:
        pass
    msg_lines = [l for l in lines if "ERROR: Invalid value in" in l]
    if len(msg_lines) != n:
        raise Violation("validate-lines", f"{desc}: {len(msg_lines)} message lines for {n} messages: {short(text, 500)}")
    ctx.probe("message_lines", n)


def unproxy(x):
    if isinstance(x, dict):
        return {k: unproxy(v) for k, v in sorted(x.items())}
    if isinstance(x, list):
        return [unproxy(v) for v in x]
    return x


def op_schema(w, op, ctx):
    from mappyfile.validator import Validator

    out = w.path(op["out"])
    if op["prefill"]:
        w.put(op["out"], b"{" * op["prefill"])
    args = ["schema"]
    if op["version"] is not None:
        args.append(f"--version={op['version']}")
    args += ["--", out]
    want = unproxy(Validator().get_versioned_schema(op["version"]))

    def once(faults):
        status, fired, _ = w.cli(args, faults, op["real"])
        hard = w.note_faults(fired)
        if status == 0:
            try:
                got = json.loads(rd(out).decode("utf-8"))
            except (ValueError, AttributeError) as e:
                raise Violation("schema-content", f"{args} exited 0 but the file is not JSON: {e}")
            if got != want:
                raise Violation("schema-content", f"{args}: the file differs from the API's versioned schema: {first_diff(canon(got), canon(want))}")
        elif not hard:
            raise Violation("schema-status", f"{args} exited {status}: {w.stderr()}")
        ctx.log("schema", op["version"], status)

    once(op["faults"])
    if op["faults"]:
        once([])
    ctx.probe("schema_exported")


def shrink(sc, test):
    sc = S.ddmin_list(sc, ["ops"], test)
    for i, o in enumerate(sc["ops"]):
        if o.get("faults"):
            sc = S.ddmin_list(sc, ["ops", i, "faults"], test)
        if o.get("inject"):
            sc = S.ddmin_list(sc, ["ops", i, "inject"], test)
        for k in list(sc["ops"][i].get("fmt") or {}):
            f = dict(sc["ops"][i]["fmt"])
            f.pop(k)
            c = S.with_value(sc, ["ops", i, "fmt"], f)
            if test(c):
                sc = c
        for k, v in (("prefill", 0), ("pos", False), ("com", False), ("expand", True), ("rel", False), ("real", False), ("esc", False), ("glob", []), ("relpath", False), ("header", None), ("how", "save")):
            if k in sc["ops"][i] and sc["ops"][i][k] != v:
                c = S.with_value(sc, ["ops", i, k], v)
                if test(c):
                    sc = c
        if sc["ops"][i].get("pats"):
            sc = S.ddmin_list(sc, ["ops", i, "pats"], test, 1)
        if sc["ops"][i].get("text"):
            sc = S.shrink_text(sc, ["ops", i, "text"], test, ("\n",))
        for j, (_, v) in enumerate(sc["ops"][i].get("inject") or []):
            sc = S.shrink_text(sc, ["ops", i, "inject", j, 1], test, ("",))
    for n in sorted(sc["files"]):
        fs = {k: v for k, v in sc["files"].items() if k != n}
        c = S.with_value(sc, ["files"], fs)
        if test(c):
            sc = c
        elif "text" in sc["files"][n]:
            sc = S.shrink_text(sc, ["files", n, "text"], test, ("\n",))
    return sc
