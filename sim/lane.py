"""One lane: a process that imports mappyfile, never calls it, and executes every simulated
run in a forked child, so that each run starts from the same pristine interpreter state."""
import importlib
import json
import os
import random
import resource
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")


class Violation(Exception):
    """The property does not hold in this run.  `kind` is the class of violation that
    minimisation has to preserve."""

    def __init__(self, kind, msg, **detail):
        super().__init__(kind, msg)
        self.kind = kind
        self.msg = msg
        self.detail = detail


class Discard(Exception):
    """The run cannot be judged (recorded and counted, never silent)."""


class Ctx:
    """What a run reports besides its verdict."""

    def __init__(self, scratch, memo, lane_state=None):
        self.scratch = scratch
        self.memo = memo
        self.counts = {}
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.events = []
        self.steps = 0
        self.simtime = 0.0
        self.lane_state = lane_state

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    def state(self, h):
        self.states.add(h if isinstance(h, str) else repr(h))

    def log(self, *ev):
        """Event log: part of the run's digest; never draws randomness or reads a clock."""
        self.events.append(ev)

    def clean(self, s):
        return s.replace(self.scratch, "$S")


def setup_imports(prop):
    mod = importlib.import_module("sim.props." + prop.lower())
    pre = getattr(mod, "before_import", None)
    if pre:
        pre()
    import mappyfile

    got = os.path.realpath(os.path.dirname(mappyfile.__file__))
    want = os.path.realpath(os.path.join(REPO, "mappyfile"))
    if got != want:
        raise SystemExit(f"harness: mappyfile imported from {got}, wanted {want}")
    import logging

    logging.getLogger("mappyfile").setLevel(logging.CRITICAL + 10)
    return mod


def prewarm():
    """Compile the grammar the way Parser does, without calling mappyfile."""
    import lark
    from . import memo

    memo.install()
    import mappyfile.parser as mp

    opts = {}
    lc = getattr(mp, "lark_cython", None)
    if lc:
        opts["_plugins"] = lc.plugins
    try:
        lark.Lark.open("mapfile.lark", rel_to=mp.__file__, parser="lalr", **opts)
        lark.Lark.open(
            "mapfile.lark",
            rel_to=mp.__file__,
            parser="lalr",
            propagate_positions=True,
            lexer_callbacks={"COMMENT": None, "CCOMMENT": None},
            **opts,
        )
    except Exception:  # a broken grammar is the checks' business, not ours
        pass


def child_main(mod, req, scratch, use_memo, lane_state):
    ctx = Ctx(scratch, use_memo, lane_state)
    res = {"ok": True}
    sc = None
    try:
        if "scenario" in req:
            sc = req["scenario"]
        else:
            rng = random.Random(f"{req['seed']}:{mod.NAME}:{req['i']}")
            sc = mod.gen(rng, req.get("tier", "quick"))
            sc["_i"] = req["i"]
            sc["_seed"] = req["seed"]
            sc["_hashseed"] = int(os.environ.get("PYTHONHASHSEED", "0"))
        random.seed(12345)
        mod.run(sc, ctx)
    except Violation as v:
        res = {"ok": False, "kind": v.kind, "msg": ctx.clean(str(v.msg)), "detail": v.detail}
    except Discard as d:
        res = {"ok": True, "discard": str(d)}
    except MemoryError:
        res = {"ok": False, "kind": "memory-limit", "msg": "memory limit exceeded", "detail": {}}
    except BaseException:
        res = {"ok": None, "error": traceback.format_exc()[-4000:]}
    import hashlib

    ev = ctx.clean(json.dumps(ctx.events, default=repr))
    res["digest"] = hashlib.sha256(ev.encode("utf-8", "surrogatepass")).hexdigest()[:24]
    res["nev"] = len(ctx.events)
    if req.get("want_events"):
        res["events"] = json.loads(ev)
    if not res["ok"] or req.get("want_scenario"):
        res["scenario"] = sc
    res["counts"] = ctx.counts
    res["faults"] = ctx.faults
    res["probes"] = ctx.probes
    res["states"] = sorted(ctx.states)
    res["steps"] = ctx.steps
    res["simtime"] = ctx.simtime
    return res


def run_forked(mod, req, base, lane_state, use_memo):
    scratch = os.path.join(base, "run")
    cpu = getattr(mod, "CPU_LIMIT", 60)
    mem = getattr(mod, "MEM_LIMIT", 6 << 30)
    wall = getattr(mod, "WALL_LIMIT", 400)
    r, w = os.pipe()
    os.makedirs(scratch, exist_ok=True)
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            out = child_main(mod, req, scratch, use_memo, lane_state)
            data = json.dumps(out, default=repr).encode("utf-8", "surrogatepass")
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(0)
        except BaseException:
            try:
                traceback.print_exc()
            finally:
                os._exit(70)
    os.close(w)
    buf = bytearray()
    t_end = time.time() + wall
    timed_out = False
    while True:
        left = t_end - time.time()
        if left <= 0:
            timed_out = True
            break
        rr, _, _ = select.select([r], [], [], left)
        if rr:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    os.close(r)
    if timed_out:
        for p in (-pid, pid):
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
    _, status, ru = os.wait4(pid, 0)
    try:  # stray grandchildren of the run
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    clean_dir(scratch)
    cputime = ru.ru_utime + ru.ru_stime
    if timed_out:
        return {"ok": None, "error": f"wall limit {wall}s (cpu {cputime:.1f}s)", "cpu": cputime}
    if buf:
        try:
            out = json.loads(bytes(buf).decode("utf-8", "surrogatepass"))
            out["cpu"] = cputime
            return out
        except ValueError:
            pass
    base_res = {"cpu": cputime, "counts": {}, "faults": {}, "probes": {}, "states": [], "steps": 0, "simtime": 0, "digest": "-", "nev": 0}
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGXCPU or (sig == signal.SIGKILL and cputime >= cpu):
            base_res.update(ok=False, kind="cpu-limit", msg=f"no result within {cpu} s of CPU time", detail={})
            return base_res
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE):
            base_res.update(ok=False, kind="process-crash", msg=f"interpreter died with signal {sig}", detail={})
            return base_res
        base_res.update(ok=None, error=f"run killed by signal {sig}")
        return base_res
    base_res.update(ok=None, error=f"run ended with status {status} and no result")
    return base_res


def clean_dir(d):
    """Empty the run's own scratch directory."""
    if "/verif-sim-" not in d:
        raise RuntimeError("refusing to clean " + d)
    for root, dirs, files in os.walk(d, topdown=False):
        for f in files:
            try:
                os.unlink(os.path.join(root, f))
            except OSError:
                pass
        for x in dirs:
            p = os.path.join(root, x)
            try:
                if os.path.islink(p):
                    os.unlink(p)
                else:
                    os.rmdir(p)
            except OSError:
                pass


def main():
    prop, base = sys.argv[1], sys.argv[2]
    sys.path.insert(0, ROOT)
    out_fd = os.dup(1)
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    os.dup2(dn, 0) if False else None
    out = os.fdopen(out_fd, "w", buffering=1)
    sys.stdout = open(os.devnull, "w")
    use_memo = not os.environ.get("SIM_NO_MEMO")
    mod = setup_imports(prop)
    if use_memo and getattr(mod, "USE_MEMO", True):
        prewarm()
    lane_state = None
    if hasattr(mod, "lane_setup"):
        lane_state = mod.lane_setup(base)
    import gc

    gc.collect()
    gc.freeze()
    out.write(json.dumps({"ready": True, "py": sys.version.split()[0]}) + "\n")
    stdin = os.fdopen(os.dup(0), "r")
    dn2 = os.open(os.devnull, os.O_RDONLY)
    os.dup2(dn2, 0)
    for line in stdin:
        req = json.loads(line)
        if req.get("quit"):
            break
        res = run_forked(mod, req, base, lane_state, use_memo)
        if hasattr(mod, "after_run"):
            mod.after_run(lane_state, res)
        out.write(json.dumps(res) + "\n")
    if hasattr(mod, "lane_close"):
        mod.lane_close(lane_state)


if __name__ == "__main__":
    from sim import lane as _lane  # one module identity for Violation

    _lane.main()
