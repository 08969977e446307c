"""Batch driver: seeds -> lanes -> verdicts -> minimised replay -> evidence."""
import argparse
import copy
import hashlib
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")
NLANES = 8
SHIM = os.path.join(ROOT, "build", "shim.so")


class Lane:
    def __init__(self, prop, base, k, mod, memo=True, hashseed=None):
        self.k = k
        self.prop = prop
        self.dir = os.path.join(base, f"lane{k}")
        os.makedirs(self.dir, exist_ok=True)
        env = dict(os.environ)
        for v in ("VERIF_SEED", "VERIF_TIER", "PYTHONPATH", "PYTHONSTARTUP"):
            env.pop(v, None)
        env["PYTHONHASHSEED"] = str(hashseed if hashseed is not None else 1 + k)
        env["PYTHONPYCACHEPREFIX"] = os.path.join(base, "pyc")
        env["PYTHONPATH"] = os.pathsep.join([ROOT] + ([os.environ["SIM_REPO"]] if os.environ.get("SIM_REPO") else []))
        env["PYTHONUTF8"] = "1"
        env["TZ"] = "UTC"
        env["LC_ALL"] = "C.UTF-8"
        env["HOME"] = self.dir
        env["SIM_BASE"] = self.dir
        if not memo:
            env["SIM_NO_MEMO"] = "1"
        for a, b in getattr(mod, "ENV", {}).items():
            env[a] = b
        if getattr(mod, "NEEDS_SHIM", False):
            env["LD_PRELOAD"] = SHIM
        self.err = open(os.path.join(self.dir, "stderr"), "ab")
        self.p = subprocess.Popen(
            [PY, "-m", "sim.lane", prop, self.dir],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.err,
            env=env,
            cwd=self.dir,
            text=True,
        )
        self.ready = False

    def wait_ready(self):
        if not self.ready:
            line = self.p.stdout.readline()
            if not line:
                self.err.flush()
                raise RuntimeError(
                    "lane failed to start: "
                    + open(os.path.join(self.dir, "stderr"), errors="replace").read()[-3000:]
                )
            self.ready = True

    def ask(self, req):
        self.wait_ready()
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError(
                "lane died: " + open(os.path.join(self.dir, "stderr"), errors="replace").read()[-3000:]
            )
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.write('{"quit":1}\n')
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.err.close()


def ensure_shim():
    src = os.path.join(HERE, "shim.c")
    if not os.path.exists(src):
        return
    if os.path.exists(SHIM) and os.path.getmtime(SHIM) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(SHIM), exist_ok=True)
    tmp = SHIM + f".{os.getpid()}"
    subprocess.run(
        ["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl", "-pthread"], check=True
    )
    os.replace(tmp, SHIM)


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e.get("property") == prop and e.get("status") == "known"]


def signature(res):
    d = res.get("detail") or {}
    return d.get("signature") or res.get("kind")


def replay_in_fresh(prop, path, base, hashseed, n=1):
    """Run the replay file in fresh processes, without the grammar memo."""
    out = []
    for _ in range(n):
        env = dict(os.environ)
        cmd = [PY, os.path.join(ROOT, "check.py"), prop, "--replay", path, "--json"]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=ROOT)
        try:
            out.append(json.loads(p.stdout.strip().splitlines()[-1]))
        except Exception:
            out.append({"ok": None, "error": p.stdout[-500:] + p.stderr[-2000:]})
    return out


def minimise(mod, lane, res, deadline, log):
    kind = res["kind"]
    sc = res["scenario"]
    tried = [0]
    seen = {}

    def test(cand):
        if time.time() > deadline:
            return False
        key = hashlib.sha256(json.dumps(cand, sort_keys=True).encode("utf-8", "surrogatepass")).digest()
        if key in seen:
            return seen[key]
        tried[0] += 1
        r = lane.ask({"scenario": cand})
        ok = r.get("ok") is False and r.get("kind") == kind
        if ok:
            test.last = r
        seen[key] = ok
        return ok

    test.last = res
    if hasattr(mod, "shrink") and kind != "cpu-limit":  # each candidate would cost the whole limit
        # the scenario recorded for the run (schedule made explicit) must reproduce first
        if test(sc):
            prev = None
            while prev != sc and time.time() < deadline:
                prev = copy.deepcopy(sc)
                sc = mod.shrink(sc, test)
    log(f"minimised with {tried[0]} candidate runs")
    return sc, tried[0]


def write_replay(prop, sc, res, dirname):
    os.makedirs(dirname, exist_ok=True)
    h = hashlib.sha256(json.dumps(sc, sort_keys=True).encode("utf-8", "surrogatepass")).hexdigest()[:10]
    path = os.path.join(dirname, f"{prop}-{res['kind'].replace('/', '_')}-{h}.json")
    with open(path, "w", encoding="utf-8", errors="surrogatepass") as f:
        json.dump(
            {
                "property": prop,
                "kind": res["kind"],
                "message": res["msg"],
                "detail": res.get("detail"),
                "seed": sc.get("_seed"),
                "run": sc.get("_i"),
                "hashseed": sc.get("_hashseed", 1),
                "scenario": sc,
                "how_to_replay": f"cd /verif && /opt/venv/bin/python check.py {prop} --replay {path}",
            },
            f,
            indent=1,
        )
    return path


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--json", action="store_true")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--digests")
    ap.add_argument("--hash-offset", type=int, default=0)
    ap.add_argument("--no-memo", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cap", type=float)
    a = ap.parse_args(argv)
    sys.path.insert(0, ROOT)
    prop = a.prop.upper()
    mod = importlib.import_module("sim.props." + prop.lower())
    if getattr(mod, "NEEDS_SHIM", False):
        ensure_shim()
    base = tempfile.mkdtemp(prefix="verif-sim-", dir=os.environ.get("SIM_TMP", "/tmp"))
    try:
        if a.replay:
            return do_replay(a, prop, mod, base)
        return do_batch(a, prop, mod, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def do_replay(a, prop, mod, base):
    rec = json.load(open(a.replay, encoding="utf-8", errors="surrogatepass"))
    lane = Lane(prop, base, 0, mod, memo=False, hashseed=rec.get("hashseed", 1))
    try:
        res = lane.ask({"scenario": rec["scenario"]})
    finally:
        lane.close()
    if a.json:
        print(json.dumps({k: res.get(k) for k in ("ok", "kind", "msg", "digest", "error", "detail")}))
    else:
        print(json.dumps({k: res.get(k) for k in ("ok", "kind", "msg", "detail", "error", "digest")}, indent=1))
    if res.get("ok") is False:
        if not a.json:
            print(f"VIOLATION property={prop} replay={os.path.abspath(a.replay)}")
        return 1
    if res.get("ok") is None:
        return 3
    if not a.json:
        print("replay: the property held")
    return 0


def do_batch(a, prop, mod, base):
    t0 = time.time()
    log = lambda *x: print(f"[{prop} {time.time() - t0:6.1f}s]", *x, flush=True)
    runs = a.runs if a.runs is not None else mod.RUNS[a.tier]
    cap = a.cap or {"quick": 300, "thorough": 700}.get(a.tier, 300)
    cap = getattr(mod, "CAP", {}).get(a.tier, cap) if not a.cap else cap
    pinned = list(getattr(mod, "PINNED", []))
    log(f"VERIF_SEED={a.seed} tier={a.tier} runs={runs} pinned={len(pinned)} workers={a.workers} repo={os.environ.get('SIM_REPO', '/repo')}")
    # one lane first, to compile bytecode into the private cache, then the rest
    lanes = {}
    nl = min(NLANES, max(1, runs))
    memo = not a.no_memo
    lanes[0] = Lane(prop, base, 0, mod, memo, 1 + a.hash_offset)
    lanes[0].wait_ready()
    for k in range(1, nl):
        lanes[k] = Lane(prop, base, k, mod, memo, 1 + k + a.hash_offset)
    agg = {
        "n": 0, "discards": {}, "counts": {}, "faults": {}, "probes": {}, "states": set(), "digests": {},
        "steps": 0, "simtime": 0.0, "cpu": 0.0, "distinct": set(), "errors": [], "viol": [], "samples": [],
    }
    lock = threading.Lock()
    stop = threading.Event()
    sem = threading.Semaphore(a.workers)
    known = load_known(prop)
    known_hit = {}
    measured = {"cpu-limit"} | set(getattr(mod, "MEASURED", ()))

    def absorb(i, res):
        with lock:
            agg["n"] += 1
            agg["cpu"] += res.get("cpu", 0)
            for f in ("counts", "faults", "probes"):
                for k, v in (res.get(f) or {}).items():
                    agg[f][k] = agg[f].get(k, 0) + v
            agg["states"].update(res.get("states") or [])
            agg["steps"] += res.get("steps") or 0
            agg["simtime"] += res.get("simtime") or 0
            agg["digests"][i] = res.get("digest")
            if res.get("ok") is True:
                if res.get("discard"):
                    k = res["discard"][:60]
                    agg["discards"][k] = agg["discards"].get(k, 0) + 1
                elif res.get("nev", 0) >= getattr(mod, "NONTRIVIAL_EVENTS", 3):
                    agg["distinct"].add(res["digest"])
                if res.get("scenario") and len(agg["samples"]) < 3:
                    agg["samples"].append(res["scenario"])
            elif res.get("ok") is False:
                sig = signature(res)
                kn = [e for e in known if e["signature"] == sig]
                if kn:
                    known_hit[sig] = known_hit.get(sig, 0) + 1
                else:
                    agg["viol"].append((i, res))
                    # what was read off a CPU clock is a suspicion until it has been measured again alone
                    suspects = [r for _, r in agg["viol"] if r["kind"] in measured]
                    if not a.keep_going and (len(suspects) < len(agg["viol"]) or len(suspects) >= 4):
                        stop.set()
            else:
                agg["errors"].append((i, res.get("error")))
                if len(agg["errors"]) > 20:
                    stop.set()

    def drive(k):
        lane = lanes[k]
        todo = [("p", j) for j in range(len(pinned)) if j % nl == k] + [
            ("r", i) for i in range(a.start, a.start + runs) if i % nl == k
        ]
        for what, i in todo:
            if stop.is_set() or time.time() - t0 > cap:
                return
            with sem:
                try:
                    if what == "p":
                        sc = dict(pinned[i])
                        sc.setdefault("_hashseed", 1 + k + a.hash_offset)
                        res = lane.ask({"scenario": sc})
                        absorb(f"pinned{i}", res)
                    else:
                        req = {"seed": a.seed, "i": i, "tier": a.tier, "want_scenario": i < a.start + 3}
                        res = lane.ask(req)
                        if res.get("ok") is None:  # e.g. ended by the memory guard: try again
                            res = lane.ask(req)
                        absorb(i, res)
                except Exception as ex:
                    with lock:
                        agg["errors"].append((i, "lane: " + repr(ex)))
                    return

    ths = [threading.Thread(target=drive, args=(k,)) for k in lanes]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    t_search = time.time() - t0
    log(f"{agg['n']} runs, {len(agg['viol'])} violating, {len(agg['errors'])} harness errors, discards={sum(agg['discards'].values())}")
    rc = 0
    nviol = 0
    replays = []
    unrepro = []
    noise = []
    if agg["viol"]:
        by_kind = {}
        order = sorted(agg["viol"], key=lambda x: (x[1]["kind"] in measured, 0, x[0]) if isinstance(x[0], int) else (x[1]["kind"] in measured, -1, 0))
        for i, res in order:
            by_kind.setdefault(signature(res), []).append((i, res))
        for sig, lst in list(by_kind.items())[: (20 if a.keep_going else 2)]:
            done = False
            for i, res in lst[:3]:
                log(f"run {i}: {res['kind']}: {res['msg'][:700]}")
                if res.get("scenario") is None:
                    # the run was killed before it could report: regenerate its scenario
                    res["scenario"] = regen(mod, a, i, lanes)
                hs = res["scenario"].get("_hashseed", 1)
                lane = None
                for k, l in lanes.items():
                    if 1 + k + a.hash_offset == hs:
                        lane = l
                lane = lane or lanes[0]
                try:
                    budget = 60 if a.tier == "quick" else 240
                    sc, _ = minimise(mod, lane, copy.deepcopy(res), time.time() + budget, log)
                except Exception as ex:
                    log("minimisation failed:", repr(ex))
                    sc = res["scenario"]
                for cand in (sc, res["scenario"]):
                    path = write_replay(prop, cand, res, os.path.join(ROOT, "replays"))
                    rs = replay_in_fresh(prop, path, base, hs, 1 if res["kind"] == "cpu-limit" else 2)
                    if all(r.get("ok") is False and r.get("kind") == res["kind"] for r in rs) and rs[0].get("digest") == rs[-1].get("digest"):
                        res2 = dict(res, msg=rs[0].get("msg") or res["msg"], detail=rs[0].get("detail"))
                        path = write_replay(prop, cand, res2, os.path.join(ROOT, "replays"))
                        log(f"replay confirmed: {res2['msg'][:900]}")
                        replays.append((path, res2))
                        done = True
                        break
                    log("replay did not reproduce:", json.dumps(rs)[:1500])
                if done:
                    break
            if not done and lst[0][1]["kind"] in measured:
                log("not confirmed when measured again, taken as noise of the machine:", sig)
                noise.append(sig)
            elif not done:
                unrepro.append(sig)
    for k, l in lanes.items():
        l.close()
    nviol = len(replays)
    for e in known:
        # every listed finding is re-run from its own replay, and reported as such
        rp = os.path.join(ROOT, e["replay"])
        r = replay_in_fresh(prop, rp, base, 1, 1)[0]
        if r.get("ok") is False:
            print(f"KNOWN-FINDING: property={prop} {e['description']}")
        else:
            log("listed finding no longer reproduces:", e["signature"])
    wall = time.time() - t0
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": agg["n"],
            "distinct_nontrivial": len(agg["distinct"]),
            "rule": mod.RULE,
            "samples": agg["samples"][:2],
            "simulated_runs_per_hour": int(agg["n"] / max(t_search, 1e-6) * 3600),
            "seeds_per_hour": int(agg["n"] / max(t_search, 1e-6) * 3600),
            "simulated_steps": agg["steps"],
            "simulated_time_s": round(agg["simtime"], 3),
            "faults_injected": dict(sorted(agg["faults"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "operations": dict(sorted(agg["counts"].items())),
            "distinct_states": len(agg["states"]),
            "state_measure": getattr(mod, "STATE_MEASURE", ""),
            "discarded": agg["discards"],
            "pinned_scenarios": len(pinned),
            "planned_runs": runs,
            "cpu_s": round(agg["cpu"], 1),
            "real_components": getattr(mod, "REAL", []),
            "stub_components": getattr(mod, "STUBS", []),
            "known_findings_hit": known_hit,
            "violations_not_reproduced": unrepro,
            "clock_suspicions_not_confirmed": noise,
            "harness_errors": len(agg["errors"]),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=False)
    if a.digests:
        json.dump({str(k): v for k, v in agg["digests"].items()}, open(a.digests, "w"))
    for i, e in agg["errors"][:5]:
        log(f"HARNESS ERROR in run {i}: {e}")
    if agg["n"] < runs + len(pinned) and not stop.is_set():
        log(f"stopped at the wall cap of {cap} s: {agg['n']} of {runs + len(pinned)} runs")
    log("faults", json.dumps(ev["coverage"]["faults_injected"]))
    log("probes", json.dumps(ev["coverage"]["probes"]))
    log("operations", json.dumps(ev["coverage"]["operations"]))
    log(f"distinct={len(agg['distinct'])} states={len(agg['states'])} steps={agg['steps']} cpu={agg['cpu']:.0f}s wall={wall:.1f}s")
    if replays:
        for path, res in replays:
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if agg["errors"] or unrepro:
        log("the check gave no answer (harness error or a violation that does not replay)")
        return 3
    log("the property held on everything explored")
    return 0


def regen(mod, a, i, lanes):
    import random

    if isinstance(i, str) and i.startswith("pinned"):
        return dict(mod.PINNED[int(i[6:])])
    rng = random.Random(f"{a.seed}:{mod.NAME}:{i}")
    sc = mod.gen(rng, a.tier)
    sc["_i"] = i
    sc["_seed"] = a.seed
    sc["_hashseed"] = 1 + (i % len(lanes)) + a.hash_offset
    return sc
