"""A pristine interpreter that answers "what does this one call give on its own?".

Started once per lane with its own hash seed; imports mappyfile, never calls it, and forks for
every question, so that no answer can depend on another one.  Answers are remembered by the text
of the question."""
import json
import os
import signal
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


class Oracle:
    """Client side; survives forks of the lane (one child at a time talks to it)."""

    def __init__(self, module, base, hashseed=1001):
        self.module, self.base, self.hashseed = module, base, hashseed
        self.p = None
        self.start()

    def start(self):
        env = dict(os.environ)
        env.pop("LD_PRELOAD", None)
        env["PYTHONHASHSEED"] = str(self.hashseed)
        d = os.path.join(self.base, "oracle")
        os.makedirs(d, exist_ok=True)
        self.p = subprocess.Popen(
            [sys.executable, "-m", "sim.oracle", self.module, d],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.path.join(d, "stderr"), "ab"),
            env=env, cwd=d, text=True, bufsize=1,
        )

    def ask(self, op):
        self.p.stdin.write(json.dumps(op) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("oracle died")
        r = json.loads(line)
        if "error" in r:
            raise RuntimeError("oracle: " + r["error"])
        return r["r"]

    def restart(self):
        self.close()
        self.start()

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.p = None


def serve():
    module, base = sys.argv[1], sys.argv[2]
    sys.path.insert(0, ROOT)
    import importlib

    from sim import lane

    out = os.fdopen(os.dup(1), "w", buffering=1)
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    mod = importlib.import_module(module)
    lane.setup_imports(module.rsplit(".", 1)[1])
    if not os.environ.get("SIM_NO_MEMO") and getattr(mod, "USE_MEMO", True):
        lane.prewarm()
    import gc

    gc.collect()
    gc.freeze()
    gc.disable()
    memo = {}
    scratch = os.path.join(base, "run")
    for line in sys.stdin:
        line = line.strip()
        if line in memo:
            out.write(memo[line] + "\n")
            continue
        os.makedirs(scratch, exist_ok=True)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(200)
                os.close(r)
                try:
                    res = {"r": mod.oracle(json.loads(line), scratch)}
                except BaseException as e:
                    import traceback

                    res = {"error": repr(e) + traceback.format_exc()[-1500:]}
                with os.fdopen(w, "wb") as f:
                    f.write(json.dumps(res).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        lane.clean_dir(scratch)
        ans = data.decode() or json.dumps({"error": "no answer"})
        if "error" not in ans[:9]:
            if len(memo) > 6000:
                memo.clear()
            memo[line] = ans
        out.write(ans + "\n")


if __name__ == "__main__":
    serve()
