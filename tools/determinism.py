#!/usr/bin/env python3
"""determinism.py [IDS...] [--runs N]: the same seed must give the same event digests whatever the
number of workers, the hash seeds of the lanes and the grammar memo."""
import json
import os
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
IDS = [a for a in sys.argv[1:] if a.startswith("C")] or ["C03", "C09", "C11", "C12", "C15", "C17", "C18", "C20"]
N = sys.argv[sys.argv.index("--runs") + 1] if "--runs" in sys.argv else "150"
bad = 0
for p in IDS:
    with tempfile.TemporaryDirectory() as t:
        out = []
        for i, extra in enumerate((["--workers", "8"], ["--workers", "3", "--hash-offset", "17"])):
            f = os.path.join(t, f"d{i}")
            subprocess.run([PY, "check.py", p, "--runs", N, "--no-evidence", "--digests", f] + extra, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), stdout=subprocess.DEVNULL)
            out.append(sorted(json.load(open(f)).items()))
        same = sum(1 for a, b in zip(*out) if a == b)
        print(p, len(out[0]), "runs,", "identical" if out[0] == out[1] else f"DIFFERENT ({same} same)", flush=True)
        if out[0] != out[1]:
            bad = 1
            print([(a, b) for a, b in zip(*out) if a != b][:3])
sys.exit(bad)
