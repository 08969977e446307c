"""Make and confirm one planted bug (never committed in /repo).

plant.py SPECFILE [--check]: SPECFILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...],
DEMO (Python source run by demo.sh with cwd /repo).  Writes /verif/seeded/<ID>/, applies the patch to
/repo, runs the stable tests and the demo, undoes it, runs the demo again; with --check also runs the
property's check on the patched tree.
"""
import json
import os
import runpy
import subprocess
import sys
import tempfile

REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable_ok():
    with tempfile.TemporaryDirectory() as t:
        sh(f"bash /opt/vp/build.sh")
        sh(f"bash /opt/vp/test.sh {t}/o.json")
        got = json.load(open(f"{t}/o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base.get("passed") or base.get("stable") or [])
    have = set(got.get("passed") or [])
    return sorted(want - have)


def main():
    sp = runpy.run_path(sys.argv[1])
    d = f"/verif/seeded/{sp['ID']}"
    assert not sh("git status --short", cwd=REPO).stdout.strip(), "repo dirty"
    try:
        for f, old, new in sp["EDITS"]:
            p = os.path.join(REPO, f)
            s = open(p, encoding="utf-8", newline="").read()
            if s.count(old) != 1:
                print("EDIT does not match once:", f, repr(old), s.count(old))
                return 2
            open(p, "w", encoding="utf-8", newline="").write(s.replace(old, new))
        diff = sh("git diff", cwd=REPO).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(sp["DEMO"])
        open(d + "/demo.sh", "w").write(
            '#!/bin/sh\nunset MAPPYFILE_USE_CYTHON\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
        )
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": sp["PROPERTY"], "needs": sp["NEEDS"], "what_it_breaks": sp["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        miss = stable_ok()
        r = sh(f"sh {d}/demo.sh", cwd=REPO)
        print(sp["ID"], "tests missing:", miss[:6], len(miss), "| demo patched rc", r.returncode, r.stdout.strip()[-300:])
        bad = bool(miss) or r.returncode == 0
        if "--check" in sys.argv:
            c = sh(f"VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python check.py {sp['PROPERTY']} --no-evidence", cwd="/verif")
            print("CHECK rc", c.returncode, c.stdout.strip()[-700:])
    finally:
        sh("git checkout -- .", cwd=REPO)
    r = sh(f"sh {d}/demo.sh", cwd=REPO)
    print("demo clean rc", r.returncode, r.stdout.strip()[-300:])
    bad = bad or r.returncode != 0
    print("OK" if not bad else "NOT KEPT")
    return 1 if bad else 0


sys.exit(main())
