"""Writes MANIFEST.json (kept in git; run after changing the set of checks)."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ORDER = ["C03", "C09", "C11", "C12", "C15", "C17", "C18", "C20"]
NOTE = {
    "C03": "Seeded search over edit histories and output paths, each printed text read back by an independent reader and compared with what the dictionary holds at that moment; values without representation have to be refused. One known finding (a trailing backslash). Evidence, not proof: trusts the reader and the vocabulary snapshot in /verif.",
    "C09": "Seeded search over call histories (versions at/around every annotated bound, shared and fresh Validators, failing schema reads and retries); each answer compared with an independently pruned schema. Trusts jsonschema's Draft4 validator.",
    "C11": "Seeded search over faults on the stored text (torn, truncated, lost, duplicated, reordered, flipped) and token-level corruption; plus long repetitive inputs; exception family, position of the error, growth of work (counted events and CPU) and bounded termination are checked. Cannot rule out an unexplored input; one known finding (comment-scan).",
    "C12": "Seeded search over thread interleavings (LINE and INSTRUCTION preemption in mappyfile code), call histories on reused worker objects, cancellation and I/O faults; every result compared with the same call alone in a pristine interpreter. Preemption inside C extensions and third-party code is not explored.",
    "C15": "Seeded search over include trees, working directories and load paths on a faulty simulated disk; each load compared with loading the flattened text, I/O errors must surface. Trusts the flattening model.",
    "C17": "Seeded search over operation histories on several handles against a reference ordered dict, with failing factories, iterables, copies and pickles.",
    "C18": "Seeded search over call histories against an executable form of the laws; every object re-checked after every call.",
    "C20": "Seeded search over documents, front ends and CLI invocations on a faulty simulated disk, including crashes at a chosen write, judged by real exit statuses and file contents. Two known findings.",
}
NA = {
    "C01": "Parse, print, parse again of one text: a pure function of that text. No schedule, clock, fault or earlier call takes part, so a simulator would own nothing; a seeded loop over inputs would be property-based testing under another name. (The history and fault side of printing is C03, of parsing C11 and C12.)",
    "C02": "The text-to-dict contract of a single parse: a pure function of the text and the grammar. No event to schedule, nothing to inject. (What faulty storage or other calls do to a parse is C11, C12, C15.)",
    "C04": "Idempotence of formatting is a law about one text and one option set. Its only nondeterminism claim, same dictionary and options give the same text, is decided under C12 (histories, threads, hash seeds); the normal form itself has nothing to schedule or to fail.",
    "C05": "Equivalence of surface spellings of one text: a pure function of the text. Nothing concurrent, timed or failing.",
    "C06": "Formatting options against content: a pure function of dictionary and options. Nothing concurrent, timed or failing. (C03 draws its options from the same product and reads every text back.)",
    "C07": "The validation verdict of one dictionary against the fixed schema: a pure function. The stateful side of validation (versions, caches, failing schema reads, retries) is C09.",
    "C08": "Recorded line and column numbers of one text: a pure function of the text. (C11 checks the positions that parse errors carry.)",
    "C10": "Rewriting of one expression string: a pure function of the string. Nothing concurrent, timed or failing.",
    "C13": "Bookkeeping flags against content of one text: a pure function of text and flags. (Their effect across reused worker objects and threads is C12.)",
    "C14": "Where the comments of one text are written: a pure function of the text. (Comment leakage between calls is C12.)",
    "C16": "Layout of the printed text: a pure function of dictionary and options. Nothing concurrent, timed or failing.",
    "C19": "Agreement of grammar, keyword tables and schemas is a statement about a finite set of shipped files, settled by enumeration; there is no execution whose nondeterminism could be simulated.",
}


def main():
    checks = []
    for p in ORDER:
        f = os.path.join("sim", "props", p.lower() + ".py")
        if not os.path.exists(f):
            NA.setdefault(p, "Check not built yet.")
            continue
        mod = importlib.import_module("sim.props." + p.lower())
        checks.append(
            {
                "property": p,
                "quick_cmd": f"/opt/venv/bin/python check.py {p}",
                "thorough_cmd": f"/opt/venv/bin/python check.py {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": "deterministic simulation with fault injection: " + getattr(mod, "TECH", "seeded operation histories with injected failures against a reference model"),
                "level": mod.LEVEL,
                "level_note": NOTE[p],
            }
        )
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python setup_shim.py",
        "hooks": {
            "guard": "none",
            "enable": "No hooks in /repo: every seam (imports, sys.monitoring, LD_PRELOAD shim, patched time/threading) is outside it.",
            "source_commits": [],
        },
        "checks": checks,
        "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
        "notes": "See DESIGN.md. Every check: /opt/venv/bin/python check.py <ID> [--replay FILE]; VERIF_SEED and VERIF_TIER select the batch.",
    }
    json.dump(m, open("MANIFEST.json", "w"), indent=1)


main()
