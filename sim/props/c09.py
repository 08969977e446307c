"""C09: version-aware validation follows minVersion / maxVersion.

The simulated system is one process whose Validators answer a history of questions - validate,
schema export, create, the command line - about different versions, while schema files sometimes
cannot be read.  Every verdict is compared with an independent reading of the schema files: the
annotations are applied here, on the raw JSON, and Draft 4 validation is jsonschema's."""
import copy
import glob
import io
import json
import os
import re

from sim import shrinklib as S
from sim.canon import canon, sha, short
from sim.disk import Disk, fault_name, is_hard
from sim.lane import REPO, Violation

NAME = "C09"
LEVEL = "exploration"
TECH = "seeded histories of validate / export / create calls over versions around every bound on reused and fresh Validators, with failing schema reads, against an independently pruned schema"
NEEDS_SHIM = True
RUNS = {"quick": 2400, "thorough": 60000}
RULE = (
    "A run is a history of validate, schema export, create and CLI calls on up to three reused Validators and on fresh "
    "ones; the documents carry one or more (annotated or plain) keywords or value alternatives in a seeded parent "
    "context, the versions lie at, just below and just above the bounds of the annotation, or are absent. Each verdict "
    "is compared with the reference. Non-trivial: at least 3 events; distinct by event digest."
)
STATE_MEASURE = "distinct (parent context, keyword, alternative, side of the bound) combinations judged"
REAL = ["mappyfile.validator", "mappyfile.utils", "mappyfile.cli (in process)", "mappyfile/schemas/*.json", "jsonref, jsonschema, referencing"]
STUBS = ["libc open/read faults on the schema folder through sim/shim.c"]
ASSUMPTIONS = [
    "jsonschema's Draft4Validator is right about unannotated keywords",
    "a version is a number greater than 0 and at most 99",
    "a call during which a schema file could not be read may raise; a verdict it returns must be right",
]

SDIR = os.path.join(REPO, "mappyfile", "schemas")
RAW = {}


def raw(name):
    if name not in RAW:
        if not RAW:
            for f in sorted(glob.glob(os.path.join(SDIR, "*.json"))):
                RAW[os.path.basename(f)] = json.load(open(f, encoding="utf-8"))
    return RAW[name]


# ---- the reference ------------------------------------------------------------------------


def bounds(node):
    """Annotations of a schema node, its own and those of the object it refers to."""
    out = []
    if isinstance(node, dict):
        md = node.get("metadata")
        if isinstance(md, dict) and ("minVersion" in md or "maxVersion" in md):
            out.append((md.get("minVersion"), md.get("maxVersion")))
        if "$ref" in node:
            out += bounds(raw(node["$ref"]))
    return out


def avail(node, v):
    if v is None:
        return True
    for lo, hi in bounds(node):
        if lo is not None and v < lo:
            return False
        if hi is not None and v > hi:
            return False
    return True


FALSE = {"not": {}}


def prune(node, v):
    if isinstance(node, list):
        return [prune(x, v) for x in node]
    if not isinstance(node, dict):
        return node
    if not avail(node, v):
        return FALSE
    if "$ref" in node:
        return prune(raw(node["$ref"]), v)
    out = {}
    for k, x in node.items():
        if k in ("properties", "patternProperties"):
            out[k] = {p: prune(s, v) for p, s in x.items()}
        elif k in ("oneOf", "anyOf"):
            out[k] = [prune(s, v) for s in x if avail(s, v)]
        elif k == "allOf":
            out[k] = [prune(s, v) for s in x]
        elif k in ("items", "additionalProperties", "not") and isinstance(x, (dict, list)):
            out[k] = prune(x, v)
        elif k == "metadata":
            continue
        else:
            out[k] = x
    return out


_VAL = {}


def reference(name, v):
    key = (name, v)
    if key not in _VAL:
        import jsonschema

        _VAL[key] = jsonschema.Draft4Validator(prune(raw(name + ".json"), v))
    return _VAL[key]


def lower(x):
    if isinstance(x, list):
        return [lower(y) for y in x]
    if isinstance(x, dict):
        return {k.lower(): lower(y) for k, y in x.items()}
    return x.lower() if isinstance(x, str) else x


def plain_json(x):
    if isinstance(x, dict):
        return {k: plain_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain_json(v) for v in x]
    return x


def ref_errors(name, v, doc):
    docs = doc if isinstance(doc, list) else [doc]
    out = []
    for d in docs:
        out += list(reference(name, v).iter_errors(lower(plain_json(d))))
    return out


# ---- contexts -----------------------------------------------------------------------------


def objects_of(node):
    """Object schemas a property value can be: [(how, file)]."""
    out = []
    if not isinstance(node, dict):
        return out
    if "$ref" in node:
        r = raw(node["$ref"])
        if r.get("properties") and "__type__" in r["properties"]:
            out.append(("one", node["$ref"]))
        return out
    if isinstance(node.get("items"), dict):
        out += [("list", f) for h, f in objects_of(node["items"]) if h == "one"]
    for k in ("allOf", "oneOf", "anyOf"):
        for s in node.get(k, []):
            out += [x for x in objects_of(s) if x[0] == "one"]
    return out


CTX = []
FLAT = []  # every (context, keyword, alternative) that carries or inherits an annotation
ANNOTATED_ROOTS = []  # object schemas that are annotated as a whole
ROOTS = ["map", "layer", "class", "style", "label", "web", "legend", "scalebar", "symbol", "cluster", "leader", "join", "feature", "symbolset", "composite", "outputformat", "querymap", "reference", "scaletoken", "grid"]


def contexts():
    if CTX:
        return CTX
    raw("map.json")

    def walk(root, path, file, depth):
        CTX.append((root, list(path), file))
        if depth >= 6:
            return
        for p, node in raw(file)["properties"].items():
            for how, f in objects_of(node):
                walk(root, path + [[p, how, f]], f, depth + 1)

    for r in sorted(RAW):
        if bounds(RAW[r]):
            ANNOTATED_ROOTS.append(r[:-5])
    for r in ROOTS:
        if r + ".json" in RAW and "properties" in RAW[r + ".json"]:
            walk(r, [], r + ".json", 0)
    for c in CTX:
        for p, node in raw(c[2])["properties"].items():
            for i, (_, _, b) in enumerate(leaves(node)):
                if b:
                    FLAT.append((c, p, i))
    return CTX


def leaves(node, path=()):
    """Value alternatives of a property: [(path, node, annotated bounds along the way)]."""
    own = bounds(node)
    if "$ref" in node:
        sub = leaves(raw(node["$ref"]), path)
        return [(p, n, own + b) for p, n, b in sub]
    for k in ("oneOf", "anyOf"):
        if k in node:
            out = []
            for i, s in enumerate(node[k]):
                out += [(p, n, own + b) for p, n, b in leaves(s, path + (k, i))]
            return out
    if "allOf" in node and node["allOf"]:
        return [(p, n, own + b) for p, n, b in leaves(node["allOf"][0], path + ("allOf", 0))]
    return [(path, node, own)]


def make_value(rng, node, depth=0):
    if "$ref" in node:
        return make_value(rng, raw(node["$ref"]), depth)
    if "enum" in node:
        v = rng.choice(node["enum"])
        return rng.choice([v, v.upper()]) if isinstance(v, str) else v
    for k in ("oneOf", "anyOf"):
        if k in node:
            return make_value(rng, rng.choice(node[k]), depth)
    if "allOf" in node and node["allOf"]:
        return make_value(rng, node["allOf"][0], depth)
    t = node.get("type")
    if isinstance(t, list):
        t = rng.choice(t)
    if t == "string":
        pat = node.get("pattern", "")
        if "\\[" in pat:
            return rng.choice(["[attr]", "[a_1]"])
        if "\\(" in pat:
            return rng.choice(["([a] = 1)", "(1 < 2)"])
        if "\\{" in pat:
            return "{a,b}"
        if pat:
            for c in ("#aabbcc", "/x/", "x", "(a)", "[b]", "1", "simplify_10", "'x'i"):
                if re.search(pat, c):
                    return c
        return rng.choice(["text", "Some Name", "x/y.z"])
    if t in ("integer", "number"):
        lo, hi = node.get("minimum"), node.get("maximum")
        if lo is None:
            lo = 1 if hi is None or hi >= 1 else hi - 3
        if node.get("exclusiveMinimum") and lo == 0:
            lo = 1
        hi = lo + 20 if hi is None else hi
        v = rng.randint(int(lo), max(int(lo), int(hi)))
        return v if t == "integer" or rng.random() < 0.6 else min(v + 0.5, hi)
    if t == "boolean":
        return rng.random() < 0.5
    if t == "array":
        n = node.get("minItems", rng.choice([1, 2]))
        if node.get("maxItems"):
            n = min(max(n, 1), node["maxItems"])
        it = node.get("items", {"type": "string"})
        if isinstance(it, list):
            return [make_value(rng, x, depth + 1) for x in it]
        return [make_value(rng, it, depth + 1) for _ in range(max(n, 0))]
    if t == "object" or "properties" in node:
        if "__type__" in node.get("properties", {}):
            return minimal(rng, node)
        return {"k": "v"} if depth < 3 else {}
    return rng.choice(["x", 1])


def minimal(rng, node):
    d = {}
    if "__type__" in node["properties"]:
        e = node["properties"]["__type__"].get("enum")
        if e:
            d["__type__"] = e[0]
    for r in node.get("required", []):
        if r not in d:
            d[r] = make_value(rng, node["properties"][r])
    return d


def gen_doc(rng, want=None):
    """-> {"root", "doc", "focus": [[ctx, prop, alt path, bounds]], ...}"""
    cs = contexts()
    if ANNOTATED_ROOTS and rng.random() < 0.03:
        r = rng.choice(ANNOTATED_ROOTS)
        return {"root": r, "doc": {"__type__": r, "k": "v"}, "focus": [[r, "", "", [list(b) for b in bounds(raw(r + ".json"))]]]}
    flat = rng.choice(FLAT) if FLAT and want != "plain" and rng.random() < 0.7 else None
    for _ in range(60):
        if flat:
            (root, path, file), pool = flat[0], [flat[1]]
            props = raw(file)["properties"]
            break
        root, path, file = rng.choice(cs) if rng.random() < 0.75 else rng.choice([c for c in cs if c[0] == "map"])
        props = raw(file)["properties"]
        names = [p for p in props if not p.startswith("__") and p != "include"]
        ann = [p for p in names if any(b for _, _, b in leaves(props[p]))]
        if want != "plain" and not ann and rng.random() < 0.8:
            continue
        pool = ann if ann and want != "plain" and rng.random() < 0.85 else [p for p in names if p not in ann]
        if pool:
            break
    doc = minimal(rng, raw(root + ".json"))
    cur = doc
    for p, how, f in path:
        child = minimal(rng, raw(f))
        if how == "list":
            sib = [minimal(rng, raw(f))] if rng.random() < 0.15 else []
            cur[p] = sib + [child]
        else:
            cur[p] = child
        cur = child
    focus = []
    for _ in range(rng.choice([1, 1, 2]) if flat else rng.choice([1, 1, 1, 2, 3])):
        if not pool:
            break
        p = rng.choice(pool) if not focus or not flat else rng.choice([x for x in props if not x.startswith("__") and x != "include"])
        if p in cur and focus:
            continue
        alts = leaves(props[p])
        marked = [a for a in alts if a[2]]
        ap, node, bs = alts[flat[2]] if flat and not focus else rng.choice(marked if marked and rng.random() < 0.8 else alts)
        cur[p] = make_value(rng, node)
        if rng.random() < 0.08:
            cur[p] = rng.choice(["bad value", -99999, {"x": 1}, [1, "two", 3, 4, 5], True])
        focus.append([root + "".join(f".{x[0]}" for x in path), p, "/".join(map(str, ap)), [list(b) for b in bs]])
    # somewhere else, something unrelated
    if rng.random() < 0.25 and root == "map":
        k = rng.choice(["name", "size", "nosuchkey", "angle", "web"])
        doc[k] = {"name": "Other", "size": [10, 10], "nosuchkey": 1, "angle": 5, "web": {"__type__": "web", "metadata": {"a": "b"}}}[k] if k not in doc else doc[k]
    return {"root": root, "doc": doc, "focus": focus}


def pick_version(rng, d):
    bs = [x for f in d["focus"] for b in f[3] for x in b if x is not None]
    r = rng.random()
    if r < 0.14:
        return None
    if bs and r < 0.9:
        b = rng.choice(bs)
        return round(b + rng.choice([0, 0, 0.2, -0.2, 0.1, -0.1, 0.001, -0.001, 1, -1]), 3)
    return rng.choice([4, 4.8, 5.0, 5.4, 5.6, 6.0, 6.2, 6.4, 7.0, 7.2, 7.6, 8.0, 8.2, 8.4, 7, 8, 99.0, 0.5])


def gen(rng, tier):
    ndocs = rng.choice([1, 1, 2, 3])
    docs = [gen_doc(rng, "plain" if rng.random() < 0.12 else None) for _ in range(ndocs)]
    ops = []
    slots = rng.choice([1, 1, 2, 3])
    for _ in range(rng.choice([3, 4, 6, 10])):
        j = rng.randrange(ndocs)
        k = rng.choices(["validate", "module", "export", "create", "list", "clischema", "clivalidate"], [60, 8, 14, 4, 5, 3, 3])[0]
        op = {"k": k, "doc": j, "v": pick_version(rng, docs[j])}
        if k == "create":
            op["type"] = rng.choice(["map", "layer", "class", "style", "label", "scalebar", "legend", "web", "symbol", "querymap"])
        if k in ("validate", "list", "export"):
            op["slot"] = rng.choice([None] + list(range(slots)) * 2)
            op["schema"] = docs[j]["root"]
            if rng.random() < 0.1:
                op["schema"] = rng.choice(["map", "layer", "style"])
            op["cls"] = rng.choice(["dict", "ci", "od"])
            op["ac"] = rng.random() < 0.15
        if k == "list":
            op["docs"] = [rng.randrange(ndocs) for _ in range(rng.choice([0, 1, 2, 3]))]
        if rng.random() < 0.09:
            op["fault"] = {"op": rng.choice(["open", "read"]), "nth": rng.choice([1, 1, 2, 3, 5, 8, 13]), "act": "errno", "arg": rng.choice(["EIO", "EACCES", "EMFILE"]), "sticky": rng.random() < 0.3, "sub": "schemas/"}
            if op["fault"]["op"] == "read":
                op["fault"]["sticky"] = False  # an interrupted read that is never resumed is no disk
                op["fault"]["arg"] = rng.choice(["EIO", "EINTR"])
            if rng.random() < 0.5:
                op["v"] = None
        ops.append(op)
        if "fault" in op and rng.random() < 0.7:
            # the same question again, and another one, once the disk is well
            again = {k: v for k, v in op.items() if k != "fault"}
            ops.append(again)
            ops.append(dict(again, v=pick_version(rng, docs[j]) if again["v"] is None else None))
    return {"docs": docs, "ops": ops}


# ---- running ------------------------------------------------------------------------------


class LaneState:
    pass


def lane_setup(base):
    from sim.oracle import Oracle

    contexts()
    st = LaneState()
    st.oracle = Oracle("sim.props.c09", base)
    return st


def after_run(st, res):
    if res.get("ok") is not True:
        st.oracle.restart()


def lane_close(st):
    st.oracle.close()


def deproxy(x):
    """The plain JSON of an expanded schema."""
    if type(x).__name__ == "JsonRef":
        x = x.__subject__
    if isinstance(x, dict):
        return {k: deproxy(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [deproxy(v) for v in x]
    return x


def oracle(q, scratch):
    from mappyfile.validator import Validator

    try:
        if "export" in q:
            return {"sha": sha(json.dumps(deproxy(Validator().get_versioned_schema(*q["export"])), sort_keys=True))}
        return {"messages": [e["message"] for e in Validator().validate(q["doc"], schema_name=q["schema"])]}
    except Exception as e:
        return {"exc": type(e).__name__}


def build(x, cls):
    if isinstance(x, dict):
        import collections

        from mappyfile.ordereddict import CaseInsensitiveOrderedDict as CI

        out = {} if cls == "dict" else collections.OrderedDict() if cls == "od" else CI(CI)
        for k, v in x.items():
            out[k] = build(v, cls)
        return out
    if isinstance(x, list):
        return [build(v, cls) for v in x]
    return x


def judge(ctx, what, doc, schema, v, errors, plain):
    """Compare a returned list of errors with the reference verdict."""
    exp = ref_errors(schema, v, doc)
    if bool(exp) != bool(errors):
        if exp:
            raise Violation("accepted", f"{what}: accepted, but the schema annotations reject it ({exp[0].message[:200]})", signature="accepted")
        raise Violation("rejected", f"{what}: rejected ({short(errors, 300)}), but the schema annotations accept it", signature="rejected")
    ctx.log("verdict", schema, v, bool(exp), len(errors))
    return exp


def keyword(path):
    """The keyword an error is about: the last name on its path."""
    for p in reversed(list(path)):
        if isinstance(p, str):
            return p
    return ""


def judge_names(ctx, what, focus, exp, res):
    """One problem must not hide another: each keyword in question is judged on its own."""
    if len(exp) < 2 and len(res) < 2:
        return
    unexpected = re.compile(r"^(?:Additional properties are not allowed \()?('.*') (?:was unexpected|were unexpected|does not match any of the regexes|do not match any of the regexes)", re.S)
    blamed = set()
    for e in res:
        m = unexpected.search(e["error"])
        blamed.update(re.findall(r"'([^']*)'", m.group(1)) if m else [e["message"].rsplit(" ", 1)[-1].lower()])
    wrong, loose = set(), set()
    for e in exp:
        # what is missing from an object or has no place in it is reported on the object
        (loose if e.validator in ("additionalProperties", "required") else wrong).add(keyword(e.absolute_path))
        loose.update(re.findall(r"'([^']*)'", e.message))
    for f in focus:
        p = f[1]
        if p in wrong and p not in blamed:
            raise Violation("hidden", f"{what}: {p} is not available, which none of the messages says: {short([e['message'] + ' ' + e['error'][:80] for e in res], 500)}", signature="hidden")
        if p in blamed and p not in wrong and p not in loose:
            raise Violation("blamed", f"{what}: {p} is available, but a message says it is not: {short([e['message'] + ' ' + e['error'][:80] for e in res], 500)}", signature="blamed")
        ctx.probe("keyword judged among other problems")


def describe(sc, op, doc):
    f = doc["focus"]
    return f"{op['k']} version={op['v']} schema={op.get('schema', 'map')} {json.dumps([x[:3] for x in f])} document {short(doc['doc'], 400)}"


def side(v, bs):
    if v is None:
        return "none"
    out = []
    for lo, hi in bs:
        for b in (lo, hi):
            if b is not None:
                out.append("<" if v < b else "=" if v == b else ">")
    return "".join(out) or "-"


def run(sc, ctx):
    from mappyfile.validator import Validator
    import mappyfile

    os.chdir(ctx.scratch)
    disk = Disk([SDIR])
    vs = {}
    exports = []
    for n, op in enumerate(sc["ops"]):
        d = sc["docs"][op["doc"]]
        v, k = op["v"], op["k"]
        schema = op.get("schema", "map")
        fault = op.get("fault")
        val = Validator() if op.get("slot") is None else vs.setdefault(op["slot"], Validator())
        arg = build(d["doc"], op.get("cls", "dict"))
        if k == "list":
            arg = [build(sc["docs"][i]["doc"], op["cls"]) for i in op["docs"]]
        if fault:
            disk.arm([fault])
        res = exc = None
        out = os.path.join(ctx.scratch, "schema.json")
        try:
            if k in ("validate", "list"):
                res = val.validate(arg, add_comments=op["ac"], schema_name=schema, version=v)
            elif k == "module":
                res = mappyfile.validate(arg, version=v)
            elif k == "export":
                held = val.get_versioned_schema(v, schema)
                res = deproxy(held)
            elif k == "create":
                res = mappyfile.create(op["type"], version=v)
            elif k in ("clischema", "clivalidate"):
                res = cli(k, op, d, out)
        except Exception as e:
            exc = e
        fired = sum(n_ for r, n_ in disk.fired()) if fault else 0
        if fault:
            disk.disarm()
            if fired:
                ctx.fault(fault_name(fault), fired)
        ctx.count(k)
        hard = fired and is_hard(fault)
        if exc is not None:
            ctx.log(n, k, "raised", type(exc).__name__)
            if not hard:
                raise Violation("exception", f"{describe(sc, op, d)} raised {type(exc).__name__}: {str(exc)[:300]}")
            ctx.probe("call failed under a fault")
            continue
        what = f"call {n}: {describe(sc, op, d)}"
        for f in d["focus"]:
            ctx.state(f"{f[0]} {f[1]} {f[2]} {side(v, f[3])}")
        if k in ("validate", "module"):
            s = schema if k == "validate" else "map"
            exp = judge(ctx, what, d["doc"], s, v, res, not any(f[3] for f in d["focus"]))
            if s == d["root"]:
                judge_names(ctx, what, d["focus"], exp, res)
            if v is not None and not has_annotated(s, d["doc"]) and not hard:
                # nothing annotated: judged as without a version
                o = ctx.lane_state.oracle.ask({"doc": d["doc"], "schema": s})
                got = sorted(e["message"] for e in res)
                if "messages" in o and sorted(o["messages"]) != got:
                    raise Violation("plain-judged-differently", f"{what}: {got}, but without a version {o['messages']}")
                ctx.probe("unannotated document compared with the versionless answer")
        elif k == "list":
            judge(ctx, what, [sc["docs"][i]["doc"] for i in op["docs"]], schema, v, res, False)
        elif k == "export":
            check_export(sc, ctx, what, res, schema, v, hard)
            exports.append((n, op, schema, v, val, held, sha(json.dumps(res, sort_keys=True))))
        elif k == "create":
            for key in res:
                if key.startswith("__"):
                    continue
                node = raw(op["type"] + ".json")["properties"].get(key)
                if node is not None and not avail(node, v):
                    raise Violation("created", f"{what}: create({op['type']!r}, version={v}) contains {key}, which that version does not have")
            ctx.log(n, k, sorted(res))
        elif k == "clischema":
            if hard and res[0] != 0:
                ctx.probe("call failed under a fault")
                continue
            if res[0] != 0:
                raise Violation("exception", f"{what}: mappyfile schema failed: {res[1][:300]}")
            check_export(sc, ctx, what, res[2], "map", v, hard)
        elif k == "clivalidate" and res is not None:
            if res[0] == "skip":
                ctx.probe("document has no text")
                continue
            code, outtxt, parsed = res
            exp = ref_errors("map", v if v is not None else 8.2, parsed)
            if not (hard and code != 0) and bool(exp) != bool(code):
                raise Violation("accepted" if exp else "rejected", f"{what}: mappyfile validate exits {code}: {short(outtxt, 300)}; expected {[e.message[:100] for e in exp[:2]]}")
            ctx.log(n, k, code)
    # what a Validator exports is not changed by what came later
    for n, op, schema, v, val, held, first in exports:
        if sha(json.dumps(deproxy(held), sort_keys=True)) != first:
            raise Violation("export-depends-on-history", f"the schema {schema} handed out for version {v} was changed by a later call")
        o = ctx.lane_state.oracle.ask({"export": [v, schema]})
        now = sha(json.dumps(deproxy(val.get_versioned_schema(v, schema)), sort_keys=True))
        if "sha" in o and o["sha"] != now:
            raise Violation("export-depends-on-history", f"the schema {schema} exported for version {v} differs from a first export")
    ctx.steps = len(sc["ops"])
    disk.close()


def has_annotated(schema, doc):
    """Does the reading of `doc` by `schema` meet an annotation at all?"""

    def walk(node, x):
        if bounds(node):
            return True
        if "$ref" in node:
            return walk(raw(node["$ref"]), x)
        for k in ("oneOf", "anyOf", "allOf"):
            for s in node.get(k, []):
                if walk(s, x):
                    return True
        if isinstance(x, list) and isinstance(node.get("items"), dict):
            return any(walk(node["items"], y) for y in x) or bool(bounds(node["items"]))
        if isinstance(x, dict) and "properties" in node:
            return any(walk(node["properties"][k.lower()], y) for k, y in x.items() if k.lower() in node["properties"])
        return False

    return walk(raw(schema + ".json"), doc)


def check_export(sc, ctx, what, exported, schema, v, hard):
    import jsonschema

    val = jsonschema.Draft4Validator(exported)
    for d in sc["docs"]:
        if d["root"] != schema:
            continue
        got = bool(list(val.iter_errors(lower(d["doc"]))))
        exp = bool(ref_errors(schema, v, d["doc"]))
        if got != exp:
            raise Violation("export-verdict", f"{what}: the exported schema {'rejects' if got else 'accepts'} {short(d['doc'], 300)}")
    o = ctx.lane_state.oracle.ask({"export": [v, schema]})
    s = sha(json.dumps(exported, sort_keys=True))
    if "sha" in o and o["sha"] != s:
        raise Violation("export-depends-on-history", f"{what}: the exported schema differs from a first export in a new process")
    ctx.log("export", schema, v, s)


def cli(k, op, d, out):
    from click.testing import CliRunner
    from mappyfile.cli import main
    import mappyfile

    if k == "clischema":
        args = ["schema", out] + ([] if op["v"] is None else [f"--version={op['v']}"])
        r = CliRunner().invoke(main, args)
        if r.exit_code != 0:
            return (r.exit_code or 1, str(r.exception) + r.output, None)
        return (0, r.output, json.load(open(out, encoding="utf-8")))
    fn = out + ".map"
    try:
        text = mappyfile.dumps(build(d["doc"], "ci"))
        parsed = mappyfile.loads(text)
    except Exception:
        return ("skip",)
    if parsed is None or (isinstance(parsed, list) and not parsed):
        return ("skip",)
    with open(fn, "w", encoding="utf-8") as f:
        f.write(text)
    args = ["validate", fn] + ([] if op["v"] is None else [f"--version={op['v']}"])
    r = CliRunner().invoke(main, args)
    return (r.exit_code, r.output + (str(r.exception) if r.exception else ""), plain_json(parsed))


# ---- minimisation -------------------------------------------------------------------------


def shrink(sc, test):
    sc = S.ddmin_list(sc, ["ops"], test, 1)
    for i in range(len(sc["ops"])):
        for drop in ("fault",):
            if drop in sc["ops"][i]:
                c = copy.deepcopy(sc)
                del c["ops"][i][drop]
                if test(c):
                    sc = c
        if sc["ops"][i].get("slot") is not None:
            c = copy.deepcopy(sc)
            c["ops"][i]["slot"] = None
            if test(c):
                sc = c

    def paths(x, p):
        if isinstance(x, dict):
            for k in list(x):
                yield p + [k]
                yield from paths(x[k], p + [k])
        elif isinstance(x, list):
            for i, y in enumerate(x):
                yield from paths(y, p + [i])

    for j in range(len(sc["docs"])):
        for p in list(paths(sc["docs"][j]["doc"], [])):
            c = copy.deepcopy(sc)
            try:
                parent = S.get(c["docs"][j]["doc"], p[:-1])
                if p[-1] == "__type__" or p[-1] not in parent:
                    continue
                del parent[p[-1]]
            except (KeyError, IndexError, TypeError):
                continue
            if test(c):
                sc = c
    return sc
