"""One-off: the (object type x keyword x value shape) vocabulary, snapshotted from the schemas of
the pinned commit into sim/vocab.json.  Checks read the snapshot only, never the schemas of the
tree under test, so an edit to a schema cannot move the oracle."""
import glob
import json
import os

R = "/repo/mappyfile/schemas/"
S = {os.path.basename(f)[:-5]: json.load(open(f)) for f in glob.glob(R + "*.json")}
EXPR = {"expression", "filter", "text"}


def shapes(p, typ, key):
    if "$ref" in p:
        n = p["$ref"][:-5]
        if n == "color":
            return [["color"], ["hex"]]
        if n == "expression":
            return [["str"], ["expr"], ["re"]] + ([["rei"], ["list"]] if key == "expression" else [["rei"]] if key == "filter" else [])
        if n == "points":
            return [["points"]]
        if n == "projection":
            return [["proj"]]
        if n in ("metadata", "validation", "connectionoptions"):
            return [["kv"]]
        if S[n].get("type") == "object" and "__type__" in S[n].get("properties", {}):
            return [["blk", n]]
        return shapes(S[n], typ, key)
    for k in ("oneOf", "anyOf", "allOf"):
        if k in p:
            out = []
            for q in p[k]:
                for s in shapes(q, typ, key):
                    if s not in out:
                        out.append(s)
            return out
    if "enum" in p:
        e = p["enum"]
        if all(isinstance(x, str) for x in e):
            return [["enum", e]]
        return [["enum", [x for x in e if isinstance(x, str)]], ["inum", [x for x in e if not isinstance(x, str)]]]
    t = p.get("type")
    if t == "array":
        it = p.get("items")
        lo, hi = p.get("minItems"), p.get("maxItems")
        if isinstance(it, dict) and "$ref" in it:
            n = it["$ref"][:-5]
            if n == "points":
                return [["mpoints"]]
            return [["blks", n]]
        if key in ("include", "processing", "formatoption", "compfilter"):
            return [["rep"]]
        if isinstance(it, list):
            if any(x.get("description") == "attribute" for x in it):
                return [["mixed", 2]]
            return [["nums", 2, 0, 1]]
        if key in ("offset", "polaroffset") and "oneOf" in it:
            return [["nums", 2], ["mixed", 2]]
        if it.get("type") == "string" and it.get("pattern", "").startswith("^\\["):
            return [["binds", 2]]
        if it.get("type") == "string":
            return [["hexpair"]]
        n = hi or lo or 2
        return [["ints" if it.get("type") == "integer" else "nums", n]]
    if t == "string":
        pat = p.get("pattern", "")
        if pat.startswith("^\\["):
            return [["bind"]]
        if pat.startswith("^\\("):
            return [["expr"]]
        if pat.startswith("^/"):
            return [["re"]]
        if pat == "^rectangle$":
            return [["strenum", ["rectangle"]]]
        if pat == "^ellipse$":
            return [["strenum", ["ellipse"]]]
        if pat.startswith("^&#"):
            return [["strenum", ["&#10140;"]]]
        return [["str"]]
    if t == "number":
        return [["num", p.get("minimum"), p.get("maximum")]]
    if t == "integer":
        return [["int", p.get("minimum"), p.get("maximum")]]
    if t == "boolean":
        return [["bool"]]
    if t == "object":
        return [["cfg"]] if key == "config" else [["kv"]]
    raise SystemExit((typ, key, p))


V = {}
for n, s in S.items():
    if "__type__" in s.get("properties", {}) and n not in ("metadata", "validation", "connectionoptions", "symbolset"):
        V[n] = {k: shapes(p, n, k) for k, p in s["properties"].items() if not k.startswith("__")}
json.dump(V, open("sim/vocab.json", "w"), indent=0, sort_keys=True)
for t in V:
    print(t, {k: v for k, v in V[t].items() if v != [["str"]]})
