"""Seeded Mapfile documents over the schema vocabulary: an AST, its text, nothing of mappyfile.

A block is {"t": type, "i": [item...]}; items:
  ["a", key, shape, value]       keyword + value (value as the Mapfile dict stores it)
  ["b", block]                   child object
  ["kv", name, [[k, v]...]]      METADATA / VALIDATION / VALUES / CONNECTIONOPTIONS
  ["pts", name, [[x, y]...]]     POINTS / PATTERN
  ["proj", "AUTO" | [str...]]
  ["cfg", key, value]            CONFIG
  ["r", key, value]              repeatable keyword (PROCESSING, FORMATOPTION, COMPFILTER, INCLUDE)
"""
import json
import os

V = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "vocab.json")))
# alternatives that mean nothing to MapServer (or that no Mapfile text can express)
DROP = {
    ("label", "backgroundshadowsize"): None,
    ("class", "symbol"): ["blk"],
    ("style", "symbol"): ["blk"],
    ("style", "size"): ["str", "re"],
    ("label", "size"): ["str", "re"],
    ("label", "priority"): ["str", "re"],
    ("cluster", "group"): ["re"],
    ("label", "text"): ["re"],
    ("class", "text"): ["re"],
    ("layer", "filter"): [],
}
for (t, k), ss in DROP.items():
    if ss is None:
        V[t].pop(k, None)
    else:
        V[t][k] = [s for s in V[t][k] if s[0] not in ss]

SINGLE = {"cluster", "grid", "leader", "legend", "querymap", "reference", "scalebar", "web"}
ROOTS = ["map", "layer", "class", "style", "label", "web", "legend", "scalebar", "querymap", "reference", "outputformat",
         "symbol", "feature", "cluster", "composite", "join", "leader", "scaletoken", "grid"]
REP = {"include", "processing", "formatoption", "compfilter"}

ASCII = ["roads", "Layer1", "a", "Some Title", "x y z", "epsg:4326", "data/roads.shp", "the_geom from t", "end", "MAP",
         "include", "true", "on", "12", "1.5", "half'quoted" , "%var%", "(a)", "[b]", "/c/", "{d,e}", "a#b", "http://h/x?y=1&z=2", "", " ",
         "tab\tin", "C:\\dir\\f", "semi;colon", "auto", "null"]
UNI = ["é", "naïve café", "日本語", "Ω≈ç√", "🗺️", "𝔘𝔫𝔦", "a\u0301", "\u200f rtl", "nbsp\u00a0x", "ﬀ"]
CTRL = ["line1\nline2", "a\x0bb", "a\x0cb", "a\x85b", "a\u2028b", "a\u2029b", "a\x1cb", "cr\rlf", "crlf\r\nx"]


def free_string(rng, opts):
    r = rng.random()
    pool = ASCII
    if opts.get("unicode") and r < 0.35:
        pool = UNI
    if opts.get("ctrl") and r > 0.85:
        pool = CTRL
    s = rng.choice(pool)
    if rng.random() < 0.15 and opts.get("unicode"):
        s += chr(rng.choice([0xE9, 0x3A9, 0x1F600, 0x10FFFD, 0xFFFD, 0x2603, 0x7F, 0x100, 0xFEFF]))
    ban = opts.get("ban_quote", "")
    for q in ban:
        s = s.replace(q, "")
    for w in opts.get("ban_words", ()):
        if w in s.lower():
            s = "plain"
    if s and rng.random() < 0.06:
        # blanks at the ends belong to the value
        s = rng.choice([" " + s, s + " ", "  " + s + "  ", s + "\t"])
    return s


def num(rng, lo=None, hi=None, integer=False):
    wide = lo is None and hi is None
    lo = -50 if lo is None else lo
    hi = lo + 5000 if hi is None else hi
    if integer or rng.random() < 0.5:
        return rng.randint(int(lo), int(hi))
    r = rng.random()
    if r < 0.1:
        return rng.uniform(lo, hi)  # all 17 digits
    if r < 0.2 and wide:
        # projected coordinates, very small and very large values
        return rng.choice([rng.uniform(-2e7, 2e7), round(rng.uniform(1e6, 9e6), 6), rng.uniform(-1e-4, 1e-4), rng.uniform(1e14, 1e18), float(rng.randint(1, 9) * 10**rng.randint(5, 17))])
    return round(rng.uniform(lo, hi), rng.choice([1, 2, 4]))


def bind(rng):
    return "[" + rng.choice(["attr", "NAME", "field_1", "a"]) + "]"


EXPRS = [
    "( [a] = 1 )", "( \"[name]\" = \"x\" )", "( '[name]' = 'x' )", "( ( [a] > 1 ) AND ( [b] < 2 ) )", "(round([a],10))",
    "( [a] + 2 )", "([x])", "( \"[n]\" ~ \"^a\" )", "( [a] % 2 )", "(buffer([shape],2))",
]
RES = ["/foo/", "/^a.*b$/", "/a b/", "/[0-9]+/"]
LISTS = ["{a,b}", "{road,river,rail}", "{1,2}"]


def value(rng, shape, opts):
    k = shape[0]
    if k == "enum":
        w = rng.choice(shape[1])
        return rng.choice([w, w.upper(), w.capitalize()])
    if k == "strenum":
        return rng.choice(shape[1])
    if k == "inum":
        return rng.choice(shape[1])
    if k == "bool":
        return rng.random() < 0.5
    if k == "int":
        return num(rng, shape[1], shape[2], True)
    if k == "num":
        return num(rng, shape[1], shape[2])
    if k == "ints":
        return [rng.randint(1, 400) for _ in range(shape[1])]
    if k == "nums":
        return [num(rng, *(shape[2:] or (None, None))) for _ in range(shape[1])]
    if k == "color":
        return [rng.randint(0, 255) for _ in range(3)]
    if k == "hex":
        return rng.choice(["#aa33cc", "#fff", "#00ff00aa", "#123456"])
    if k == "hexpair":
        return ["#aa33cc", "#112233"]
    if k == "bind":
        return bind(rng)
    if k == "binds":
        return [bind(rng), bind(rng)]
    if k == "mixed":
        return rng.choice([[bind(rng), rng.randint(0, 9)], [rng.randint(0, 9), bind(rng)], [bind(rng), bind(rng)]])
    if k == "expr":
        e = rng.choice(EXPRS)
        for q in opts.get("ban_quote", ""):
            if q in e:
                return "( [a] = 1 )"
        return e
    if k == "re":
        r = rng.choice(RES)
        if opts.get("re_i") and rng.random() < 0.3:
            r += "i"
        return r
    if k == "rei":
        q = "'" if '"' in opts.get("ban_quote", "") else '"'
        if q in opts.get("ban_quote", ""):
            return "/foo/"
        return f"{q}foo{q}i"
    if k == "list":
        return rng.choice(LISTS)
    if k == "str":
        s = free_string(rng, opts)
        return s
    raise KeyError(k)


def looks_special(s):
    t = s.strip()
    return (
        (t.startswith("(") and t.endswith(")"))
        or (t.startswith("[") and t.endswith("]"))
        or (t.startswith("{") and t.endswith("}"))
        or (t.startswith("/"))
        or t.startswith("NOT ")
        or t.startswith("#")
        or t.endswith("'i")
        or t.endswith('"i')
    )


def attr_item(rng, typ, key, opts, shape=None):
    shapes = V[typ][key]
    shape = shape or rng.choice(shapes)
    v = value(rng, shape, opts)
    if shape[0] == "str" and len(shapes) > 1:
        words = {w for s in shapes if s[0] in ("enum", "strenum") for w in s[1]}
        while looks_special(v) or v.lower() in words:
            v = rng.choice(["plain", "text", "some words"])
    return ["a", key, shape, v]


ATTRK = ("enum", "strenum", "inum", "bool", "int", "num", "ints", "nums", "color", "hex", "hexpair", "bind", "binds", "mixed", "expr", "re", "rei", "list", "str")
_TABLE = {}
for _t in V:
    a, b, s = [], [], []
    for _k, _ss in sorted(V[_t].items()):
        for _s in _ss:
            if _s[0] in ATTRK:
                if _k not in a:
                    a.append(_k)
            else:
                s.append((_k, _s))
    _TABLE[_t] = (a, s)


def pairs(rng, opts, n=None, strings=True):
    out, seen = [], set()
    for _ in range(rng.choice([0, 1, 2, 3]) if n is None else n):
        k = rng.choice(["wms_title", "ows_srs", "k", "a b", "gml_include_items", "é", "qstring", "name", "x-y"])
        if k in seen:
            continue
        seen.add(k)
        out.append([k, free_string(rng, opts)])
    return out


def points(rng, lo=1):
    return [[num(rng), num(rng)] for _ in range(rng.choice([lo, 2, 3, 5]))]


def block(rng, typ, depth, opts):
    attrs, structs = _TABLE[typ]
    size = opts.get("size", 4)
    items = []
    used = set()
    for _ in range(rng.randint(0, size)):
        if not attrs:
            break
        k = rng.choice(attrs)
        if k in used:
            continue
        used.add(k)
        items.append(attr_item(rng, typ, k, opts))
    for _ in range(rng.randint(0, max(1, size // 2)) if structs else 0):
        k, s = rng.choice(structs)
        if s[0] == "rep":
            if k == "include" and not opts.get("include_kw"):
                continue
            items.append(["r", k, free_string(rng, dict(opts, ban_quote=opts.get("ban_quote", "")))])
            continue
        if s[0] == "cfg":
            items.append(["cfg", rng.choice(["MS_ERRORFILE", "PROJ_LIB", "ON_MISSING_DATA"]), free_string(rng, opts)])
            continue
        if s[0] in ("blk", "blks"):
            if depth <= 0:
                continue
            if s[0] == "blk" and k in used:
                continue
            if k == "labels" and typ in ("legend", "scalebar") and k in used:
                continue
            used.add(k)
            for _ in range(1 if s[0] == "blk" or k in ("labels",) else rng.choice([1, 1, 2])):
                items.append(["b", block(rng, s[1], depth - 1, dict(opts, size=max(1, size - 1)))])
            continue
        if k in used:
            continue
        used.add(k)
        if s[0] == "kv":
            items.append(["kv", k, pairs(rng, opts)])
        elif s[0] == "points":
            items.append(["pts", k, points(rng, 2)])
        elif s[0] == "mpoints":
            used.discard(k)
            items.append(["pts", k, points(rng, 2)])
        elif s[0] == "proj":
            items.append(["proj", "AUTO" if rng.random() < 0.25 else [rng.choice(["init=epsg:4326", "proj=utm", "zone=15", "datum=NAD83", " init=epsg:3857", "+no_defs ", "x_0=500000  "]) for _ in range(rng.choice([1, 2, 3]))]])
    rng.shuffle(items)
    # a cluster may only appear once, etc.: singletons were guarded above
    if typ == "layer" and not any(i[0] == "a" and i[1] == "type" for i in items):
        items.insert(rng.randrange(len(items) + 1), ["a", "type", ["enum", ["point"]], rng.choice(["POINT", "line", "Polygon"])])
    return {"t": typ, "i": items}


def quote(rng, s, opts):
    q = rng.choice("\"'")
    if q in s:
        q = "'" if q == '"' else '"'
    if q in s:
        s = s.replace(q, "")
    return q + s + q


def attr_text(rng, shape, v, opts):
    k = shape[0]
    if isinstance(v, bool):
        return rng.choice(["TRUE", "true"]) if v else rng.choice(["FALSE", "False"])
    if isinstance(v, list):
        if k == "hexpair":
            return " ".join(f'"{x}"' for x in v)
        return " ".join(str(x) for x in v)
    if isinstance(v, (int, float)):
        return str(v)
    if k in ("enum",):
        if v.lower() in ("end",):
            return f'"{v}"'
        return v
    if k in ("strenum", "str", "hex"):
        return quote(rng, v, opts)
    return v


def lines(b, rng, opts, ind=0):
    """The block as a list of text lines; every line boundary is a legal place to cut."""
    pad = opts.get("pad", "    ") * ind
    case = (lambda s: s.upper()) if not opts.get("anycase") else (lambda s: rng.choice([s.upper(), s.lower(), s.capitalize()]))
    out = [pad + case(b["t"])]
    p2 = pad + opts.get("pad", "    ")
    for it in b["i"]:
        k = it[0]
        if k == "a":
            out.append(p2 + case(it[1]) + " " + attr_text(rng, it[2], it[3], opts))
        elif k == "b":
            out += lines(it[1], rng, opts, ind + 1)
        elif k == "kv":
            out.append(p2 + case(it[1]))
            for a, v in it[2]:
                out.append(p2 + "  " + quote(rng, a, opts) + " " + quote(rng, v, opts))
            out.append(p2 + case("END"))
        elif k == "pts":
            out.append(p2 + case(it[1]))
            for x, y in it[2]:
                out.append(p2 + f"  {x} {y}")
            out.append(p2 + case("END"))
        elif k == "proj":
            out.append(p2 + case("PROJECTION"))
            for s in ["AUTO"] if it[1] == "AUTO" else [f'"{x}"' for x in it[1]]:
                out.append(p2 + "  " + s)
            out.append(p2 + case("END"))
        elif k == "cfg":
            out.append(p2 + "CONFIG " + quote(rng, it[1], opts) + " " + quote(rng, it[2], opts))
        elif k == "r":
            out.append(p2 + case(it[1]) + " " + quote(rng, it[2], opts))
        if opts.get("comments") and rng.random() < 0.15:
            out.append(p2 + rng.choice(["# a comment", "# include \"nothing.map\"", "#", "/* c comment */", "# é"]))
        elif opts.get("comments") and rng.random() < 0.1 and "\n" not in out[-1]:
            out[-1] += rng.choice([" # trailing", " # END", "  #x"])
    out.append(pad + case("END"))
    return out


def document(rng, opts=None, roots=None, depth=None):
    opts = opts or {}
    n = rng.choice([1, 1, 1, 1, 2]) if opts.get("multi") else 1
    typ = rng.choice(roots or (["map"] * 6 + ["layer"] * 4 + ROOTS))
    if typ == "grid":
        typ = "layer"
    depth = rng.choice([1, 2, 3]) if depth is None else depth
    return [block(rng, typ, depth, opts) for _ in range(n)]


def text_lines(doc, rng, opts=None):
    out = []
    for b in doc:
        out += lines(b, rng, opts or {})
    return out
