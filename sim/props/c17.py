"""C17: Mapfile dicts behave as case-insensitive, insertion-ordered dicts.

Histories of dictionary operations over several handles (originals, copies, deep copies,
unpickled twins), compared after every operation with an ordinary insertion-ordered dict keyed
by the lower-cased key.  Faults: default factories and iterables that fail part-way, truncated
pickles, values whose deepcopy fails; afterwards the dictionary must still equal its model."""
import copy
import json
import pickle
from collections import OrderedDict

from sim import shrinklib as S
from sim.canon import sha, short
from sim.lane import Violation
from sim.values import build_real, rcanon, recase

NAME = "C17"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 40000}
RULE = (
    "A run is a batch of seeded operation histories (get/set/del/in/has_key/get/pop/setdefault/update/construction/"
    "copy/deepcopy/pickle, mixed-case keys, with and without a default factory, dictionaries built by loads or by "
    "construction) over up to 6 handles, each operation checked against a reference ordered dict, all handles re-checked "
    "after each. Non-trivial: at least 3 operations; distinct by event digest."
)
STATE_MEASURE = "distinct (key order, value shape, factory) states of a handle after an operation"
REAL = ["mappyfile.ordereddict", "mappyfile.tokens", "loads pipeline for dictionaries built by loads"]
STUBS = ["Lark grammar compilation memoised per lane (not in replays)"]
ASSUMPTIONS = [
    "string keys only (Mapfile dicts have no others)",
    "OBJECT_LIST_KEYS as documented: layers classes styles symbols labels outputformats features scaletokens composites joins",
]

LISTKEYS = "layers classes styles symbols labels outputformats features scaletokens composites joins".split()
SMALL = ["a", "b", "c"]
WORDS = ["name", "status", "layers", "classes", "styles", "metadata", "web", "e", "default_factory", "self", "key", "args",
         "symbols", "labels", "outputformats", "features", "scaletokens", "composites", "joins", "__type__", "straße", "é", "wms_title", ""]
DOCS = [
    "MAP NAME 'a' LAYER NAME 'l' TYPE POINT CLASS NAME 'c' END END END",
    "LAYER NAME 'x' METADATA 'wms_title' 't' 'Ows_SRS' 'EPSG:4326' END END",
    "MAP WEB METADATA 'k' 'v' END END CONFIG 'MS_ERRORFILE' 'x' PROJECTION 'init=epsg:4326' END END",
    "CLASS STYLE COLOR 1 2 3 END LABEL TYPE TRUETYPE END END",
    """MAP # a comment
 CONFIG "MS_ERRORFILE" "x" PROJECTION "init=epsg:4326" END LEGEND LABEL SIZE 3 END END WEB METADATA "A" "b" END # wms
 VALIDATION "Q" "r" END END SYMBOL NAME 'x' TYPE ELLIPSE POINTS 1 1 END END REFERENCE STATUS ON END QUERYMAP STATUS ON END SCALEBAR LABEL SIZE 1 END END OUTPUTFORMAT NAME 'png' END
LAYER NAME "x" TYPE POINT CONNECTIONOPTIONS "A" "b" END FEATURE POINTS 1 1 2 2 END END COMPOSITE OPACITY 3 END GRID LABELFORMAT "x" END SCALETOKEN NAME "%x%" VALUES "0" "1" END END
 JOIN NAME "q" END CLUSTER MAXDISTANCE 4 END CLASS LEADER MAXDISTANCE 3 END STYLE PATTERN 1 2 END END LABEL POSITION AUTO STYLE WIDTH 1 END END END METADATA 'Wms_Title' 'x' "WMS_TITLE" 'y' END END END""",
    "METADATA 'Wms_Title' 'x' \"WMS_TITLE\" 'y' 'a' 'b' END",
    "SYMBOLSET SYMBOL NAME 'x' TYPE ELLIPSE POINTS 1 1 END END END",
    "LAYER TYPE LINE NAME 'a' END LAYER TYPE POINT NAME 'b' METADATA 'A' 'x' END END",
]
FLAGS = [{}, {}, {"include_position": True}, {"include_comments": True}, {"include_position": True, "include_comments": True}]


def gval(rng, depth=1):
    r = rng.random()
    if r < 0.5 or depth <= 0:
        return rng.choice([0, 1, 2, "x", "Y", "", None, True, 1.5, "z z"])
    if r < 0.7:
        return ["l", [gval(rng, depth - 1) for _ in range(rng.choice([0, 1, 2]))]]
    if r < 0.74:
        return ["t", [gval(rng, depth - 1) for _ in range(rng.choice([0, 1, 2]))]]
    tag = rng.choice(["d", "ci", "ci", "od"])
    ks = []
    for _ in range(rng.choice([0, 1, 2])):
        k = rng.choice(SMALL)
        if k not in [x[0] for x in ks]:
            ks.append([k, gval(rng, depth - 1)])
    return [tag, ks]


def gpairs(rng, keys, n=None):
    n = rng.choice([0, 1, 2, 3, 4]) if n is None else n
    if n and rng.random() < 0.04:
        # a big one
        return [[recase(rng, f"{rng.choice(keys)}{rng.randrange(40)}"), gval(rng, 0)] for _ in range(rng.choice([12, 30, 70]))]
    return [[recase(rng, rng.choice(keys)), gval(rng)] for _ in range(n)]


FACT = ["CI", "CI", "CI", "none", "list", "boom", "boom2"]


def gnew(rng, keys):
    kind = rng.choice(["empty", "pairs", "mapping", "kw", "both", "ci", "iter", "loads", "loads", "iterboom"])
    fact = rng.choice(FACT)
    return ["new", kind, fact, gpairs(rng, keys), gpairs(rng, keys), rng.randrange(len(DOCS)), rng.randrange(4)]


def gen(rng, tier):
    eps = []
    for _ in range(rng.choice([10, 20, 30])):
        keys = rng.choice([SMALL, WORDS, SMALL + ["layers"], WORDS[:8]])
        nops = rng.choice([3, 5, 8, 12, 20])
        ops = [gnew(rng, keys)]
        focus = rng.choice([None, None, "copy", "miss", "update"])
        for _ in range(nops):
            r = rng.random()
            h = rng.randrange(6)
            k = recase(rng, rng.choice(keys))
            if focus == "copy" and rng.random() < 0.35:
                ops.append(["copy", h, rng.choice(["copy", "copy.copy", "deepcopy", "deepcopy", "pickle"]), rng.randrange(6)])
                continue
            if focus == "miss" and rng.random() < 0.4:
                ops.append(["get[]", h, k])
                continue
            if focus == "update" and rng.random() < 0.4:
                r = 0.75
            if r < 0.12:
                ops.append(["get[]", h, k])
            elif r < 0.27:
                ops.append(["set", h, k, gval(rng)])
            elif r < 0.33:
                ops.append(["del", h, k])
            elif r < 0.38:
                ops.append(["in", h, k])
            elif r < 0.41:
                ops.append(["has_key", h, k])
            elif r < 0.50:
                ops.append(["get", h, k, rng.choice(["none", "pos", "kw"]), gval(rng)])
            elif r < 0.58:
                ops.append(["pop", h, k, rng.choice(["none", "pos", "kw"]), gval(rng)])
            elif r < 0.67:
                ops.append(["setdefault", h, k, rng.choice(["none", "pos", "kw"]), gval(rng)])
            elif r < 0.83:
                how = rng.choice(["mapping", "pairs", "kw", "both", "ci", "iter", "iterboom", "handle", "empty", "none", "od"])
                ops.append(["update", h, how, gpairs(rng, keys), gpairs(rng, keys), rng.randrange(6), rng.randrange(4)])
            elif r < 0.93:
                how = rng.choice(["copy", "copy.copy", "deepcopy", "pickle", "pickle_torn", "deepcopy_boom"])
                ops.append(["copy", h, how, rng.randrange(1000)])
            elif r < 0.95:
                ops.append(["mutate", h, k, gval(rng)])
            elif r < 0.97:
                ops.append(["sub", h, rng.randrange(1000), rng.randrange(6)])
            elif r < 0.98:
                ops.append(["together", h, rng.choice(["list", "dict", "twice"]), rng.choice(["deepcopy", "pickle", "pickle", "copy"]), rng.randrange(6)])
            else:
                ops.append(gnew(rng, keys))
        eps.append(ops)
    return {"episodes": eps}


class Boom(Exception):
    pass


class BoomFactory:
    """Default factory that fails the first n times it is asked."""

    def __init__(self, n):
        self.n = n

    def __call__(self):
        if self.n > 0:
            self.n -= 1
            raise Boom()
        return {}

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class NoCopy:
    def __deepcopy__(self, memo):
        raise Boom()


def boom_iter(pairs, n):
    for i, p in enumerate(pairs):
        if i >= n:
            raise Boom()
        yield p
    raise Boom()


class Model:
    __slots__ = ("d", "fact")

    def __init__(self, fact):
        self.d = {}
        self.fact = fact


def put(d, pairs):
    for k, v in pairs:
        d[k.lower()] = v


def nested(x, hidden=False):
    """A dictionary and those below it, leaving out the hidden position and comment data."""
    out = []
    if isinstance(x, dict):
        out.append(x)
        for k, v in dict.items(x):
            if not (isinstance(k, str) and k.startswith("__")):
                out += nested(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            out += nested(v)
    return out


def mutables(x, acc, depth=0):
    if isinstance(x, dict):
        acc[id(x)] = x
        for v in x.values():
            mutables(v, acc, depth + 1)
    elif isinstance(x, (list,)):
        acc[id(x)] = x
        for v in x:
            mutables(v, acc, depth + 1)
    elif isinstance(x, tuple):
        for v in x:
            mutables(v, acc, depth + 1)
    return acc


def deep_same(a, b):
    """Equal contents, equal classes, equal factories, all the way down."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        if getattr(a, "default_factory", None) is not getattr(b, "default_factory", None):
            return False
        return list(a.keys()) == list(b.keys()) and all(deep_same(x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(deep_same(x, y) for x, y in zip(a, b))
    return a == b or a is b


def run(sc, ctx):
    for ops in sc["episodes"]:
        episode(ops, ctx)


def kwargs_of(pairs):
    """Keyword arguments: identifiers-as-strings, last spelling wins per exact name."""
    return {k: v for k, v in pairs if isinstance(k, str)}


def episode(ops, ctx):
    import mappyfile
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict as CI

    H = []  # (real, Model)

    def fail(kind, op, msg):
        raise Violation(kind, f"{json.dumps(op)}: {msg}; history {json.dumps(ops[: ops.index(op) + 1])[:1500]}")

    def check(op):
        for i, (r, m) in enumerate(H):
            if type(r) is not CI:
                fail("class", op, f"handle {i} is a {type(r).__name__}")
            if r.default_factory is not m.fact:
                fail("factory", op, f"handle {i} default_factory is {r.default_factory!r}, expected {m.fact!r}")
            ks = list(r.keys())
            if ks != list(m.d):
                fail("keys", op, f"handle {i} keys {ks}, expected {list(m.d)}")
            if list(r) != ks or list(reversed(r)) != ks[::-1] or len(r) != len(ks):
                fail("iteration", op, f"handle {i}: iteration disagrees with keys()")
            for (k, v), w, k2 in zip(r.items(), m.d.values(), r):
                if v is not w:
                    fail("values", op, f"handle {i}[{k!r}] is {short(rcanon(v))}, expected {short(rcanon(w))}")
            for v, w in zip(r.values(), m.d.values()):
                if v is not w:
                    fail("values", op, f"handle {i}: values() disagrees with the model")
            for k, w in m.d.items():
                for kk in (k, k.upper() if k.upper().lower() == k else k):
                    if kk not in r or r[kk] is not w or r.get(kk) is not w:
                        fail("lookup", op, f"handle {i}: {kk!r} not found as {k!r}")
            ctx.state(sha(json.dumps([ks, [type(v).__name__ for v in m.d.values()], m.fact is None])))

    def fact_of(name):
        return {"CI": CI, "none": None, "list": list}.get(name) if name in ("CI", "none", "list") else BoomFactory(2 if name == "boom2" else 1)

    for op in ops:
        ctx.steps += 1
        o = op[0]
        try:
            if o == "new":
                _, kind, fname, pa, pb, di, nb = op
                fact = fact_of(fname)
                A = [(k, build_real(v)) for k, v in pa]
                B = [(k, build_real(v)) for k, v in pb]
                m = Model(fact)
                if kind == "loads":
                    r = mappyfile.loads(DOCS[di], **FLAGS[len(pa) % len(FLAGS)])
                    if isinstance(r, list):
                        r = r[len(pb) % len(r)]
                    m.fact = CI
                    put(m.d, list(OrderedDict.items(r)))
                    for x in nested(r):
                        if type(x) is not CI or x.default_factory is not CI:
                            fail("class", op, f"loads gave a {type(x).__name__} with the factory {getattr(x, 'default_factory', '-')!r}: {short(rcanon(x))}")
                        if any(k != k.lower() for k in OrderedDict.keys(x)):
                            fail("keys", op, f"loads gave the keys {list(x)}")
                elif kind == "empty":
                    r = CI(fact)
                elif kind == "pairs":
                    r = CI(fact, A)
                    put(m.d, A)
                elif kind == "mapping":
                    r = CI(fact, dict(A))
                    put(m.d, dict(A).items())
                elif kind == "kw":
                    kw = {k: v for k, v in kwargs_of(A).items() if k not in ("self", "default_factory")}
                    r = CI(fact, **kw)
                    put(m.d, kw.items())
                elif kind == "both":
                    kw = {k: v for k, v in kwargs_of(B).items() if k not in ("self", "default_factory")}
                    r = CI(fact, A, **kw)
                    put(m.d, A)
                    put(m.d, kw.items())
                elif kind == "ci":
                    src = CI(CI, A)
                    r = CI(fact, src)
                    put(m.d, A)
                elif kind == "iter":
                    r = CI(fact, iter(A))
                    put(m.d, A)
                else:
                    try:
                        CI(fact, boom_iter(A, nb))
                        fail("swallowed", op, "construction swallowed the iterable's exception")
                    except Boom:
                        ctx.fault("iterable_failed")
                    continue
                if len(H) < 6:
                    H.append((r, m))
                else:
                    H[nb] = (r, m)
            else:
                if not H:
                    continue
                h = op[1] % len(H)
                r, m = H[h]
                if o in ("get[]", "set", "del", "in", "has_key", "get", "pop", "setdefault", "mutate"):
                    k = op[2]
                    lk = k.lower()
                if o == "get[]":
                    if lk in m.d:
                        if r[k] is not m.d[lk]:
                            fail("getitem", op, "wrong value")
                    elif m.fact is None:
                        try:
                            r[k]
                            fail("getitem", op, "no KeyError for a missing key without a default factory")
                        except KeyError:
                            pass
                    elif lk in LISTKEYS:
                        v = r[k]
                        if type(v) is not list or v:
                            fail("autolist", op, f"missing object-list key gave {short(rcanon(v))}")
                        for rr, mm in H:
                            if any(v is w for w in mm.d.values()):
                                fail("autolist", op, "the new list is not new")
                        m.d[lk] = v
                        ctx.probe("auto_list")
                    else:
                        will = isinstance(m.fact, BoomFactory) and m.fact.n > 0
                        try:
                            v = r[k]
                        except Boom:
                            if not will:
                                raise
                            ctx.fault("factory_failed")
                            check(op)
                            continue
                        if will:
                            fail("swallowed", op, "the factory's exception was swallowed")
                        want = CI if m.fact is CI else list if m.fact is list else dict
                        if type(v) is not want or v:
                            fail("autodict", op, f"missing key gave {type(v).__name__} {short(rcanon(v))}")
                        for rr, mm in H:
                            if any(v is w for w in mm.d.values()):
                                fail("autodict", op, "the new default is not new")
                        m.d[lk] = v
                        ctx.probe("auto_dict")
                elif o == "set":
                    v = build_real(op[3])
                    r[k] = v
                    m.d[lk] = v
                elif o == "del":
                    if lk in m.d:
                        del r[k]
                        del m.d[lk]
                    else:
                        try:
                            del r[k]
                            fail("delitem", op, "no KeyError")
                        except KeyError:
                            pass
                elif o in ("in", "has_key"):
                    g = (k in r) if o == "in" else r.has_key(k)
                    if bool(g) != (lk in m.d):
                        fail("membership", op, f"{k!r} in d is {g}")
                elif o in ("get", "pop", "setdefault"):
                    how = op[3]
                    dv = build_real(op[4])
                    args, kw = ((), {}) if how == "none" else ((dv,), {}) if how == "pos" else ((), {"default": dv})
                    if o == "get" and how == "kw":
                        args, kw = (dv,), {}
                    f = getattr(r, o)
                    if o == "pop" and lk not in m.d and how == "none":
                        try:
                            f(k)
                            fail("pop", op, "no KeyError")
                        except KeyError:
                            pass
                    else:
                        g = f(k, *args, **kw)
                        d = None if how == "none" else dv
                        want = m.d.get(lk, d)
                        if g is not want:
                            fail(o, op, f"returned {short(rcanon(g))}, expected {short(rcanon(want))}")
                        if o == "pop":
                            m.d.pop(lk, None)
                        elif o == "setdefault":
                            m.d.setdefault(lk, d)
                elif o == "update":
                    _, _, how, pa, pb, h2, nb = op
                    A = [(k, build_real(v)) for k, v in pa]
                    B = [(k, build_real(v)) for k, v in pb]
                    kw = {k: v for k, v in kwargs_of(B).items() if k != "self"}
                    if how == "mapping":
                        g = r.update(dict(A))
                        put(m.d, dict(A).items())
                    elif how == "od":
                        g = r.update(OrderedDict(A))
                        put(m.d, OrderedDict(A).items())
                    elif how == "pairs":
                        g = r.update(A)
                        put(m.d, A)
                    elif how == "kw":
                        g = r.update(**kw)
                        put(m.d, kw.items())
                        if "e" in kw:
                            ctx.probe("keyword_named_e")
                    elif how == "both":
                        g = r.update(A, **kw)
                        put(m.d, A)
                        put(m.d, kw.items())
                    elif how == "ci":
                        src = CI(CI, A)
                        n = len(src)
                        g = r.update(src)
                        put(m.d, A)
                        if len(src) != n:
                            fail("update-source", op, "update changed its source")
                    elif how == "iter":
                        g = r.update(iter(A))
                        put(m.d, A)
                    elif how == "handle":
                        src = H[h2 % len(H)][1]
                        if any(x is r for v in src.d.values() for x in nested(v)):
                            continue  # would store a dictionary inside itself
                        g = r.update(H[h2 % len(H)][0])
                        put(m.d, list(src.d.items()))
                    elif how == "empty":
                        g = r.update()
                    elif how == "none":
                        g = r.update({})
                    else:
                        try:
                            r.update(boom_iter(A, nb))
                            fail("swallowed", op, "update swallowed the iterable's exception")
                        except Boom:
                            ctx.fault("iterable_failed")
                        # nothing, or a prefix, may have been applied
                        now = list(OrderedDict.items(r))
                        for j in range(min(nb, len(A)) + 1):
                            t = dict(m.d)
                            put(t, A[:j])
                            if [k for k, _ in now] == list(t) and all(v is w for (_, v), w in zip(now, t.values())):
                                m.d = t
                                break
                        else:
                            fail("torn-update", op, f"after a failing update the keys are {[k for k, _ in now]}")
                elif o == "copy":
                    how = op[2]
                    if how in ("pickle", "pickle_torn") and isinstance(m.fact, BoomFactory):
                        how = "copy"
                    n = Model(m.fact)
                    if how in ("copy", "copy.copy"):
                        c = r.copy() if how == "copy" else copy.copy(r)
                        n.d = dict(m.d)
                    elif how == "deepcopy_boom":
                        if "nc" in r:
                            continue
                        r["nc"] = NoCopy()
                        try:
                            copy.deepcopy(r)
                            fail("swallowed", op, "deepcopy swallowed an exception")
                        except Boom:
                            ctx.fault("deepcopy_failed")
                        del r["NC"]
                        check(op)
                        continue
                    elif how == "deepcopy":
                        c = copy.deepcopy(r)
                        if not deep_same(c, r):
                            fail("deepcopy", op, f"copy {short(rcanon(c))} differs from {short(rcanon(r))}")
                        shared = set(mutables(c, {})) & set(mutables(r, {}))
                        if shared:
                            fail("deepcopy-shared", op, "the deep copy shares mutable state with the original")
                        n.d = dict(OrderedDict.items(c))
                    else:
                        data = pickle.dumps(r, op[3] % 6)
                        if how == "pickle_torn":
                            cut = op[3] % max(1, len(data))
                            try:
                                c = pickle.loads(data[:cut])
                                fail("pickle-torn", op, "a truncated pickle loaded")
                            except Violation:
                                raise
                            except Exception:
                                ctx.fault("pickle_truncated")
                            check(op)
                            continue
                        c = pickle.loads(data)
                        if not deep_same(c, r):
                            fail("pickle", op, f"unpickled {short(rcanon(c))} differs from {short(rcanon(r))}")
                        n.d = dict(OrderedDict.items(c))
                    if not (c == r) or type(c) is not type(r):
                        fail("copy-unequal", op, "the copy does not equal the original")
                    if c is r:
                        fail("copy-same", op, "the copy is the original")
                    if len(H) < 6:
                        H.append((c, n))
                    else:
                        H[op[3] % 6] = (c, n)
                    ctx.probe(how)
                elif o == "sub":
                    # a dictionary inside another one
                    xs = [x for x in nested(r)[1:] if type(x) is CI]
                    if not xs:
                        continue
                    x = xs[op[2] % len(xs)]
                    n = Model(x.default_factory)
                    n.d = dict(OrderedDict.items(x))
                    same = [mm for rr, mm in H if rr is x]
                    if same:
                        continue
                    if len(H) < 6:
                        H.append((x, n))
                    else:
                        H[op[3]] = (x, n)
                    ctx.probe("nested_handle")
                elif o == "together":
                    # copied as part of something else
                    if isinstance(m.fact, BoomFactory):
                        continue
                    box = {"list": [r, 1], "dict": {"Lay": r}, "twice": [r, [r]]}[op[2]]
                    c = copy.deepcopy(box) if op[3] == "deepcopy" else pickle.loads(pickle.dumps(box, op[4] % 6)) if op[3] == "pickle" else copy.copy(box)
                    got = c["Lay"] if op[2] == "dict" else c[0]
                    if not deep_same(c, box):
                        fail("copy-inside", op, f"{short(rcanon(c))} differs from {short(rcanon(box))}")
                    if op[3] == "copy":
                        if got is not r:
                            fail("copy-inside", op, "a shallow copy copied the element")
                        continue
                    shared = set(mutables(c, {})) & set(mutables(box, {}))
                    if shared:
                        fail("deepcopy-shared", op, "the copy shares mutable state with the original")
                    n = Model(m.fact)
                    n.d = dict(OrderedDict.items(got))
                    if len(H) < 6:
                        H.append((got, n))
                    else:
                        H[op[4]] = (got, n)
                    ctx.probe("copied_inside_" + op[2])
                elif o == "mutate":
                    # change a nested value in place: visible through shallow copies only
                    v = m.d.get(lk)
                    x = build_real(op[3])
                    if isinstance(v, list):
                        v.append(x)
                    elif isinstance(v, dict):
                        v["m"] = x
                        for rr, mm in H:
                            if rr is v:
                                mm.d["m"] = x
        except Violation:
            raise
        except RecursionError:
            # a dictionary stored inside itself
            continue
        except Exception as e:
            fail("raised/" + o, op, f"raised {type(e).__name__}: {e}")
        check(op)
        ctx.count(o)
        ctx.log(o, [list(mm.d) for _, mm in H])


def shrink(sc, test):
    sc = S.ddmin_list(sc, ["episodes"], test, 1)
    for e in range(len(sc["episodes"])):
        sc = S.ddmin_list(sc, ["episodes", e], test, 1)
        for i, op in enumerate(sc["episodes"][e]):
            if op[0] in ("new", "update"):
                for j in (3, 4):
                    sc = S.ddmin_list(sc, ["episodes", e, i, j], test)
    return sc
