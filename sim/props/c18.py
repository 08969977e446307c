"""C18: update / find helpers obey their documented laws.

Histories of calls over shared dictionaries, shared patches and shared lists: an object touched
by one call is the input of later ones, in either representation (plain / Mapfile dict)."""
import json

from sim import shrinklib as S
from sim.canon import sha, short
from sim.lane import Violation
from sim.values import MD, build_model, build_real, mcanon, mcopy, rcanon, recase

NAME = "C18"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 40000}
RULE = (
    "A run is a batch of histories; a history is a seeded sequence of update/find/findall/findunique/findkey calls "
    "over shared Mapfile dicts, plain dicts and re-used patches, with raising comparison values as faults; each call is "
    "compared with an independent reference model and every object is re-checked after every call. Non-trivial: the "
    "history executed at least 3 judged calls; distinct by event digest."
)
STATE_MEASURE = "distinct (object contents) hashes reached after update calls"
REAL = ["mappyfile.dictutils", "mappyfile.ordereddict"]
STUBS = []
ASSUMPTIONS = [
    "merging a dict onto a scalar, an empty list onto a non-empty one, and None placeholders beyond the end of the "
    "target list are not judged: the statement does not say what they mean",
]

SCAL = ["name", "status", "group", "maxscaledenom", "opacity"]
DK = ["metadata", "web", "validation"]
LK = ["layers", "classes", "styles"]
SL = ["extent", "size", "color"]
STR = ["roads", "road", "r", "", "Roads", "on", "x y", "group1", "group10", "__delete", "ü", "1", "255", "0", "1.5", "TRUE", "true", "False", "ROADS", " roads", "ro", "None"]
NUM = [0, 1, 2, 255, 0.0, 1.5, True, False, 10]


def gscalar(rng):
    return rng.choice(STR) if rng.random() < 0.6 else rng.choice(NUM)


def gdict(rng, depth, kinds, patch=False, ow=None):
    tag = rng.choice(kinds)
    n = rng.choice([0, 1, 1, 2, 3, 4])
    items = []
    seen = set()
    for _ in range(n):
        r = rng.random()
        if r < 0.45 or depth <= 0:
            k = rng.choice(SCAL)
            v = gscalar(rng)
            if patch and rng.random() < 0.18:
                v = "__delete__"
            elif patch and rng.random() < 0.06:
                v = None
        elif r < 0.62:
            k = rng.choice(DK)
            v = gdict(rng, depth - 1, kinds, patch)
            if patch and rng.random() < 0.2:
                v = ["d", v[1] + [["__delete__", True]]] if rng.random() < 0.5 else ["d", [["__delete__", True]]]
            elif patch and rng.random() < 0.12:
                v = gscalar(rng) if rng.random() < 0.5 else "__delete__"
        elif r < 0.85:
            k = rng.choice(LK)
            m = rng.choice([0, 1, 2, 3]) if rng.random() < 0.93 else rng.choice([5, 9])
            v = []
            for _ in range(m):
                q = rng.random()
                if patch and q < 0.2:
                    v.append(None)
                elif patch and q < 0.38:
                    v.append(["d", [["__delete__", True]]])
                else:
                    v.append(gdict(rng, depth - 1, kinds, patch))
            v = ["l", v]
            if patch and rng.random() < 0.12:
                v = "__delete__" if rng.random() < 0.7 else gscalar(rng)
        else:
            k = rng.choice(SL)
            v = ["l" if rng.random() < 0.8 else "t", [rng.choice([0, 1, 2, 255, 1.5]) for _ in range(rng.choice([1, 2, 3]))]]
            if patch and rng.random() < 0.15:
                v = "__delete__"
            elif patch and rng.random() < 0.15:
                # not a list of objects, whatever else is in it
                v = ["l", rng.choice([["__delete__"], ["__delete__", "__delete__"], ["__delete__", 1], ["a"], [None, 1], [1, None], [["d", [["name", "x"]]], 1], ["x", ["d", []]], [["l", [1, 2]], ["l", [3, 4]]], [["d", [["__delete__", True]]], "x"]])]
        if patch and rng.random() < 0.1:
            k = recase(rng, k)
        if k in seen:
            continue
        seen.add(k)
        items.append([k, v])
    return [tag, items]


def gen(rng, tier):
    eps = []
    for _ in range(rng.choice([10, 20, 30])):
        depth = rng.choice([0, 1, 2, 2, 3])
        mode = rng.choice(["plain", "ci", "mixed"])
        kinds = {"plain": ["d", "od"], "ci": ["ci"], "mixed": ["d", "ci", "od"]}[mode]
        objs = [gdict(rng, depth, kinds) for _ in range(rng.choice([1, 2, 3]))]
        patches = [gdict(rng, depth, ["d", "od"] if rng.random() < 0.7 else ["ci"], patch=True) for _ in range(rng.choice([1, 2, 3]))]
        homog = rng.choice(["str", "num", "any"])
        lists = []
        for _ in range(rng.choice([1, 2])):
            its = []
            for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
                d = gdict(rng, rng.choice([0, 1]), kinds)
                d[1] = [x for x in d[1] if x[0] not in ("group", "color")]
                if rng.random() < 0.65:
                    v = rng.choice(STR) if homog == "str" else rng.choice(NUM) if homog == "num" else gscalar(rng)
                    d[1].insert(rng.randrange(len(d[1]) + 1), ["group", v])
                if rng.random() < 0.25:
                    d[1].append(["color", ["l", [rng.choice([0, 255]) for _ in range(3)]]])
                its.append(d)
            lists.append(its)
        ops = []
        for _ in range(rng.choice([2, 4, 6, 10, 14])):
            r = rng.random()
            if r < 0.45:
                ops.append(["update", rng.randrange(len(objs)), rng.randrange(len(patches)), rng.random() < 0.7, rng.random() < 0.5])
            elif r < 0.85:
                f = rng.choice(["find", "findall", "findall", "findunique", "find"])
                key = rng.choice(["group", "group", "group", "name", "status", "nokey", "color", "layers", "metadata", "__type__"])
                if f == "findunique":
                    key = rng.choice(["group", "group", "nokey", "color", "GROUP", "name", "status", "__type__"])
                val = gscalar(rng)
                q = rng.random()
                if f == "findall" and q < 0.3:
                    val = [rng.choice(["l", "t"]), [gscalar(rng) for _ in range(rng.choice([0, 1, 2, 3]))]]
                elif q < 0.36:
                    val = None
                elif q < 0.42 and f == "find":
                    val = rng.choice([["d", []], ["l", []], ["l", [255, 0, 0]]])
                elif q < 0.48:
                    val = ["raise", rng.choice([0, 1, 2])]
                ops.append([f, rng.randrange(len(lists)), recase(rng, key), val])
            else:
                path = []
                tgt = ["o", rng.randrange(len(objs))] if rng.random() < 0.7 else ["L", rng.randrange(len(lists))]
                for _ in range(rng.choice([0, 1, 2, 3, 4])):
                    path.append(rng.choice(SCAL + DK + LK + LK + LK) if rng.random() < 0.6 else rng.choice([0, 0, 1, -1, 2]))
                ops.append(["findkey", tgt, path, rng.random() < 0.8, rng.randrange(1 << 30)])
        eps.append({"objs": objs, "patches": patches, "lists": lists, "ops": ops})
    return {"episodes": eps}


class Clash(Exception):
    pass


def is_del(v):
    return isinstance(v, MD) and bool(v.d.get("__delete__"))


def mupdate(d1, d2, ow):
    """The statement of C18, executable."""
    for k, v in d2.d.items():
        kk = d1.k(k)
        if isinstance(v, MD):
            if is_del(v):
                d1.d.pop(kk, None)
            else:
                cur = d1.d.get(kk)
                if kk not in d1.d:
                    cur = MD(False)
                elif not isinstance(cur, MD):
                    raise Clash()
                mupdate(cur, v, ow)
                d1.d[kk] = cur
        elif isinstance(v, list) and all(x is None or isinstance(x, MD) for x in v):
            cur = d1.d.get(kk, [])
            if not isinstance(cur, list) or any(not isinstance(x, MD) for x in cur):
                raise Clash()
            if not v and cur:
                raise Clash()  # not specified
            out = []
            for i in range(max(len(cur), len(v))):
                new = v[i] if i < len(v) else None
                if i < len(cur):
                    if new is None:
                        out.append(cur[i])
                    elif is_del(new):
                        pass
                    else:
                        mupdate(cur[i], new, ow)
                        out.append(cur[i])
                else:
                    if new is None:
                        raise Clash()  # not specified
                    if not is_del(new):
                        fresh = MD(False)
                        mupdate(fresh, new, ow)
                        out.append(fresh)
            d1.d[kk] = out
        elif v == "__delete__":
            d1.d.pop(kk, None)
        elif isinstance(v, tuple) and all(x is None for x in v):
            raise Clash()
        else:
            if ow or kk not in d1.d:
                d1.d[kk] = v


class Boom(Exception):
    pass


def order_ok(before, after_real, touched):
    """Keys not mentioned keep their relative order."""
    keep = [k for k in before if k not in touched]
    now = [k for k in after_real if k in set(keep)]
    return keep == now


def run(sc, ctx):
    import mappyfile

    for ei, ep in enumerate(sc["episodes"]):
        objs = [build_real(x) for x in ep["objs"]]
        mobjs = [build_model(x) for x in ep["objs"]]
        patches = [build_real(x) for x in ep["patches"]]
        mpatches = [build_model(x) for x in ep["patches"]]
        lists = [[build_real(x) for x in l] for l in ep["lists"]]
        mlists = [[build_model(x) for x in l] for l in ep["lists"]]

        def check_all(what, skip=None):
            for nm, rs, ms in (("object", objs, mobjs), ("patch", patches, mpatches), ("list", lists, mlists)):
                for i, (r, m) in enumerate(zip(rs, ms)):
                    if (nm, i) == skip:
                        continue
                    if rcanon(r) != mcanon(m):
                        raise Violation(
                            f"argument-changed/{what[0]}",
                            f"after {json.dumps(what)}: {nm} {i} changed: expected {short(mcanon(m))}, found {short(rcanon(r))}",
                        )

        judged = 0
        for op in ep["ops"]:
            ctx.steps += 1
            f = op[0]
            if f == "update":
                _, oi, pi, ow, by_kw = op
                trial = mcopy(mobjs[oi])
                try:
                    mupdate(trial, mcopy(mpatches[pi]), ow)
                except Clash:
                    ctx.count("update_unspecified_skipped")
                    continue
                if is_del(mpatches[pi]):
                    continue
                before = list(mobjs[oi].d)
                kept = untouched(objs[oi], mobjs[oi], mpatches[pi])
                touched = {mobjs[oi].k(k) for k in mpatches[pi].d}
                pid = rcanon(patches[pi])
                try:
                    if ow and by_kw:
                        r = mappyfile.update(objs[oi], patches[pi])
                    else:
                        r = mappyfile.update(objs[oi], patches[pi], overwrite=ow)
                except Exception as e:
                    raise Violation(
                        "update-raised",
                        f"update(d1={short(mcanon(mobjs[oi]))}, d2={short(pid)}, overwrite={ow}) raised {type(e).__name__}: {e}",
                    )
                if r is not objs[oi]:
                    raise Violation("update-not-d1", f"update returned a different object: {short(rcanon(r))}")
                if rcanon(r, False) != mcanon(trial, False):
                    raise Violation(
                        "update-result",
                        f"update(d1={short(mcanon(mobjs[oi]))}, d2={short(pid)}, overwrite={ow}) gave {short(rcanon(r))}, the law says {short(mcanon(trial))}",
                    )
                for path, holder, k, x in kept:
                    if holder.get(k) is not x:
                        raise Violation("update-untouched", f"update replaced {path}, which it does not mention, by another object: {short(rcanon(holder.get(k)))}")
                if not order_ok(before, list(r), touched):
                    raise Violation("update-order", f"update reordered keys it does not mention: {before} -> {list(r)}")
                # adopt the real key order (the law does not fix the place of mentioned keys)
                mobjs[oi] = trial
                reorder(mobjs[oi], r)
                check_all(op, skip=("object", oi))
                judged += 1
                ctx.count("update")
                ctx.state(sha(json.dumps(rcanon(r))))
                ctx.log("update", oi, pi, ow, rcanon(r))
                probe_update(ctx, mpatches[pi], ow)
            elif f in ("find", "findall", "findunique"):
                _, li, key, val = op
                lst, ml = lists[li], mlists[li]
                lk = key.lower()
                boom = None
                if isinstance(val, list) and val[0] == "raise":
                    boom = Boomer(val[1])
                    v = boom
                elif isinstance(val, list):
                    v = build_real(val)
                else:
                    v = val
                mv = build_model(val) if boom is None else None
                vb = rcanon(v) if boom is None else None
                try:
                    if f == "find":
                        got = mappyfile.find(lst, key, v)
                    elif f == "findall":
                        got = mappyfile.findall(lst, key, v)
                    else:
                        got = mappyfile.findunique(lst, key)
                except Boom:
                    ctx.fault("comparison_raised")
                    check_all(op)
                    ctx.log(f, "boom")
                    continue
                except Exception as e:
                    if f == "findunique" and not uniq_ok(ml, lk):
                        check_all(op)
                        continue
                    raise Violation(
                        f"{f}-raised", f"{f}({short(mcanon(ml))}, {key!r}, {short(vb)}) raised {type(e).__name__}: {e}"
                    )
                if boom is not None:
                    # the comparison never fired: nothing matched is the only answer
                    if f == "find" and got is not None or f == "findall" and got:
                        raise Violation(f"{f}-result", f"{f} matched a value that equals nothing")
                    check_all(op)
                    continue
                present = [i for i, m in enumerate(ml) if lk in m]
                if f == "findunique":
                    if not uniq_ok(ml, lk):
                        check_all(op)
                        continue
                    vals = [ml[i].d[ml[i].k(lk)] for i in present]
                    want = []
                    for x in sorted(x for x in vals if x is not None):
                        if not want or want[-1] != x:
                            want.append(x)
                    if rcanon(got) != rcanon(want) and not (list(got) == want and len(got) == len(want)):
                        raise Violation("findunique-result", f"findunique({short(mcanon(ml))}, {key!r}) gave {short(rcanon(got))}, expected {want}")
                else:
                    vcan = mcanon(mv)
                    if f == "find":
                        idx = [i for i in present if eq(ml[i].d[ml[i].k(lk)], mv)]
                        want = lst[idx[0]] if idx else None
                        if got is not want:
                            raise Violation(
                                "find-result",
                                f"find({short(mcanon(ml))}, {key!r}, {short(vcan)}) gave {short(rcanon(got))}, expected {'item %d' % idx[0] if idx else None}",
                            )
                    else:
                        if isinstance(mv, (list, tuple)):
                            idx = [i for i in present if any(eq(ml[i].d[ml[i].k(lk)], x) for x in mv)]
                        else:
                            idx = [i for i in present if eq(ml[i].d[ml[i].k(lk)], mv)]
                        ids = [id(lst[i]) for i in idx]
                        if not isinstance(got, list) or [id(x) for x in got] != ids:
                            raise Violation(
                                "findall-result",
                                f"findall({short(mcanon(ml))}, {key!r}, {short(vcan)}) gave {short(rcanon(got))}, expected items {idx}",
                            )
                    if len(present) < len(ml):
                        ctx.probe("items_lacking_key")
                check_all(op)
                judged += 1
                ctx.count(f)
                ctx.log(f, li, key, rcanon(got) if not isinstance(got, dict) else "item")
            else:
                _, (tk, ti), rawpath, guided, salt = op
                root, mroot = (objs[ti], mobjs[ti]) if tk == "o" else (lists[ti], mlists[ti])
                path = guide(mroot, rawpath, salt) if guided else rawpath
                ok, cur, rcur, last = True, mroot, root, None
                for i, p in enumerate(path):
                    if isinstance(cur, MD) and isinstance(p, str):
                        if p not in cur:
                            ok = False
                            break
                        rcur = rcur[cur.k(p)]
                        cur = cur.d[cur.k(p)]
                    elif isinstance(cur, (list, tuple)) and isinstance(p, int) and -len(cur) <= p < len(cur):
                        cur = cur[p]
                        rcur = rcur[p]
                    else:
                        ok = False
                        break
                try:
                    got = mappyfile.findkey(root, *path)
                except Exception as e:
                    if ok:
                        raise Violation("findkey-raised", f"findkey(.., {path}) raised {type(e).__name__}: {e} though the element exists")
                    ctx.probe("findkey_missing_path")
                    check_all(op)
                    ctx.log("findkey", path, "raised")
                    continue
                if ok and got is not rcur and rcanon(got) != rcanon(rcur):
                    raise Violation("findkey-result", f"findkey({short(mcanon(mroot))}, {path}) gave {short(rcanon(got))}")
                if not ok and isinstance(cur, str):
                    continue  # indexing into a string value: not an element of the dictionary
                if not ok and got:
                    raise Violation("findkey-result", f"findkey({short(mcanon(mroot))}, {path}) invented {short(rcanon(got))}")
                check_all(op)
                judged += 1
                ctx.count("findkey")
                ctx.log("findkey", path, rcanon(got))


class Boomer:
    """A caller's value whose comparison fails at the n-th comparison."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        if self.n <= 0:
            raise Boom()
        self.n -= 1
        return False

    def __hash__(self):
        return 7


def probe_update(ctx, p, ow):
    def walk(m):
        if isinstance(m, MD):
            if m.d.get("__delete__"):
                ctx.probe("dict_delete_marker")
            for v in m.d.values():
                if v == "__delete__":
                    ctx.probe("string_delete_marker")
                walk(v)
        elif isinstance(m, list):
            if None in m:
                ctx.probe("none_placeholder")
            for v in m:
                walk(v)

    walk(p)
    if not ow:
        ctx.probe("overwrite_false")


def uniq_ok(ml, lk):
    vals = [m.d[m.k(lk)] for m in ml if lk in m]
    vals = [v for v in vals if v is not None]
    if vals and all(isinstance(v, list) for v in vals):
        return all(isinstance(x, (int, float)) for v in vals for x in v) or all(isinstance(x, str) for v in vals for x in v)
    if any(isinstance(v, (list, tuple, MD)) for v in vals):
        return False
    return all(isinstance(v, str) for v in vals if v is not None) or all(isinstance(v, (int, float)) for v in vals if v is not None)


def eq(a, b):
    if isinstance(a, MD) or isinstance(b, MD):
        return isinstance(a, MD) and isinstance(b, MD) and mcanon(a, False) == mcanon(b, False)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


def guide(m, raw, salt):
    """Turn a random path into one that mostly exists."""
    path = []
    for i, p in enumerate(raw):
        if isinstance(m, MD) and m.d:
            ks = list(m.d)
            k = ks[(salt >> i) % len(ks)]
            path.append(k.upper() if m.ci and (salt >> i) & 4 else k)
            m = m.d[k]
        elif isinstance(m, (list, tuple)) and m:
            j = (salt >> i) % len(m)
            path.append(j)
            m = m[j]
        else:
            break
    return path


def untouched(r, m, p):
    """[(path, dictionary, key, value)] of what the patch does not speak of."""
    out = []
    said = {m.k(k) for k in p.d}
    for k in m.d:
        x = r.get(k)
        if k not in said and isinstance(x, (dict, list)):
            out.append((k, r, k, x))
    return out


def reorder(m, r):
    if isinstance(m, MD) and isinstance(r, dict):
        m.d = {k: m.d[k] for k in r}
        for k in m.d:
            reorder(m.d[k], r[k])
    elif isinstance(m, list):
        for a, b in zip(m, r):
            reorder(a, b)


def shrink(sc, test):
    sc = S.ddmin_list(sc, ["episodes"], test, 1)
    for e in range(len(sc["episodes"])):
        sc = S.ddmin_list(sc, ["episodes", e, "ops"], test)
        for part in ("objs", "patches", "lists"):
            for i in range(len(sc["episodes"][e][part])):
                sc = shrink_spec(sc, ["episodes", e, part, i], test)
    return sc


def shrink_spec(sc, path, test):
    spec = S.get(sc, path)
    if not isinstance(spec, list):
        return sc
    if spec and isinstance(spec[0], str) and len(spec) == 2:
        sc = S.ddmin_list(sc, path + [1], test)
        for j, x in enumerate(S.get(sc, path + [1])):
            if isinstance(x, list):
                sub = path + [1, j, 1] if spec[0] in ("ci", "d", "od") else path + [1, j]
                if isinstance(S.get(sc, sub), list):
                    sc = shrink_spec(sc, sub, test)
    else:
        sc = S.ddmin_list(sc, path, test)
        for j in range(len(S.get(sc, path))):
            sc = shrink_spec(sc, path + [j], test)
    return sc
