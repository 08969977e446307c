"""Canonical, type-exact renderings of results, arguments and exceptions."""
import hashlib
import io
import json


def canon(x, _depth=0, _seen=None):
    """Type-exact canonical form (JSON-able): keeps dict order, class names, tuple/list,
    bool/int/float distinctions and default factories."""
    if _depth > 120:
        return ["!deep"]
    if x is None or isinstance(x, bool):
        return x if x is None else ["b", x]
    t = type(x)
    if t is str:
        return "s" + x
    if isinstance(x, str):
        return ["str:" + t.__name__, str.__str__(x)]
    if t is int:
        return ["i", str(x)]
    if t is float:
        return ["f", repr(x)]
    if isinstance(x, dict):
        name = t.__name__
        df = getattr(x, "default_factory", None)
        if df is not None:
            name += "/" + getattr(df, "__name__", repr(type(df)))
        return ["d:" + name] + [
            [canon(k, _depth + 1), canon(v, _depth + 1)] for k, v in x.items()
        ]
    if isinstance(x, (list, tuple)):
        return [t.__name__] + [canon(v, _depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return [t.__name__] + sorted(json.dumps(canon(v, _depth + 1)) for v in x)
    if isinstance(x, bytes):
        return ["y", x.hex()]
    if t.__name__ == "JsonRef":
        return canon(x.__subject__, _depth + 1)
    v = getattr(x, "value", None)
    if v is not None and hasattr(x, "type"):  # a token
        return ["tok", str(x.type), canon(v, _depth + 1)]
    return ["obj", t.__module__ + "." + t.__name__]


def fp(x):
    return hashlib.sha256(json.dumps(canon(x)).encode("utf-8", "surrogatepass")).hexdigest()[:20]


def sha(s):
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogatepass")
    return hashlib.sha256(s).hexdigest()[:20]


def exc_name(e):
    t = type(e)
    return t.__name__


def canon_exc(e):
    """Exceptions are compared by type and, for parse errors, by position."""
    out = ["exc", type(e).__module__.split(".")[0] + "." + type(e).__name__]
    for a in ("line", "column"):
        v = getattr(e, a, None)
        if isinstance(v, int):
            out.append([a, v])
    return out


def plain(x):
    """Order-preserving but class-agnostic rendering: any Mapping is a dict, tuple == list
    (what `==` on Mapfile dicts means, plus key order)."""
    if isinstance(x, dict):
        return ["d"] + [[str(k), plain(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return ["l"] + [plain(v) for v in x]
    if isinstance(x, bool):
        return ["b", x]
    if isinstance(x, int):
        return ["i", str(x)]
    if isinstance(x, float):
        return ["f", repr(x)]
    if x is None:
        return None
    return "s" + str(x)


def short(x, n=600):
    s = x if isinstance(x, str) else json.dumps(x, ensure_ascii=True, default=repr)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2 :]


def first_diff(a, b, path="$"):
    """Human-readable first difference between two canonical forms."""
    if a == b:
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            for i, (u, v) in enumerate(zip(a, b)):
                d = first_diff(u, v, f"{path}[{i}]")
                if d:
                    return d
            return f"{path}: length {len(a)} != {len(b)}: {short(a, 160)} vs {short(b, 160)}"
        for i, (u, v) in enumerate(zip(a, b)):
            d = first_diff(u, v, f"{path}[{i}]")
            if d:
                return d
    return f"{path}: {short(a, 200)} != {short(b, 200)}"
