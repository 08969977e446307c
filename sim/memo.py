"""Speed seam: grammar compilation (Lark(...), ~150 ms) is done once per lane.

The object handed to mappyfile is a light proxy: attribute reads go to the shared compiled
grammar, attribute writes stay on the proxy, and lexer callbacks are looked up per thread, so
that a Parser's own comment buffer is the one that is fed.  Replays that confirm a violation
run without this seam (SIM_NO_MEMO=1), so nothing is ever reported because of it."""
import hashlib
import os
import threading

_get_ident = threading.get_ident
_cache = {}
_current = {}
_real_new = None
stats = {"memo_hits": 0, "memo_misses": 0}


class LarkProxy:
    def __init__(self, lark, callbacks):
        object.__setattr__(self, "_lark", lark)
        object.__setattr__(self, "_cbs", callbacks)

    def __getattr__(self, name):
        _current[_get_ident()] = object.__getattribute__(self, "_cbs")
        return getattr(object.__getattribute__(self, "_lark"), name)


def _make_cb(name):
    def cb(tok):
        f = _current.get(_get_ident(), {}).get(name)
        if f is None:
            return tok
        return f(tok)

    return cb


def _plain(v):
    """Options whose printed form identifies them (an address would not)."""
    if isinstance(v, (list, tuple)):
        return all(_plain(x) for x in v)
    if isinstance(v, dict):
        return all(_plain(k) and _plain(x) for k, x in v.items())
    return v is None or isinstance(v, (str, bool, int, float, type))


def _new(cls, *args, **options):
    if len(args) != 1 or not (isinstance(args[0], str) or hasattr(args[0], "read")):
        return object.__new__(cls)
    grammar = args[0]
    if not isinstance(grammar, str):
        # as Lark.__init__ does; a grammar file that cannot be read fails here as it would there
        options.setdefault("source_path", getattr(grammar, "name", "<string>"))
        grammar = grammar.read()
    cbs = options.pop("lexer_callbacks", None) or {}
    if not _plain(options):
        if cbs:
            options["lexer_callbacks"] = cbs
        lk = object.__new__(cls)
        lk.__init__(grammar, **options)
        return LarkProxy(lk, {})
    key = (cls, hashlib.sha256(grammar.encode("utf-8", "surrogatepass")).hexdigest(), tuple(sorted((k, repr(v)) for k, v in options.items() if k != "source_path")), tuple(sorted(cbs)))
    lk = _cache.get(key)
    if lk is None:
        stats["memo_misses"] += 1
        o = dict(options)
        if cbs:
            o["lexer_callbacks"] = {k: _make_cb(k) for k in cbs}
        lk = object.__new__(cls)
        lk.__init__(grammar, **o)
        _cache[key] = lk
    else:
        stats["memo_hits"] += 1
    return LarkProxy(lk, cbs)


def install():
    global _real_new
    import lark

    if _real_new is None:
        _real_new = lark.Lark.__dict__.get("__new__", False)
        lark.Lark.__new__ = staticmethod(_new)


def uninstall():
    global _real_new
    import lark

    if _real_new is not None:
        # deleting it would leave a __new__ slot that refuses arguments
        lark.Lark.__new__ = staticmethod(lambda cls, *args, **options: object.__new__(cls))
        _real_new = None
