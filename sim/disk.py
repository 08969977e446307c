"""Python side of the simulated disk (sim/shim.c)."""
import ctypes
import errno

OP = {"open": 0, "read": 1, "write": 2, "close": 3}
ACT = {"errno": 0, "short": 1, "crash": 2, "torn": 3}
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.shim_log.restype = ctypes.c_char_p
        _lib.shim_count.restype = ctypes.c_long
        for f in ("shim_prefix",):
            getattr(_lib, f).argtypes = [ctypes.c_char_p]
        _lib.shim_arm.argtypes = [ctypes.c_int] * 5 + [ctypes.c_char_p]
    return _lib


def rule_tuple(r):
    """rule: {"op","nth","act","arg","sticky","sub"}; arg may be an errno name."""
    arg = r.get("arg", 0)
    if isinstance(arg, str):
        arg = getattr(errno, arg)
    return (OP[r["op"]], int(r.get("nth", 1)), ACT[r["act"]], int(arg), int(bool(r.get("sticky"))), r.get("sub", ""))


class Disk:
    def __init__(self, prefixes):
        L = lib()
        L.shim_reset()
        for p in prefixes:
            L.shim_prefix(p.encode())
        self.rules = []

    def arm(self, rules):
        L = lib()
        L.shim_clear_rules()
        L.shim_clear_log()
        self.rules = list(rules)
        for r in self.rules:
            t = rule_tuple(r)
            L.shim_arm(*t[:5], t[5].encode())

    def fired(self):
        """[(rule, times fired)] for the armed rules."""
        L = lib()
        return [(r, L.shim_fired(i)) for i, r in enumerate(self.rules)]

    def log(self):
        return lib().shim_log().decode("utf-8", "replace").splitlines()

    def count(self, op):
        return lib().shim_count(OP[op])

    def disarm(self):
        lib().shim_clear_rules()
        self.rules = []

    def close(self):
        lib().shim_reset()


def is_hard(r):
    """Soft faults (EINTR, short transfers) must be invisible; hard ones may surface."""
    return not (r["act"] == "short" or (r["act"] == "errno" and r.get("arg") == "EINTR"))


def fault_name(r):
    return f"{r['op']}:{r.get('arg') if r['act'] == 'errno' else r['act']}"


def env_spec(prefixes, rules):
    parts = ["|".join(prefixes)]
    for r in rules:
        t = rule_tuple(r)
        parts.append(",".join(str(x) for x in t))
    return ";".join(parts)
