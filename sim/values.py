"""JSON-able specs for the values that histories put into dictionaries, and the plain-Python
model objects they are compared with."""


class MD:
    """Model dictionary: insertion-ordered, folding keys iff `ci`."""

    __slots__ = ("ci", "d")

    def __init__(self, ci=False, items=()):
        self.ci = ci
        self.d = {}
        for k, v in items:
            self.d[self.k(k)] = v

    def k(self, key):
        return key.lower() if self.ci and isinstance(key, str) else key

    def __contains__(self, key):
        return self.k(key) in self.d


def build_real(spec):
    from collections import OrderedDict
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict

    if isinstance(spec, list):
        tag, body = spec
        if tag == "l":
            return [build_real(x) for x in body]
        if tag == "t":
            return tuple(build_real(x) for x in body)
        items = [(k, build_real(v)) for k, v in body]
        if tag == "ci":
            d = CaseInsensitiveOrderedDict(CaseInsensitiveOrderedDict)
            for k, v in items:
                d[k] = v
            return d
        if tag == "od":
            return OrderedDict(items)
        return dict(items)
    return spec


def build_model(spec):
    if isinstance(spec, list):
        tag, body = spec
        if tag == "l":
            return [build_model(x) for x in body]
        if tag == "t":
            return tuple(build_model(x) for x in body)
        return MD(tag == "ci", [(k, build_model(v)) for k, v in body])
    return spec


def mcopy(m):
    if isinstance(m, MD):
        n = MD(m.ci)
        n.d = {k: mcopy(v) for k, v in m.d.items()}
        return n
    if isinstance(m, list):
        return [mcopy(x) for x in m]
    if isinstance(m, tuple):
        return tuple(mcopy(x) for x in m)
    return m


def mcanon(m, ordered=True):
    """Class-agnostic canonical form of a model value."""
    if isinstance(m, MD):
        it = [[k, mcanon(v, ordered)] for k, v in m.d.items()]
        return ["d"] + (it if ordered else sorted(it, key=lambda x: x[0]))
    if isinstance(m, (list, tuple)):
        return ["l"] + [mcanon(x, ordered) for x in m]
    return scalar(m)


def scalar(m):
    if m is None:
        return None
    if isinstance(m, bool):
        return ["b", m]
    if isinstance(m, int):
        return ["i", str(m)]
    if isinstance(m, float):
        return ["f", repr(m)]
    if isinstance(m, str):
        return "s" + m
    return ["o", type(m).__name__]


def rcanon(r, ordered=True):
    if isinstance(r, dict):
        it = [[k, rcanon(v, ordered)] for k, v in r.items()]
        return ["d"] + (it if ordered else sorted(it, key=lambda x: x[0]))
    if isinstance(r, (list, tuple)):
        return ["l"] + [rcanon(x, ordered) for x in r]
    return scalar(r)


def recase(rng, k):
    r = rng.random()
    if r < 0.4:
        return k
    if r < 0.7:
        return k.upper()
    return "".join(c.upper() if rng.random() < 0.5 else c for c in k)
