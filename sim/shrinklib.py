"""Generic minimisation: delta debugging over the lists of a scenario, then simplification
of the parts.  A property module may add its own candidates (mod.shrink)."""
import copy


def get(sc, path):
    for p in path:
        sc = sc[p]
    return sc


def with_value(sc, path, val):
    sc2 = copy.deepcopy(sc)
    if not path:
        return val
    get(sc2, path[:-1])[path[-1]] = val
    return sc2


def ddmin_list(sc, path, test, min_len=0):
    """Remove chunks of the list at `path` while test(scenario) holds."""
    lst = get(sc, path)
    n = max(1, len(lst) // 2)
    while n >= 1:
        i = 0
        while i < len(get(sc, path)):
            lst = get(sc, path)
            if len(lst) - len(lst[i : i + n]) < min_len:
                i += n
                continue
            cand = with_value(sc, path, lst[:i] + lst[i + n :])
            if test(cand):
                sc = cand
            else:
                i += n
        n //= 2
    return sc


def shrink_text(sc, path, test, seps=("\n", " ", "")):
    """Drop lines, then words, then characters of the string at `path`."""
    for sep in seps:
        s = get(sc, path)
        parts = s.split(sep) if sep else list(s)
        n = max(1, len(parts) // 2)
        while n >= 1:
            i = 0
            while i < len(parts):
                cand_parts = parts[:i] + parts[i + n :]
                cand = with_value(sc, path, sep.join(cand_parts))
                if len(cand_parts) < len(parts) and test(cand):
                    sc, parts = cand, cand_parts
                else:
                    i += n
            n //= 2
    return sc
