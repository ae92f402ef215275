"""canonical form of observed values (no solver needed)"""
import enum
from fractions import Fraction


def canon(v):
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, enum.Enum):
        return "%s.%s" % (type(v).__name__, v.name)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, str):
        return str(v)
    if isinstance(v, (float, Fraction)):
        f = float(v)
        return {"__f": "nan" if f != f else repr(f)}
    if isinstance(v, (bytes, bytearray)):
        return {"__b": bytes(v).hex()}
    if isinstance(v, dict):
        return {"__d": sorted(([canon(k), canon(i)] for k, i in v.items()), key=repr)}
    if isinstance(v, (list, tuple)):
        return [canon(i) for i in v]
    if isinstance(v, (set, frozenset)):
        return {"__s": sorted((canon(i) for i in v), key=repr)}
    if isinstance(v, BaseException):
        return "exc:" + type(v).__name__
    return "obj:" + type(v).__name__


def same_obs(a, b):
    if isinstance(a, dict) and isinstance(b, dict) and "__f" in a and "__f" in b:
        x, y = float(a["__f"]), float(b["__f"])
        return x == y or (x != x and y != y) or abs(x - y) <= 1e-6 * max(1, abs(x), abs(y))
    if isinstance(a, dict) and "__f" in a and isinstance(b, int):
        return same_obs(a, {"__f": repr(float(b))})
    if isinstance(b, dict) and "__f" in b and isinstance(a, int):
        return same_obs({"__f": repr(float(a))}, b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_obs(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_obs(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str) and "<?>" in a:
        return True
    return a == b and isinstance(a, bool) == isinstance(b, bool)
