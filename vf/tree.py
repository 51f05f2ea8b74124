"""Translation between schema trees (generators, servers) and what the specifications read."""
import copy
from . import gen


def digits(n):
    n, out = int(n), []
    while n:
        out.append(n % 128)
        n //= 128
    return out


def number(ds):
    return sum(d << (7 * i) for i, d in enumerate(ds))


def map_ids(x, f):
    """Apply f to every number of a tree (declared ones are lists of at most one)."""
    if isinstance(x, list):
        return [map_ids(y, f) for y in x]
    if isinstance(x, dict):
        return {k: (f(v) if k in ("id", "next") else map_ids(v, f)) for k, v in x.items()}
    return x


def _to(v):
    if isinstance(v, str):
        return digits(v)
    if isinstance(v, list):
        return [_to(x) for x in v]
    return v


def to_spec(defs, lits=False):
    """Numbers as digits, nothing the specification does not look at."""
    def strip(x):
        if isinstance(x, list):
            return [strip(y) for y in x]
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items() if k not in ("comment", "attrs", "wire") and (lits or k != "lit")}
        return x
    return map_ids(strip(defs), _to)


def from_spec(defs):
    """A schema printed by TLC, as generators write it."""
    def ty(t):
        return t

    def fields(f):
        return {"k": f["k"], "fs": [dict(comment=[], name=x["name"], ty=x["ty"], id=[str(number(i)) for i in x["id"]]) for x in f["fs"]]}

    def one(d):
        k = d["d"]
        if k == "struct":
            return gen.struct(d["name"], fields(d["fields"]), d["gen"])
        if k == "enum":
            return gen.enum(d["name"], [dict(comment=[], name=v["name"], fields=fields(v["fields"]), id=[str(number(i)) for i in v["id"]])
                                        for v in d["variants"]], d["gen"])
        if k == "alias":
            return gen.alias(d["name"], d["ty"], d["gen"])
        if k == "const":
            return gen.const(d["name"], d["ty"], {"k": "int", "v": "1"})
        if k == "mod":
            return gen.mod(d["name"], [one(x) for x in d["defs"]])
        return gen.use(d["segs"], d["elem"])
    return [one(d) for d in defs]
