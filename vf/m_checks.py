"""M01: the sizes shown for types, against what the wire format allows.  (M02 is with the compiler's checks.)"""
import json, os, re
from . import core, gen
from .c_checks import M02, server  # noqa: F401

INTS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"]


def to_gen(r, t):
    """A type of the wire specification as a schema may write it."""
    k = t["k"]
    if k == "string":
        return gen.T(r.choice(["string", "strref", "boxstr"]))
    if k == "bytes":
        return gen.T(r.choice(["bytes", "bytesref", "boxbytes"]))
    if k in ("vec", "set", "opt", "nz"):
        return gen.T(k, e=to_gen(r, t["e"]))
    if k == "map":
        return gen.hmap(to_gen(r, t["a"]), to_gen(r, t["b"]))
    if k == "arr":
        return gen.arr(to_gen(r, t["e"]), t["n"])
    if k == "tup":
        return gen.tup(*[to_gen(r, x) for x in t["es"]])
    if k == "ref":
        return gen.ext(r.choice(["Unit", "T"]))
    return gen.T(k)


def random_type(r, d):
    c = r.random()
    if d <= 0 or c < 0.2:
        return r.choice([{"k": k} for k in INTS + ["bool", "f32", "f64", "string", "bytes"]] + [{"k": "ref", "i": 1}])
    sub = lambda: random_type(r, d - 1)
    key = lambda: {"k": r.choice(INTS + ["bool", "string", "bytes"])}
    if c < 0.28:
        return {"k": "opt", "e": sub()}
    if c < 0.36:
        return {"k": "vec", "e": sub()}
    if c < 0.42:
        return {"k": "map", "a": key(), "b": sub()}
    if c < 0.46:
        return {"k": "set", "e": key()}
    if c < 0.56:
        return {"k": "nz", "e": r.choice([{"k": r.choice(INTS + ["string", "bytes"])}, {"k": "vec", "e": sub()}, {"k": "set", "e": key()},
                                          {"k": "map", "a": key(), "b": sub()}])}
    if c < 0.78:
        return {"k": "arr", "e": sub(), "n": r.choice([1, 2, 3, 7, 12, 13, 15, 16, 25, 26, 31, 32, 42, 43, 63, 64, 126, 127, 128, r.randint(1, 200)])}
    return {"k": "tup", "es": [sub() for _ in range(r.choice([2, 2, 3, 3, 4, 12]))]}


def extent(t):
    """Roughly how large it can get, so that the specification's integers suffice."""
    k = t["k"]
    if k == "arr":
        return t["n"] * extent(t["e"]) + 10
    if k == "tup":
        return sum(map(extent, t["es"])) + 10
    if k in ("vec", "set", "opt", "nz"):
        return extent(t["e"]) + 10
    if k == "map":
        return extent(t["a"]) + extent(t["b"]) + 10
    return 20


LINE = re.compile(r"^( *)(?:- (.+?): )?(?:\*\*(.+?)\*\* `(\d+)(\.\.)?(\d+)?`|_unknown_)$")


def shown(answer):
    """What is printed for a type as a tree."""
    if answer == []:
        return {"label": "unknown"}
    if not isinstance(answer, list):
        return {"label": "broken", "lo": 0, "hi": 0, "inner": []}
    root, stack = None, []
    for line in answer[0].split("\n"):
        m = LINE.match(line)
        if not m:
            return {"label": "unreadable: " + line, "lo": 0, "hi": 0, "inner": []}
        ind, name, label, lo, dots, hi = m.groups()
        if label is None:
            s = {"label": "unknown"}
        else:
            cap = lambda x: min(int(x), 1 << 30)
            s = {"label": label, "lo": cap(lo), "hi": cap(hi) if hi else (-1 if dots else cap(lo)), "inner": []}
        if root is None:
            root, stack = s, [(-1, s)]
            continue
        while stack[-1][0] >= len(ind):
            stack.pop()
        stack[-1][1]["inner"].append({"name": name, "size": s})
        stack.append((len(ind), s))
    return root


def ask_sizes(srv, types):
    qs = [{"op": "simplify", "text": gen.text(gen.schema([gen.struct("Unit", gen.unit()), gen.struct("S", gen.unnamed(gen.field("", t)), ["T"])]), gen.Tidy())}
          for t in types]
    out = []
    for a in srv.pipeline(qs):
        try:
            out.append(a["defs"][1]["fields"]["fs"][0]["wire"])
        except (KeyError, IndexError, TypeError):
            out.append({"no": json.dumps(a)[:200]})
    return qs, out


def M01(ck):
    rc, o = core.tlc("MCMeta", "SPECIFICATION Spec\nINVARIANTS Emit Kept Reached Encoded\n", os.path.join(ck.work, "mc"), env={"DEPTH": "3" if ck.thorough else "2"})
    if rc:
        raise core.Broken("the model of sizes violates its laws:\n" + o[-4000:])
    types = [json.loads(s[5:]) for s in sorted(set(core.printed(o))) if s.startswith("CASE ")]
    ck.cov["enumerated_types"] = len(types)
    lim = ck.n(6000, 60000)
    types = types if len(types) <= lim else ck.rng.sample(types, lim)
    more = 0
    while more < ck.n(2500, 20000):
        t = random_type(ck.rng, ck.rng.choice([2, 3, 3, 4, 5]))
        if extent(t) < 1 << 26:
            types.append(t)
            more += 1
    srv = server(ck)
    qs, out = ask_sizes(srv, [to_gen(ck.rng, t) for t in types])
    ev = [{"tag": "size", "ty": t, "shown": shown(a)} for t, a in zip(types, out)]
    wit = {"tag": "size", "ty": {"k": "tup", "es": [{"k": "u8"}, {"k": "u8"}]}}
    q, a = ask_sizes(srv, [to_gen(ck.rng, wit["ty"])])
    wit["shown"] = shown(a[0])
    dev = core.judge("MetaTrace", "M01", [wit], os.path.join(ck.work, "witness"), extra_env={"DEV": "0"})
    if dev:
        ck.finding("tuple-field", f"size shown for the field of {q[0]['text']!r}: {a[0]!r}", {"schema": q[0]["text"], "shown": a[0]})
    rej = core.judge("MetaTrace", "M01", ev, os.path.join(ck.work, "judge"), extra_env={"DEV": "1" if dev and "tuple-field" in ck.known else "0"})
    ck.traces += len(ev)
    for i, tag in rej[:60]:
        ck.violate(f"size shown for {qs[i]['text'].splitlines()[-2 if not qs[i]['text'].splitlines()[-1] else -1]!r}: {out[i]!r}", {"type": types[i], "schema": qs[i]["text"], "shown": out[i]})
    for i in range(0, len(ev), max(1, len(ev) // 3)):
        ck.sample({"type": types[i], "shown": out[i]})
    # sizes beyond every number still have an answer, and it is no small one
    huge = gen.T("u8")
    for n in range(1, 5):
        huge = gen.arr(huge, 4294967295)
        t = huge if n < 4 else gen.tup(huge, gen.T("u8"))
        for u in (t, gen.tup(huge, huge), gen.tup(gen.T("u8"), huge, gen.opt(huge)), gen.opt(gen.tup(huge, huge, huge)), gen.tup(gen.tup(huge, huge), gen.T("bool")), gen.arr(gen.tup(huge, huge), 3)):
            q, a = ask_sizes(srv, [u])
            s = shown(a[0])
            if "lo" not in s or s["label"] in ("broken",) or s["hi"] not in (-1, 1 << 30):
                ck.violate(f"size shown for {n} arrays of 4294967295 in each other: {a[0]!r}", {"schema": q[0]["text"], "shown": a[0]})
    srv.stop()
