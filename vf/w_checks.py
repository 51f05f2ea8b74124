"""Checks of the wire format family."""
import json, os, random
from . import core, gen, wire
from .core import Broken, Server
from .gen import T, vec, opt, nz, hset, hmap, arr, tup, ext, field, named, unnamed, unit, struct, variant, enum, schema
from .wire import Bundle, Val, weight, ival

LEAVES = ["bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "string", "strref", "bytes",
          "bytesref", "boxstr", "boxbytes"]


def holder(name, ty, wrap_named=True):
    """A type in every position."""
    k = ty["k"]
    hashable = k not in ("f32", "f64", "set", "map", "ext")
    fs = [ty, opt(ty), vec(ty), arr(ty, 2), tup(ty, T("u8")), hmap(T("u16"), ty), opt(vec(opt(ty))), tup(T("bool"), tup(ty, ty))]
    if hashable and k not in ("bytesref", "boxbytes"):
        fs.append(hset(ty))
    f = [field("abcdefghij"[i] + "x", t) for i, t in enumerate(fs)]
    return struct(name, named(*f) if wrap_named else unnamed(*[dict(x, name="") for x in f]))


LONG = [vec(T("u8")), vec(T("u16")), vec(T("bool")), hset(T("u16")), hset(T("i32")), hmap(T("u16"), T("u8")), hmap(T("u32"), T("i16")), nz(vec(T("u16"))), nz(hset(T("u32"))),
        nz(hmap(T("i16"), T("bool"))), arr(T("u8"), 600), arr(T("i16"), 300), ext("G3", [vec(T("u16"))]), ext("G3", [hset(T("u16"))]), ext("G3", [hmap(T("u16"), T("u8"))]), vec(T("string")), T("bytes")]


def catalogue():
    """Hand-picked declarations: every type in every position, all shapes, all numbers."""
    ds = []
    for n, k in enumerate(LEAVES):
        ds.append(holder("L%d" % n, T(k), n % 3 != 0))
    for n, k in enumerate(gen.INTS):
        ds.append(struct("Z%d" % n, named(field("aa", nz(T(k))), field("bb", opt(nz(T(k)))), field("cc", vec(nz(T(k)))))))
    b = schema(ds)
    ds = [struct("P", named(field("aa", T("u32"), 1), field("bb", opt(T("string")), 2))),
          struct("Q", unnamed(field("", T("i64")), field("", ext("P")))),
          struct("Unit", unit()),
          enum("E", [variant("A", unit(), 1), variant("B", unnamed(field("", T("u8")), field("", opt(ext("P")))), 2),
                     variant("C", named(field("cc", vec(T("bool"))), field("dd", tup(T("u8"), T("string")))), 300),
                     variant("D", unit(), 0), variant("F", unit(), 2**31)]),
          enum("Zero", [variant("A", unit(), 0)]),
          struct("Big", named(field("aa", T("u8"), 15), field("bb", T("u8"), 16), field("cc", opt(T("u8")), 2047), field("dd", T("string"), 2048),
                              field("ee", T("f32"), 2**28), field("ff", T("f64"), 2**29 - 1))),
          struct("Back", named(field("aa", T("u8"), 3), field("bb", T("u16"), 1), field("cc", T("u32"), 2))),
          struct("G", named(field("aa", ext("T_")), field("bb", opt(ext("T_"))), field("cc", vec(ext("T_")))), ["T_"]),
          struct("G2", named(field("aa", hmap(ext("K"), ext("V"))), field("bb", opt(ext("V"))), field("cc", tup(ext("K"), ext("V")))), ["K", "V"]),
          enum("GE", [variant("A", unnamed(field("", ext("X")))), variant("B", named(field("bb", vec(ext("X"))))), variant("C", unit())], ["X"]),
          struct("UseG", named(field("aa", ext("G3", [T("u32")])), field("bb", ext("G3", [T("string")])), field("cc", opt(ext("GE", [T("i16")]))),
                               field("dd", ext("G4", [T("string"), vec(T("u8"))])), field("ee", vec(ext("G3", [ext("P")]))))),
          struct("G3", named(field("aa", ext("T")), field("bb", opt(ext("T"))), field("cc", vec(ext("T"))), field("dd", T("u8"))), ["T"]),
          struct("G4", unnamed(field("", ext("K")), field("", opt(ext("V")))), ["K", "V"]),
          struct("OptOpt", named(field("aa", opt(opt(T("u8")))), field("bb", opt(opt(T("string")))), field("cc", opt(ext("P"))), field("dd", opt(ext("E"))))),
          struct("Tups", named(field("aa", tup(*[T(k) for k in LEAVES[:12]])), field("bb", vec(tup(T("u8"), ext("P")))),
                               field("cc", opt(tup(T("u16"), tup(T("bool"), opt(T("u64")))))), field("dd", arr(tup(T("u8"), T("i8")), 3)))),
          struct("Nz", named(field("aa", nz(T("string"))), field("bb", nz(T("bytes"))), field("cc", nz(vec(T("u16")))), field("dd", nz(hmap(T("u8"), T("bool")))),
                             field("ee", nz(hset(T("i32")))), field("ff", opt(nz(T("string")))), field("gg", vec(nz(T("bytes")))))),
          struct("AllOpt", named(*[field("f%d" % i, opt(T(k))) for i, k in enumerate(["u8", "u32", "string", "f32", "f64", "bool", "i128"])])),
          struct("Deep", named(field("aa", vec(vec(vec(T("u16"))))), field("bb", hmap(T("string"), hmap(T("u32"), vec(ext("Q"))))),
                               field("cc", arr(arr(vec(T("u8")), 2), 2)), field("dd", opt(vec(opt(vec(T("i16")))))))),
          struct("Holder", named(field("aa", ext("E")), field("bb", vec(ext("E"))), field("cc", hmap(T("u8"), ext("E"))), field("dd", ext("Q")),
                                 field("ee", arr(ext("P"), 2)), field("ff", tup(ext("E"), ext("P"))))),
          gen.mod("inner", [struct("In", named(field("aa", T("u8")), field("bb", vec(T("string"))))), gen.mod("deep", [enum("Dp", [variant("A", unit()), variant("B", unnamed(field("", T("u8"))))])])]),
          gen.mod("type", [gen.mod("super", [struct("Word", named(*[field(n, opt(T("u16")) if i % 2 else T("string")) for i, n in enumerate(["type", "self", "id", "r", "w", "match", "gen", "v"])]))]),
                           enum("Words", [variant("A", named(*[field(n, T("u8") if i % 2 else opt(T("string"))) for i, n in enumerate(["r", "w", "id", "crate", "as"])]))])]),
          struct("UseWord", named(field("r", ext("Word", path=["type", "super"])), field("id", opt(ext("Words", path=["type"]))), field("w", vec(ext("Words", path=["type"]))))),
          struct("UseIn", named(field("aa", ext("In", path=["inner"])), field("bb", vec(ext("Dp", path=["inner", "deep"])))))]
    ds = [d for d in ds if d["name"] not in ("G", "G2")]
    # types that contain themselves, and arrays longer than one byte can count
    ds += [struct("Tree", named(field("aa", T("u16")), field("bb", vec(ext("Tree"))), field("cc", opt(vec(ext("Tree")))))),
           enum("Expr", [variant("Num", unnamed(field("", T("i64")))), variant("Call", named(field("aa", T("string")), field("bb", vec(ext("Expr"))))),
                         variant("Bag", unnamed(field("", hmap(T("u8"), ext("Expr"))), field("", opt(vec(tup(T("u8"), ext("Expr")))))))]),
           struct("Ping", unnamed(field("", vec(ext("Pong"))), field("", T("u8")))),
           struct("Pong", named(field("aa", hmap(T("string"), ext("Ping"))), field("bb", ext("G3", [ext("Tree")])))),
           struct("UseH", named(*[field("h%d" % i, ext("G3", [t])) for i, t in enumerate([hset(T("u16")), hset(T("string")), arr(T("u16"), 3), arr(T("string"), 2), T("boxstr"),
                                                                                          T("boxbytes"), hmap(T("boxstr"), hset(T("boxbytes"))), vec(arr(T("i32"), 2))])])),
           struct("Long", named(*[field("f%d" % i, opt(t)) for i, t in enumerate(LONG)], field("zz", T("u8"), 200))),
           struct("Wide", named(*[field("f%d" % n, opt([vec, opt, lambda t: hmap(T("u8"), t), lambda t: arr(t, 2), lambda t: tup(T("u8"), t)][n % 5](tup(*[T(LEAVES[(i * n) % 9]) for i in range(n)])))) for n in range(2, 13)],
                                *[field("g%d" % n, tup(*[T(LEAVES[(i + n) % 12]) for i in range(n)])) for n in range(2, 13)])),
           struct("Short", named(field("zz", T("u8"), 200))),
           struct("Arrs", named(field("aa", arr(T("u8"), 130)), field("bb", opt(arr(T("u16"), 128)))))]
    # 2-level nesting of all constructors
    cons = {"vec": vec, "opt": opt, "map": lambda e: hmap(T("u8"), e), "arr": lambda e: arr(e, 2), "tup": lambda e: tup(T("u8"), e)}
    for a in cons:
        ds.append(struct("N" + a, named(*[field("f_" + b_, cons[a](cons[b_](T(l)))) for b_, l in zip(cons, ["u16", "string", "i64", "u8", "f32"])]
                                        + [field("g_" + b_, opt(cons[a](cons[b_](T(l))))) for b_, l in zip(cons, ["i32", "bytes", "bool", "u128", "f64"])])))
    bytesmode = schema([holder("Y%d" % n, T(k), n % 2 == 0) for n, k in enumerate(["bytes", "bytesref", "boxbytes", "string", "u16"])]
                       + [struct("Yn", named(field("aa", nz(T("bytes"))), field("bb", opt(nz(T("bytes")))), field("cc", vec(T("bytes")))))])
    return [(b, False), (schema(ds), False), (bytesmode, True)]


def rnd_schemas(rng, n, k=6):
    out = []
    for i in range(n):
        bm = i % 3 == 2
        g = gen.WireGen(rng, bm)
        defs = []
        for j in range(k):
            if rng.random() < 0.15:
                p = ("m%d" % j,)
                defs.append(gen.mod(p[0], [g.definition(p, depth=2) for _ in range(2)]))
            else:
                defs.append(g.definition())
        out.append((schema(defs), bm))
    return out


def setup(ck, nrand, extra=()):
    schemas = catalogue() + rnd_schemas(ck.rng, nrand) + list(extra)
    b = Bundle(schemas, ck.work)
    if b.failed:
        ck.violate(b.failed[0], b.failed[1])
        return None
    ck.types = os.path.join(ck.work, "types.json")
    core.write_json(ck.types, b.table.types)
    ck.bundle = b
    ck.env = {"TYPES": ck.types, "DEV": "0", "DEVSKIP": "0"}
    witness(ck, b)
    return b


def find(b, name, si=None):
    for i, x in enumerate(b.table.info):
        if x["name"] == name and not x["args"] and (si is None or x["schema"] == si):
            return i + 1
    raise Broken("no type " + name)


def witness(ck, b):
    """Replay of the recorded deviation: size of a tuple field."""
    t = find(b, "Tups", 1)
    v = Val(random.Random(3), b.table.types)
    x = v.decl(t)
    r = b.run([{"op": "rt", "t": t, "v": x, "tail": []}])[0]
    if "size" in r and r["size"] != len(r["bytes"]):
        ck.env["DEV"] = "1"
        if ck.prop in ("W01", "W02", "W03", "W04", "W08"):
            ck.finding("tuple-size", "size of a tuple field leaves out its length prefix: reported %d, wrote %d" % (r["size"], len(r["bytes"])),
                       {"type": b.table.rust[t - 1], "value": x})


def sample_values(ck, b, n, maxw=400, per_type=0):
    val = Val(ck.rng, b.table.types)
    nt = len(b.table.types)
    out = []
    for i in range(1, nt + 1):
        for _ in range(0 if b.table.info[i - 1]["name"] in NUMBERED else per_type):
            for _ in range(50):
                v = val.decl(i)
                if weight(v) <= maxw:
                    out.append((i, v))
                    break
        if per_type and b.table.info[i - 1]["name"] not in NUMBERED:
            out += [(i, v) for v in val.complete(i) if weight(v) <= (1500 if maxw > 200 else maxw)]
    while len(out) < n:
        i = ck.rng.randint(1, nt)
        if b.table.info[i - 1]["name"] in NUMBERED:
            continue
        v = val.decl(i)
        if weight(v) <= maxw:
            out.append((i, v))
    return out


def verdict(ck, events, prop=None, describe=None):
    rej = core.judge("WireTrace", prop or ck.prop, events, ck.work, extra_env=ck.env)
    ck.traces += len(events)
    for i, why in rej:
        e = events[i]
        ti = e.get("t") or e.get("r")
        name = ck.bundle.table.rust[ti - 1] if ti else ""
        ck.violate("%s %s: %s" % (e["op"], name, json.dumps(e)[:400]), e)
    return rej


LENGTHS = (255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 16383, 16384, 16385, 20000, 32767, 32768, 65535, 65536)


def large_values(ck, b, n):
    """Values with something long in them: the lengths in front of it take more bytes."""
    val = Val(ck.rng, b.table.types)
    able, out = [], []
    for i in range(1, len(b.table.types) + 1):
        for _ in range(6):
            val.big = 300
            val.decl(i)
            if not val.big:
                able.append(i)
                break
    while len(out) < n and able:
        i = ck.rng.choice(able)
        val.big = n0 = ck.rng.choice(LENGTHS)
        v = val.decl(i)
        if not val.big and weight(v) < n0 + 400:
            out.append((i, v))
    ck.cov["large_values"] = ck.cov.get("large_values", 0) + len(out)
    return out


HUGE = (400, 1500, 2100, 4200, 9000, 17000)


def huge_events(ck, b):
    """Collections of every kind with very many elements."""
    t = find(b, "Long", 1)
    d = b.table.types[t - 1]
    val = Val(ck.rng, b.table.types)
    sizes = [66000] + [HUGE[i % len(HUGE)] for i in range(len(d["fs"]) - 1)]
    ck.rng.shuffle(sizes)

    def grow(t, n):
        k = t["k"]
        if k == "bytes":
            return [val.r.randint(0, 9) for _ in range((1 << 21) + 7 if ck.prop == "W02" or ck.thorough else (1 << 14) + 7)]
        if k == "nz":
            return grow(t["e"], n)
        if k in ("vec", "arr"):
            return [val.val(t["e"], 1) for _ in range(n if k == "vec" else t["n"])]
        n = min(n, 5000)
        if k == "set":
            return val.distinct([val.val(t["e"], 1) if i % 3 == 0 else ival(i) for i in range(n)])
        if k == "map":
            return [[x, val.val(t["b"], 1)] for x in val.distinct([val.val(t["a"], 1) if i % 3 == 0 else ival(i) for i in range(n)])]
        return [grow(f["t"], n) if f["t"]["k"] in ("vec", "map", "set") and f["t"]["e" if f["t"]["k"] != "map" else "a"]["k"] in ("u16",) else val.val(f["t"], 9)
                for f in b.table.types[t["i"] - 1]["fs"]]

    qs = []
    for i, f in enumerate(d["fs"][:-1]):
        v = [[] for _ in d["fs"][:-1]] + [i]
        v[i] = [grow(f["t"]["e"], min(sizes[i], 3000) if f["t"]["e"]["k"] == "vec" and f["t"]["e"]["e"]["k"] == "string" else sizes[i])]
        qs.append({"op": "rt", "t": t, "v": v, "tail": [1, 2], "huge": True})
    for k, n in enumerate(LENGTHS if ck.prop == "W04" else ()):
        for i, f in enumerate(d["fs"]):
            if (ck.thorough or (i + k) % 3 == 0) and f["t"]["k"] == "opt" and f["t"]["e"]["k"] in ("bytes", "vec") and f["t"]["e"].get("e", {}).get("k") in (None, "u8", "string"):
                x = [1] * (n - ck.rng.choice((0, 0, 1)))
                v = [[] for _ in d["fs"][:-1]] + [i]
                v[i] = [[x, x] if f["t"]["e"].get("e", {}).get("k") == "string" else x]
                qs.append({"op": "rt", "t": t, "v": v, "tail": [], "huge": True})
    ck.cov["huge_values"] = len(qs)
    return [dict(q, **r) for q, r in zip(qs, b.run(qs))]


def rt_events(ck, b, n, tail=True, per_type=3, maxw=400, large=0):
    qs = [{"op": "rt", "t": t, "v": v, "tail": [ck.rng.randint(0, 255) for _ in range(ck.rng.choice([0, 1, 4]))] if tail else []}
          for t, v in sample_values(ck, b, n, per_type=per_type, maxw=maxw) + large_values(ck, b, large)]
    if large:
        ck.rng.shuffle(qs)
    rs = b.run(qs)
    ev = []
    for q, r in zip(qs, rs):
        e = dict(q)
        e.update(r)
        if "out" in r and r["out"].get("st") not in ("ok", "err"):
            e["out"] = {"st": "bad"}
        ev.append(e)
    return ev


def model(ck, cases, kind, emit=True):
    """Explore the faulty writer for the given (type, value) cases; returns the messages it may write."""
    p = os.path.join(ck.work, "cases.ndjson")
    core.write_ndjson(p, [{"t": t, "v": v} for t, v in cases])
    cfg = "SPECIFICATION Spec\nINVARIANTS Whole1 SameValue1 Detected\n"
    rc, out = core.tlc("MCWire", cfg, ck.work, env={"TYPES": ck.types, "CASES": p, "EMIT": "1" if emit else "0", "KIND": kind})
    if rc != 0:
        open(os.path.join(ck.work, "mc.out"), "w").write(out)
        raise Broken("model check of the writer failed:\n" + out[-3000:])
    ms = [json.loads(s[5:]) for s in core.printed(out) if s.startswith("CASE ")]
    return ms


def norm_out(o):
    return o if o.get("st") in ("ok", "err") else {"st": "bad", "info": json.dumps(o)[:200]}


def decode_events(b, ms, op="dec"):
    rs = b.run([{"op": "dec", "t": m["t"], "in": m["b"]} for m in ms])
    return [{"op": op, "t": m["t"], "in": m["b"], "out": norm_out(r), "k": m.get("k", "")} for m, r in zip(ms, rs)]


def small_cases(ck, b, n, maxw=25, per_type=1):
    return sample_values(ck, b, n, maxw=maxw, per_type=per_type)


# numbers the compiler accepts, but the format has no room for
NUMBERED = {"NumZero": "field-id-zero", "NumFar": "field-id-range", "Blank": "unit-elements"}


def numbered():
    return [(schema([struct("NumZero", named(field("aa", T("u8"), 0), field("bb", T("u8"), 1))),
                     struct("NumFar", named(field("aa", T("u8"), 2**29), field("bb", opt(T("u8")), 1)))] + blank()), False)]


def blank():
    """Collections whose elements take up no space."""
    return [struct("None0", unit()),
            struct("Blank", named(field("aa", vec(ext("None0"))), field("bb", opt(vec(tup(ext("None0"), ext("None0"))))), field("cc", hmap(T("u8"), ext("None0"))),
                                  field("dd", opt(arr(ext("None0"), 2))), field("ee", vec(vec(ext("None0"))))))]


def number_witness(ck, b):
    for name, fid in NUMBERED.items():
        t = find(b, name)
        v = Val(random.Random(3), b.table.types).decl(t) if name != "Blank" else [[[], []], [], [], [], []]
        q = {"op": "rt", "t": t, "v": v, "tail": []}
        r = b.run([q])[0]
        e = dict(q, **r)
        if "out" in r and r["out"].get("st") not in ("ok", "err"):
            e["out"] = {"st": "bad"}
        if core.judge("WireTrace", "W01", [e], os.path.join(ck.work, fid), extra_env=ck.env):
            ck.finding(fid, "a value of %s does not survive: %s" % (name, json.dumps(r)[:300]), e)


def base(ck, n):
    b = setup(ck, ck.n(5, 14), numbered() if ck.prop == "W01" else ())
    if not b:
        return
    if ck.prop == "W01":
        number_witness(ck, b)
    ev = rt_events(ck, b, n, per_type=ck.n(4, 20), large=ck.n(36, 400))
    verdict(ck, huge_events(ck, b) + ev)
    ck.sample({"type": b.table.rust[ev[0]["t"] - 1], "value": ev[0]["v"], "bytes": ev[0].get("bytes")})
    # the format itself: every value of the sample is recovered by the specified reader
    model(ck, small_cases(ck, b, ck.n(60, 400), per_type=ck.n(0, 1)), "mut" if ck.thorough else "cut", emit=False)
    ck.cov["declared_types"] = len(b.table.types)
    if ck.thorough:
        for rnd in range(6):
            b2 = setup(ck, 14)
            if not b2:
                return
            verdict(ck, rt_events(ck, b2, 12000, per_type=10))


def W01(ck):
    base(ck, ck.n(2500, 20000))


def W02(ck):
    base(ck, ck.n(2500, 20000))


def W03(ck):
    base(ck, ck.n(2500, 20000))


def evolve(rng, sch):
    """A later or earlier version of a schema: the same definitions, changed in ways the format supports
    (and now and then in ways it does not)."""
    import copy
    s = copy.deepcopy(sch)

    def fix(f):
        fs = f["fs"]
        if f["k"] == "unit":
            return
        for x, n in zip(fs, gen.with_ids(fs)):
            x["id"] = [str(n)]
        c = rng.random()
        if len(fs) > 1 and c < 0.7:
            for _ in range(rng.choice([1, 1, 2, len(fs) - 1])):
                if len(fs) > 1:
                    fs.pop(rng.randrange(len(fs)))
        if rng.random() < 0.5:
            used = {int(x["id"][0]) for x in fs}
            for _ in range(rng.choice([1, 2])):
                i = rng.choice([j for j in list(range(1, 12)) + [40, 300, 2**28] if j not in used])
                used.add(i)
                ty = rng.choice([T("u8"), T("string"), vec(T("u16")), T("i64"), T("f64"), tup(T("u8"), T("string"))])
                if rng.random() < 0.8:
                    ty = opt(ty)
                fs.insert(rng.randint(0, len(fs)), dict(field("new%d" % i, ty, i), name="" if f["k"] == "unnamed" else "new%d" % i))
        for x in fs:
            t = x["ty"]
            c = rng.random()
            if c < 0.12 and t["k"] != "opt":
                x["ty"] = opt(t)
            elif c < 0.2 and t["k"] == "opt":
                x["ty"] = t["e"]
            elif c < 0.28 and t["k"] == "arr":
                x["ty"] = arr(t["e"], max(1, int(t["n"]) + rng.choice([-1, 1])))
            if f["k"] == "named" and rng.random() < 0.15:
                x["name"] = x["name"] + "_n"
        if rng.random() < 0.6:
            rng.shuffle(fs)

    def walk(defs):
        for d in defs:
            if d["d"] == "mod":
                walk(d["defs"])
            elif d["d"] == "struct":
                if not d["gen"]:
                    fix(d["fields"])
            elif d["d"] == "enum" and not d["gen"]:
                vs = d["variants"]
                for x, n in zip(vs, gen.with_ids(vs)):
                    x["id"] = [str(n)]
                    fix(x["fields"])
                if len(vs) > 1 and rng.random() < 0.3:
                    vs.pop(rng.randrange(len(vs)))
                if rng.random() < 0.3:
                    n = max(int(x["id"][0]) for x in vs) + 1
                    vs.append(variant("VNew", unnamed(field("", T("u8"))), n))
                rng.shuffle(vs)
    walk(s["defs"])
    return s


def W04(ck):
    rng = ck.rng
    base_s = catalogue()[1:2] + rnd_schemas(rng, ck.n(4, 10))
    pairs = []
    first = len(catalogue()) + 0
    extra = []
    # witness of the recorded deviation
    extra += [(schema([struct("Sub", named(field("aa", T("u8")))), struct("Skp", named(field("aa", ext("Sub")), field("bb", T("u32"))))]), False),
              (schema([struct("Skp", named(field("bb", T("u32"), 2)))]), False)]
    k = 0
    idx = []
    for s, bm in base_s:
        a = len(catalogue()) + len(extra)
        extra.append((s, bm))
        for _ in range(ck.n(2, 4)):
            extra.append((evolve(rng, s), bm))
            idx.append((a, len(catalogue()) + len(extra) - 1))
    b = setup(ck, 0, extra)
    if not b:
        return
    tt = b.table
    w0 = len(catalogue())
    tw, tr = find(b, "Skp", w0), find(b, "Skp", w0 + 1)
    r = b.run([{"op": "rt", "t": tw, "v": [[8], ival(5)], "tail": []}])[0]
    ck.env["DEVSKIP"] = "0"
    if "bytes" in r:
        o = b.run([{"op": "dec", "t": tr, "in": r["bytes"]}])[0]
        if not (o.get("st") == "ok" and o["v"] == [ival(5)]):
            ck.env["DEVSKIP"] = "1"
            ck.finding("unskippable", "a struct-typed field has no length prefix, so a reader that does not know it cannot skip it: %s" % json.dumps(o)[:200],
                       {"writer": "struct Skp { aa: Sub, bb: u32 }", "reader": "struct Skp { bb: u32 @2 }", "bytes": r["bytes"]})
    by = {}
    for i, x in enumerate(tt.info):
        if not x["args"]:
            by.setdefault((x["schema"], x["path"], x["name"]), i + 1)
    pairs = []
    for a, c in idx:
        for (si, path, name), t in list(by.items()):
            if si == a and (c, path, name) in by:
                pairs.append((t, by[(c, path, name)]))
                pairs.append((by[(c, path, name)], t))
    val = Val(rng, tt.types)
    qs, meta = [], []
    while len(qs) < ck.n(2500, 15000):
        w, r = pairs[len(qs) % len(pairs)]
        val.big = n0 = rng.choice(LENGTHS) if rng.random() < 0.02 else 0
        v = val.decl(w)
        val.big, n0 = 0, 0 if val.big else n0
        if weight(v) > 300 + n0:
            v = val.decl(w)
            if weight(v) > 300:
                pairs.append(pairs.pop(rng.randrange(len(pairs))))
                continue
        qs.append({"op": "rt", "t": w, "v": v, "tail": []})
        meta.append((w, r, v))
    rs = b.run(qs)
    ev = []
    ds = b.run([{"op": "dec", "t": r, "in": x.get("bytes", [])} for (w, r, v), x in zip(meta, rs)])
    for (w, r, v), x, d in zip(meta, rs, ds):
        if "bytes" in x:
            ev.append({"op": "ev", "w": w, "r": r, "v": v, "out": norm_out(d)})
    short = find(b, "Short", 1)
    long = [e for e in huge_events(ck, b) if "bytes" in e]
    ds = b.run([{"op": "dec", "t": short, "in": e["bytes"]} for e in long])
    verdict(ck, [{"op": "ev", "w": e["t"], "r": short, "v": e["v"], "out": norm_out(d)} for e, d in zip(long, ds)] + ev)
    ck.sample({"writer": tt.types[ev[0]["w"] - 1], "reader": tt.types[ev[0]["r"] - 1], "value": ev[0]["v"], "outcome": ev[0]["out"]})
    ms = [m for m in model(ck, small_cases(ck, b, ck.n(100, 600)), "mut") if m["k"] in ("same", "changed")]
    if len(ms) > ck.n(5000, 40000):
        ms = rng.sample(ms, ck.n(5000, 40000))
    verdict(ck, decode_events(b, ms))
    ck.cov["pairs"] = len(pairs)
    ck.cov["reordered_or_extended_messages"] = len(ms)


def fuzz_bytes(rng, seeds, n):
    out = []
    for _ in range(n):
        c = rng.random()
        if c < 0.2:
            t = rng.choice(seeds)[0]
            out.append((t, [rng.choice([0, 1, 2, 8, 9, 16, 17, 127, 128, 255, rng.randint(0, 255)]) for _ in range(rng.randint(0, 24))]))
            continue
        t, b = rng.choice(seeds)
        b = list(b)
        if c < 0.3:
            t = rng.choice(seeds)[0]        # another type's message
        for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
            m = rng.random()
            if not b or m < 0.15:
                b.insert(rng.randint(0, len(b)), rng.choice([0, 1, 127, 128, 255]))
            elif m < 0.55:
                b[rng.randrange(len(b))] = rng.choice([0, 1, 2, 3, 7, 8, 9, 10, 127, 128, 200, 255])
            elif m < 0.7:
                del b[rng.randrange(len(b))]
            elif m < 0.8:
                i = rng.randrange(len(b))
                b[i:i + 1] = rng.choice([[255] * 9 + [1], [255] * 4 + [15], [128] * 8, [255] * 19, [255, 255, 255, 255, 7], [128, 128, 128, 128, 128, 128, 128, 128, 64]])
            elif m < 0.9:
                b = b[:rng.randrange(len(b))]
            else:
                i = rng.randrange(len(b))
                b[i:i] = b[i:i + rng.randint(1, 6)]
        out.append((t, b[:400]))
    return out


def seeds_of(ck, b, n):
    ev = rt_events(ck, b, n, tail=False, per_type=2, maxw=120)
    return [(e["t"], e["bytes"]) for e in ev if "bytes" in e and e["size"] == len(e["bytes"])]


def nested(depth):
    """A message of the type `Tree` that goes that deep, and whose innermost value is not there."""
    heads, n = [], 1
    for _ in range(depth):
        heads.append([8, 0, 17] + (wire.digits(n) or [0]))
        heads[-1] = heads[-1][:3] + [x + 128 for x in heads[-1][3:-1]] + heads[-1][-1:]
        n += len(heads[-1]) + 1
    return [x for h in reversed(heads) for x in h] + [0] * (depth + 1)


def W05(ck):
    b = setup(ck, ck.n(5, 14), [(schema(blank()), False)])
    if not b:
        return
    seeds = seeds_of(ck, b, ck.n(600, 3000))
    fz = fuzz_bytes(ck.rng, seeds, ck.n(6000, 60000))
    # collections that claim more space than their elements take up
    t = find(b, "Blank")
    fz += [(t, [f, n] + [ck.rng.choice([0, 1, 2, 9, 17, 25, 33, 41]) for _ in range(ck.rng.randint(n, 12))]) for f in (9, 17, 25, 33, 41) for n in (0, 1, 2, 3, 5) for _ in range(3)]
    # and a message that goes as deep as its type allows
    fz += [(find(b, "Tree"), nested(n)) for n in (1, 2, 20, 100)]
    r = b.run([{"op": "dec", "t": find(b, "Tree"), "in": nested(100000)}])[0]
    if r.get("st") != "err":
        ck.finding("deep-message", "a message nested 100000 times ends the decoder: %s" % json.dumps(r)[:100], {"type": "Tree", "depth": 100000})
    rs = b.run([{"op": "dec", "t": t, "in": x} for t, x in fz])
    ev = [{"op": "dec", "t": t, "in": x, "cut": False, "out": norm_out(r)} for (t, x), r in zip(fz, rs)]
    # truncations: every length of the smaller messages, as the model's writer crashes
    ms = model(ck, small_cases(ck, b, ck.n(120, 800)), "cut")
    cut = [(m["t"], m["b"]) for m in ms]
    for t, x in ck.rng.sample(seeds, min(len(seeds), ck.n(200, 1500))):
        for _ in range(6):
            if x:
                cut.append((t, x[:ck.rng.randrange(len(x))]))
    big = [(e["t"], e["bytes"]) for e in rt_events(ck, b, 0, tail=False, per_type=0, large=ck.n(10, 60)) if "bytes" in e and e["size"] == len(e["bytes"])]
    for t, x in big:
        cut += [(t, x[:k]) for k in (len(x) - 1, len(x) // 2, len(x) - 200, ck.rng.randrange(len(x)))]
    rs = b.run([{"op": "dec", "t": t, "in": x} for t, x in cut])
    ev += [{"op": "dec", "t": t, "in": x, "cut": True, "out": norm_out(r)} for (t, x), r in zip(cut, rs)]
    # the same through a buffer in pieces
    fr = [(t, x, sorted(ck.rng.randint(0, len(x)) for _ in range(4))) for t, x in ck.rng.sample(fz, ck.n(1500, 10000))]
    rs = b.run([{"op": "dec", "t": t, "in": x, "cuts": c} for t, x, c in fr])
    ev += [{"op": "dec", "t": t, "in": x, "cut": False, "out": norm_out(r)} for (t, x, c), r in zip(fr, rs)]
    ck.sample({"type": b.table.rust[fz[0][0] - 1], "bytes": fz[0][1], "outcome": ev[0]["out"]})
    verdict(ck, ev)
    ck.cov["truncations"] = len(cut)


def W06(ck):
    b = setup(ck, ck.n(5, 14))
    if not b:
        return
    ms = [m for m in model(ck, small_cases(ck, b, ck.n(180, 1200), per_type=ck.n(1, 4)), "mut") if m["k"] not in ("same", "changed")]
    kinds = {}
    for m in ms:
        kinds.setdefault(m["k"], []).append(m)
    pick = []
    for k, xs in kinds.items():
        pick += xs if len(xs) < ck.n(1500, 12000) else ck.rng.sample(xs, ck.n(1500, 12000))
    ck.cov["faults"] = {k: len(x) for k, x in kinds.items()}
    for k in ("missing", "variant", "zero", "utf8", "enc", "count"):
        if k not in kinds:
            raise Broken("no message with fault " + k)
    ev = decode_events(b, pick)
    seeds = seeds_of(ck, b, ck.n(400, 3000))
    fz = fuzz_bytes(ck.rng, seeds, ck.n(2500, 30000))
    ev += decode_events(b, [{"t": t, "b": x} for t, x in fz])
    ck.sample({"type": b.table.rust[ev[0]["t"] - 1], "fault": ev[0]["k"], "bytes": ev[0]["in"], "outcome": ev[0]["out"]})
    verdict(ck, ev)


def W07(ck):
    rng = ck.rng
    sch = Server([core.sch_bin()])
    ck.bundle = None
    qs = []
    for k, bits in wire.INTBITS.items():
        lo, hi = (0, 2**bits - 1) if k[0] == "u" else (-2**(bits - 1), 2**(bits - 1) - 1)
        vals = {lo, hi}
        if bits == 16:
            vals |= set(range(lo, hi + 1)) if ck.thorough else set(range(lo, hi + 1, 7))
        for e in range(bits + 1):
            for d in (-2, -1, 0, 1, 2):
                for s in (1, -1):
                    vals.add(s * (1 << e) + d)
                    vals.add(s * ((1 << e) * 3 // 2) + d)
        for _ in range(ck.n(400, 6000)):
            vals.add(rng.randint(lo, hi) >> rng.randint(0, bits))
        for v in sorted(vals):
            if lo <= v <= hi:
                qs.append({"op": "varint", "ty": k, "v": str(v)})
    dq = []
    mx = {"u16": 3, "u32": 5, "u64": 10, "u128": 19}
    for k in wire.INTBITS:
        m = mx["u" + k[1:]]
        seqs = [[]]
        seqs += [[a] for a in range(256)]
        seqs += [[a, c] for a in range(0, 256, ck.n(7, 1)) for c in list(range(0, 256, ck.n(11, 3))) + [255, 127, 128]]
        for n in range(1, m + 3):
            for last in (0, 1, 2, 3, 4, 7, 15, 16, 63, 64, 127, 128, 255):
                for fill in (128, 255, 129):
                    seqs.append([fill] * (n - 1) + [last])
                    seqs.append([fill] * (n - 1) + [last, 1, 2])
        for _ in range(ck.n(300, 5000)):
            n = rng.randint(1, m + 2)
            seqs.append([rng.randint(128, 255) for _ in range(n - 1)] + [rng.randint(0, 255)])
        dq += [{"op": "varint", "ty": k, "bytes": s} for s in seqs]
    rs = sch.pipeline(qs + dq)
    sch.stop()

    def num(o):
        return {"st": "ok", "v": ival(int(o["v"])), "n": o["n"]} if "v" in o else {"st": "err"} if "err" in o else {"st": "bad"}
    ev = []
    for q, r in zip(qs + dq, rs):
        if "v" in q:
            if "bytes" not in r:
                r = {"bytes": [], "size": -1, "wbytes": [], "wsize": -1, "info": json.dumps(r)[:100]}
            ev.append(dict(op="int", k=q["ty"], v=ival(int(q["v"])), **{x: r[x] for x in ("bytes", "size", "wbytes", "wsize")}))
        else:
            bad = {"st": "bad"}
            ev.append({"op": "decint", "k": q["ty"], "in": q["bytes"], "raw": num(r["raw"]) if "raw" in r else bad, "buf": num(r["buf"]) if "buf" in r else bad})
    types = os.path.join(ck.work, "types.json")
    core.write_json(types, [])
    ck.env = {"TYPES": types, "DEV": "0", "DEVSKIP": "0"}
    ck.sample(ev[5])
    rej = core.judge("WireTrace", "W07", ev, ck.work, extra_env=ck.env)
    ck.traces += len(ev)
    for i, why in rej:
        ck.violate("%s: %s" % (why, json.dumps(ev[i])[:400]), ev[i])
    rc, out = core.tlc("MCVarint", "SPECIFICATION Spec\nINVARIANTS Minimal Inverse SmallStaysSmall NoEnd\nCONSTANT Bits = %d\n" % ck.n(11, 16), ck.work)
    if rc:
        raise Broken("MCVarint:\n" + out[-3000:])
    # every integer width through generated code and fragmented buffers is part of W08


def W08(ck):
    b = setup(ck, ck.n(5, 14))
    if not b:
        return
    rng = ck.rng
    ev = []
    nt = len(b.table.types)
    vals = sample_values(ck, b, ck.n(1200, 9000), maxw=120, per_type=3)
    vals += large_values(ck, b, ck.n(12, 80))
    rng.shuffle(vals)
    i = 0
    while i < len(vals):
        k = rng.randint(1, 6)
        msgs = vals[i:i + k]
        i += k
        qs = [{"op": "new"}] + [{"op": "put", "t": t, "v": v} for t, v in msgs]
        rs = b.run(qs)[1:]
        if not all("bytes" in r for r in rs):
            ev.append({"op": "stream", "msgs": [{"t": t, "v": v, "bytes": r.get("bytes", [])} for (t, v), r in zip(msgs, rs)],
                       "outs": [[{"st": "bad"}] * len(msgs)]})
            continue
        total = sum(len(r["bytes"]) for r in rs)
        cuts = [[], list(range(1, total)) if total < 2000 else list(range(1, 100)) + list(range(100, total, 99))] + [sorted(rng.randint(0, total) for _ in range(rng.choice([1, 1, 2, 5]))) for _ in range(5)]
        if total <= 60:
            cuts += [[c] for c in range(1, total, ck.n(2, 1))]
        takes = b.run([{"op": "open", "cuts": cuts}] + [{"op": "take", "t": t} for t, v in msgs])[1:]
        outs = [[norm_out(takes[j][c]) if isinstance(takes[j], list) else {"st": "bad"} for j in range(len(msgs))] for c in range(len(cuts))]
        ev.append({"op": "stream", "msgs": [{"t": t, "v": v, "bytes": r["bytes"]} for (t, v), r in zip(msgs, rs)], "outs": outs})
    ck.sample({"messages": len(ev[0]["msgs"]), "cuts": len(ev[0]["outs"]), "first": ev[0]["msgs"][0]})
    # damaged messages behave the same however they are cut
    seeds = seeds_of(ck, b, ck.n(300, 2000))
    fz = fuzz_bytes(rng, seeds, ck.n(800, 8000))
    whole = b.run([{"op": "dec", "t": t, "in": x} for t, x in fz])
    cs, qs = [], []
    for t, x in fz:
        c = [[], list(range(1, len(x)))] + [sorted(rng.randint(0, len(x)) for _ in range(rng.choice([1, 2, 4]))) for _ in range(3)]
        cs.append(c)
        qs += [{"op": "dec", "t": t, "in": x, "cuts": y} for y in c]
    rs = b.run(qs)
    j = 0
    for (t, x), w, c in zip(fz, whole, cs):
        ev.append({"op": "pieces", "t": t, "in": x, "whole": norm_out(w), "outs": [norm_out(r) for r in rs[j:j + len(c)]], "loose": True})
        j += len(c)
    for e in ev:
        if e["op"] == "stream":
            e["t"] = 0
    verdict(ck, ev)
