"""G01: the Go packages a schema stands for."""
import json, os, struct, subprocess
from . import core, gen, tree
from .c_checks import server

KEYWORD_FIELDS = ["func", "range", "var", "go", "default", "map", "select", "switch", "case", "interface"]
KEYWORD_MODS = ["func", "range", "go", "map", "select", "defer", "chan"]


class Dump:
    """Reads Go source with the parser of the Go distribution."""

    def __init__(self):
        d = os.path.join(core.VERIF, "harness", "godump")
        self.bin = os.path.join(core.BUILD, "godump")
        env = dict(os.environ, GOFLAGS="", GOTOOLCHAIN="local", GOPROXY="off", GOCACHE=os.path.join(core.BUILD, "gocache"), CGO_ENABLED="0",
                   GO111MODULE="on", GOWORK="off")
        p = subprocess.run(["go", "build", "-o", self.bin, "."], cwd=d, env=env, capture_output=True, text=True)
        if p.returncode:
            raise core.Broken("cannot build the Go reader:\n" + p.stderr[-3000:])

    def read(self, sources):
        p = subprocess.run([self.bin], input="".join(json.dumps(s) + "\n" for s in sources), capture_output=True, text=True)
        out = [json.loads(x) for x in p.stdout.splitlines()]
        if p.returncode or len(out) != len(sources):
            raise core.Broken("the Go reader failed: " + p.stderr[-2000:])
        return out


def literal(ty, v):
    if v["k"] == "num":
        try:
            if ty in ("float32", "float64"):
                return {"k": "float", "v": struct.pack(">d", float(v["v"])).hex()}
            return {"k": "int", "v": str(int(v["v"], 0))}
        except ValueError:
            return {"k": "?", "v": v["v"]}
    return v


def sources(o):
    return [o["content"]] + [s for m in o["mods"] for s in sources(m)]


def package(o, parsed):
    """The tree of packages; parsed: what the files contain, in the order of sources()."""
    p = parsed.pop(0)
    if "err" in p:
        p = {"package": "?" + p["err"], "doc": [], "imports": [], "decls": []}
    for d in p["decls"]:
        if d["d"] in ("const", "var"):
            d["val"] = literal(d["ty"], d["val"])
    return {"name": o["name"], "package": p["package"], "doc": p["doc"], "imports": p["imports"], "decls": p["decls"],
            "mods": [package(m, parsed) for m in o["mods"]]}


def to_spec(x):
    """Like tree.to_spec, with comments and literals."""
    def strip(y):
        if isinstance(y, list):
            return [strip(z) for z in y]
        if isinstance(y, dict):
            return {k: strip(v) for k, v in y.items() if k not in ("attrs", "wire")}
        return y
    return tree.map_ids(strip(x), tree._to)


def events(srv, dump, cases):
    """cases: (tag, package, schema)"""
    qs = [{"op": "go", "text": gen.text(s, gen.Tidy()), "package": p} for _, p, s in cases]
    ans = srv.pipeline(qs)
    src = [sources(a["go"]) if "go" in a else [] for a in ans]
    parsed = dump.read([x for s in src for x in s])
    out = []
    for (tag, name, s), a, one in zip(cases, ans, src):
        mine, parsed = parsed[:len(one)], parsed[len(one):]
        if "go" in a:
            o = package(a["go"], mine)
        else:
            o = {"name": "?" + json.dumps(a)[:200], "package": "", "doc": [], "imports": [], "decls": [], "mods": []}
        out.append({"tag": tag, "without": "", "name": name, "comment": [], "defs": to_spec(s["defs"]), "out": o})
    return qs, ans, out


# ------------------------------------------------------------------ what to generate

def limits(t):
    """Only types the generator is meant to support."""
    if isinstance(t, dict):
        if t.get("k") == "arr":
            t["n"] = str(min(32, max(1, int(t["n"]))))
        for v in t.values():
            limits(v)
    elif isinstance(t, list):
        for v in t:
            limits(v)


def restyle(r, schemas):
    """Other names: of all the shapes that identifiers may have."""
    new, n = {}, [0]

    def fresh(stems):
        n[0] += 1
        return r.choice(stems) + str(n[0])
    types = ["A", "AB", "ABc", "AbC", "A1b", "XMLHttp", "X9Y", "HTTPServerX", "Plain", "U8", "JsonV2"]
    consts = ["A", "A_B", "X1_Y", "B__C", "MAX", "LIMIT_1_X", "Q_"]
    mods = ["a", "a_b", "a__b", "x1_y", "a_1b", "inner", "n_"]

    def comment():
        return [r.choice(gen.WORDS) for _ in range(gen.seldom(r, r.choice([0, 0, 0, 1, 2]), 6, 30, 0.03))]

    def fields(f):
        k = 0
        for x in f["fs"]:
            k += 1
            x["comment"] = comment() if f["k"] == "named" else []
            if f["k"] == "named":
                x["name"] = r.choice(mods + ["b2b_", "z"]) + str(k)
        if f["k"] == "named" and f["fs"] and r.random() < 0.2:
            r.choice(f["fs"])["name"] = r.choice(KEYWORD_FIELDS)

    def names(d):
        k = d["d"]
        if k == "mod":
            n[0] += 1
            new[d["name"]] = r.choice(KEYWORD_MODS) if r.random() < 0.1 and d["name"] not in new else r.choice(mods) + str(n[0])
            if new[d["name"]] in list(new.values())[:-1]:
                new[d["name"]] = r.choice(mods) + str(n[0])
            for x in d["defs"]:
                names(x)
        elif k == "const":
            new[d["name"]] = fresh(consts)
        elif k != "use":
            new[d["name"]] = fresh(types)
            if k == "struct":
                fields(d["fields"])
            if k == "enum":
                for i, v in enumerate(d["variants"]):
                    v["name"] = r.choice(types) + str(i)
                    v["comment"] = comment()
                    fields(v["fields"])

    def rename(x):
        if isinstance(x, list):
            for y in x:
                rename(y)
        elif isinstance(x, dict):
            if "d" in x:
                if x["d"] == "use":
                    x["segs"] = [x["segs"][0]] + [new[s] for s in x["segs"][1:]]
                    x["elem"] = [new[s] for s in x["elem"]]
                else:
                    x["name"] = new[x["name"]]
            if x.get("k") == "ext":
                x["name"] = new.get(x["name"], x["name"])
                x["path"] = [new.get(s, s) for s in x["path"]]
            if x.get("k") == "str":
                x["v"] = "".join(c for c in x["v"] if c not in "\x01\0")
            for v in x.values():
                rename(v)
    for _, s in schemas:
        for d in s["defs"]:
            names(d)
    for _, s in schemas:
        rename(s["defs"])
        limits(s["defs"])
    return schemas


def every_type(ck):
    rc, o = core.tlc("MCTypes", "SPECIFICATION Spec\nINVARIANT Laws\n", os.path.join(ck.work, "types"),
                     env={"BYTES": "0", "DEPTH": "3" if ck.thorough else "2"})
    if rc:
        raise core.Broken("the type model violates its laws:\n" + o[-3000:])
    ts = [json.loads(x) for x in sorted({s[5:] for s in core.printed(o) if s.startswith("CASE ")})]
    lim = ck.n(1500, 12000)
    if len(ts) > lim:
        small = [t for t in ts if len(json.dumps(t)) < 40]
        ts = small + ck.rng.sample(ts, lim - len(small))
    ck.rng.shuffle(ts)
    ck.cov["enumerated_types"] = len(ts)
    out = []
    for j in range(0, len(ts), 8):
        g = ts[j:j + 8]
        c = (j // 8) % 5
        if c == 0:
            d = [gen.struct("S", gen.named(*[gen.field("f%d" % i, t) for i, t in enumerate(g)]))]
        elif c == 1:
            d = [gen.struct("S", gen.unnamed(*[gen.field("", t) for t in g]))]
        elif c == 2:
            d = [gen.enum("E", [gen.variant("V%d" % i, gen.named(gen.field("x", t))) for i, t in enumerate(g)])]
        elif c == 3:
            d = [gen.enum("E", [gen.variant("V%d" % i, gen.unnamed(gen.field("", t), gen.field("", gen.T("bool")))) for i, t in enumerate(g)])]
        else:
            d = [gen.alias("A%d" % i, t) for i, t in enumerate(g)]
        out.append(("type", "pack", gen.schema([gen.mod("m", d)])))
    return out


def generic_types(ck):
    """Every type that uses a generic in some position."""
    rc, o = core.tlc("MCTypes", "SPECIFICATION Spec\nINVARIANT Laws\n", os.path.join(ck.work, "generic"), env={"BYTES": "0", "DEPTH": "3" if ck.thorough else "2", "GENERIC": "1"})
    if rc:
        raise core.Broken("the type model violates its laws:\n" + o[-3000:])
    ts = [json.loads(x) for x in sorted({s[5:] for s in core.printed(o) if s.startswith("CASE ")})]
    ck.cov["enumerated_generic_types"] = len(ts)
    return ts


def rename(t, old, new):
    if isinstance(t, list):
        return [rename(x, old, new) for x in t]
    if isinstance(t, dict):
        return {k: new if k == "name" and v == old else rename(v, old, new) for k, v in t.items()}
    return t


def every_generic(ck):
    """Generics used in one position only, by all or one of the variants of an enum."""
    out = []
    ts = generic_types(ck)
    pair = gen.struct("Pair", gen.unnamed(gen.field("", gen.ext("A")), gen.field("", gen.ext("B"))), ["A", "B"])
    for i, t in enumerate(ts):
        u = rename(ts[(i * 7 + 3) % len(ts)], "T", "U")
        c = i % 3
        one, two = (gen.unnamed(gen.field("", t)), gen.named(gen.field("x", gen.T("u8")), gen.field("y", u))) if c else (gen.named(gen.field("x", t), gen.field("y", u)), gen.unit())
        d = gen.enum("E", [gen.variant("V", one), gen.variant("W", two), gen.variant("N", gen.unit())], ["T", "U"])
        e = gen.struct("S", gen.named(gen.field("x", t), gen.field("y", u)) if c == 1 else gen.unnamed(gen.field("", u), gen.field("", t)), ["T", "U"]) if c < 2 else gen.alias("X", t, ["T"])
        out.append(("generic", "pack", gen.schema([pair, d, e])))
    return out


UNPRINTABLE = "\0\x01\x07\x7f\x85\xa0\u2028\ufeff"    # known deviation of the Go generator: string-escape


def every_const(ck, skip=""):
    return [("const", "pack", gen.schema(ds)) for ds in gen.every_const(ck.rng, skip)]


def every_name(ck):
    rc, o = core.tlc("MCGo", "CONSTANT Dev = {}\nSPECIFICATION Spec\nINVARIANTS Laws Emit\n", os.path.join(ck.work, "names"), env={"DEPTH": "5" if ck.thorough else "4"})
    if rc:
        raise core.Broken("the model of names violates its laws:\n" + o[-3000:])
    cases = [json.loads(s[5:]) for s in sorted(set(core.printed(o))) if s.startswith("CASE ")]
    cases = [c for c in cases if c["kind"] != "mixed" and (c["kind"] == "lower") == c["s"][0].islower()]
    ck.cov["enumerated_names"] = len(cases)
    ck.rng.shuffle(cases)
    out, batch, seen, packs = [], {"lower": [], "type": [], "upper": []}, set(), set()

    def flush():
        low = [c["s"] for c in batch["lower"]]
        defs = [gen.struct(c["s"], gen.named(*[gen.field(x, gen.T("u8")) for x in low[i::7][:6]]) if low[i::7] else gen.unit()) for i, c in enumerate(batch["type"])]
        defs += [gen.const(c["s"], gen.T("u8"), {"k": "int", "v": "1"}) for c in batch["upper"]]
        defs += [gen.mod(x, [gen.alias("X", gen.ext("Y", [], [x]))]) for x in low]
        if defs:
            out.append(("name", low[0] if low else "p", gen.schema(defs)))
        for b in batch.values():
            b.clear()
        seen.clear()
        packs.clear()
    for c in cases:
        k = "upper" if c["kind"] == "type" and c["s"].isupper() and ck.rng.random() < 0.5 else c["kind"]
        key = c["camel"]
        if k == "lower" and (c["camel"] in packs) or k != "lower" and key in seen:
            flush()
        (packs if k == "lower" else seen).add(key)
        batch[k].append(c)
        if sum(map(len, batch.values())) >= 30:
            flush()
    flush()
    return out


def F(ty, name=""):
    return gen.field(name, ty, "1")


WITNESSES = {
    "go-optional": gen.schema([gen.struct("A", gen.named(F(gen.opt(gen.T("u8")), "x")))]),
    "enum-encode-nil": gen.schema([gen.enum("A", [gen.variant("B", gen.unit(), "1")])]),
    "end-marker": gen.schema([gen.struct("A", gen.unnamed(F(gen.T("u8"))))]),
    "tuple-code": gen.schema([gen.struct("A", gen.unnamed(F(gen.tup(gen.T("u8"), gen.T("u8")))))]),
    "external-code": gen.schema([gen.struct("A", gen.unnamed(F(gen.T("u8")))), gen.struct("B", gen.unnamed(F(gen.ext("A"))))]),
    "imports": gen.schema([gen.struct("A", gen.unnamed(F(gen.T("u128"))))]),
    "string-escape": gen.schema([gen.const("A", gen.T("string"), {"k": "str", "v": "\x01"})]),
    "name-clash": gen.schema([gen.struct("AB", gen.unit()), gen.struct("Ab", gen.unit())]),
}


def judge(ck, ev, name):
    return core.judge("GoTrace", "G01", ev, os.path.join(ck.work, name), consts="CONSTANT Dev <- Deviations")


def G01(ck):
    dump = Dump()
    srv = server(ck)
    cases = every_type(ck) + every_generic(ck) + every_const(ck, UNPRINTABLE) + every_name(ck)
    for i in range(ck.n(250, 3000)):
        g = gen.CodeGen(ck.rng)
        for n, s in restyle(ck.rng, g.project(ck.rng.choice([1, 1, 2, 3]))):
            cases.append(("gen", n, s))
    qs, ans, ev = events(srv, dump, cases)
    rej = judge(ck, ev, "judge")
    ck.traces += len(ev)
    for i, tag in rej[:20]:
        ck.violate(f"the Go code of this schema is not the one it stands for: {qs[i]['text'][:600]!r}",
                   {"schema": qs[i]["text"], "package": qs[i]["package"], "answer": ans[i]})
    for i in range(0, len(ev), max(1, len(ev) // 3)):
        ck.sample({"schema": qs[i]["text"], "packages": len(sources(ans[i]["go"])) if "go" in ans[i] else 0})
    q, a, e = events(srv, dump, [(fid, "w", s) for fid, s in WITNESSES.items()])
    for x in e:
        x["without"] = x["tag"]
    for i, fid in judge(ck, e, "witnesses"):
        ck.finding(fid, "Go code of " + repr(q[i]["text"]), {"text": q[i]["text"], "answer": a[i]})
    ck.cov["schemas"] = len(ev)
    srv.stop()
