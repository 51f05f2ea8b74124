"""Compiler: numbering, validation, resolution, code generation.  Collects behaviour; Schema judges it."""
import json, os, random
from . import core, gen, tree, wire


def server(ck):
    return core.Server([core.sch_bin()])


LAWS = "INVARIANT NumberLaw\nINVARIANT ImplicitLaw\nINVARIANT SuggestLaw\nINVARIANT WrapLaw\nPROPERTY Monotone\n"


def enumerate_schemas(ck, themes, limit=None):
    """Every schema TLC reaches in the given themes, deduplicated."""
    out = []
    for th in themes:
        rc, o = core.tlc("MCSchema", "SPECIFICATION Spec\n" + LAWS, os.path.join(ck.work, "mc-" + th),
                         env={"THEME": th, "DEEP": "1" if ck.thorough else "0"})
        if rc:
            raise core.Broken("the schema model violates its laws:\n" + o[-4000:])
        seen = sorted({s[5:] for s in core.printed(o) if s.startswith("CASE ")})
        if limit and len(seen) > limit:
            seen = random.Random(ck.seed).sample(seen, limit)
        ck.cov["enumerated_" + th] = len(seen)
        out += [(th, gen.schema(tree.from_spec(json.loads(s)))) for s in seen]
    return out


def random_schemas(ck, n, **kw):
    out = []
    for i in range(n):
        g = gen.SynGen(ck.rng, comments=ck.rng.random() < 0.3, attrs=ck.rng.random() < 0.2, depth=ck.rng.choice([1, 2, 3]), **kw)
        out.append(("random", g.schema(valid=ck.rng.random() < 0.35, n=ck.rng.choice([1, 2, 3, 5, 8]))))
    return out


def crowded(ck, n):
    """Long definitions with mostly implicit numbers and the odd explicit one."""
    out = []
    r = ck.rng
    for _ in range(n):
        k = r.randint(5, 60)
        ids = [[]] * k
        for _ in range(r.randint(0, 4)):
            i = r.randrange(k)
            ids = ids[:i] + [[str(r.choice([0, 1, 2, k // 2, k, 126, 127, 128, 16383, 2**28, 2**32 - 3, 2**32 - 1, r.randint(1, 70)]))]] + ids[i + 1:]
        c = r.random()
        if c < 0.4:
            f = gen.named(*[dict(gen.field(f"f{i}", gen.T("u8")), id=x) for i, x in enumerate(ids)])
            d = gen.struct("S", f)
        elif c < 0.6:
            d = gen.struct("S", gen.unnamed(*[dict(gen.field("", gen.T("u8")), id=x) for x in ids]))
        elif c < 0.8:
            d = gen.enum("E", [dict(gen.variant(f"V{i}", gen.unit()), id=x) for i, x in enumerate(ids)])
        else:
            d = gen.enum("E", [gen.variant("A", gen.unnamed(*[dict(gen.field("", gen.T("u8")), id=x) for x in ids])),
                               gen.variant("B", gen.named(gen.field("x", gen.T("u8"))))])
        for _ in range(r.randint(0, 2)):
            d = gen.mod(r.choice(["m", "n"]), [d])
        out.append(("crowded", gen.schema([d])))
    return out


def populous(ck, n):
    """Many names, long or alike, with hardly any twice."""
    out = []
    r = ck.rng
    for i in range(n):
        k = r.randint(5, 60)
        stem = "n" + "".join(r.choice("abxyz_019") for _ in range(r.choice([0, 3, 20, 60])))
        ns = [stem + str(j) for j in range(k)]
        if r.random() < 0.7:
            a, b = r.sample(range(k), 2)
            ns[b] = ns[a]
        ts = [n.capitalize().replace("_", "u") for n in ns]
        unit = gen.unit()
        c = i % 5
        if c == 0:
            ds = [gen.struct("S", gen.named(*[gen.field(n, gen.T("u8")) for n in ns]))]
        elif c == 1:
            ds = [gen.enum("E", [gen.variant(n, unit if r.random() < 0.7 else gen.unnamed(gen.field("", gen.T("u8")))) for n in ts])]
        elif c == 2:
            ds = [gen.enum("E", [gen.variant("V", gen.named(*[gen.field(n, gen.T("u8")) for n in ns])), gen.variant("W", unit)])]
        elif c == 3:
            ds = [gen.struct("S", gen.unnamed(*[gen.field("", gen.ext(n)) for n in sorted(set(ts))]), ts)]
        else:
            ds = []
            for n, t in zip(ns, ts):
                m = r.randrange(6)
                segs = [r.choice(["p", "q", "s", stem + "1"]) for _ in range(r.randint(0, 7))]
                ds.append(gen.struct(t, unit) if m == 0 else gen.enum(t, [gen.variant("V", unit)]) if m == 1 else gen.alias(t, gen.T("u8")) if m == 2 else gen.mod(n, []) if m == 3
                          else gen.use(segs + [n]) if m == 4 else gen.use(segs + ["p"], [t]))
        for _ in range(r.randint(0, 2)):
            ds = [gen.mod(r.choice(["m", "n"]), ds)]
        out.append(("populous", gen.schema(ds)))
    return out


def layouts(ck):
    i = 0
    while True:
        i += 1
        yield gen.Tidy() if i % 2 else gen.Rnd(random.Random(f"{ck.seed}-{i}"), 0.4)


def record(ck, srv, cases, op="validate"):
    """Replay schemas; returns events for the specification and the texts."""
    lay = layouts(ck)
    texts, trees = [], []
    for _, s in cases:
        t, p = gen.positions(s, next(lay))
        texts.append(t)
        trees.append(p)
    outs = srv.pipeline([{"op": op, "text": t} for t in texts])
    ev = []
    for (tag, _), t, p, o in zip(cases, texts, trees, outs):
        if op == "validate":
            v = o.get("verr")
            if v:
                b = t.encode()
                for k in ("a", "b"):
                    if k in v:
                        v["s" + k] = b[v[k][0]:v[k][1]].decode("utf8", "replace")
                o = {"verr": tree.map_ids(v, tree._to)}
            elif "ok" in o:
                o = {"ok": 1}
            else:
                o = {"broken": json.dumps(o)[:300]}
        else:
            o = {"defs": tree.to_spec(o["defs"])} if "defs" in o and "panic" not in json.dumps(o) else {"broken": json.dumps(o)[:300]}
        ev.append({"op": op, "tag": tag, "defs": tree.to_spec(p["defs"]), "out": o})
    return ev, texts


def verdicts(ck, prop, ev, texts):
    rej = core.judge("SchemaTrace", prop, ev, os.path.join(ck.work, "judge"))
    ck.traces += len(ev)
    for i, tag in rej[:50]:
        ck.violate(f"{tag} schema: {json.dumps(ev[i]['out'])[:200]} for {texts[i][:300]!r}", {"text": texts[i], "out": ev[i]["out"], "op": ev[i]["op"]})
    kinds = {}
    for e in ev:
        k = e["op"] + ":" + ("ok" if "ok" in e["out"] or "defs" in e["out"] else e["out"].get("verr", {}).get("k", "broken"))
        kinds[k] = kinds.get(k, 0) + 1
    ck.cov["outcomes"] = kinds
    for e, t in zip(ev[::max(1, len(ev) // 3)], texts[::max(1, len(ev) // 3)]):
        ck.sample({"text": t, "out": e["out"]})


def C01(ck):
    srv = server(ck)
    cases = enumerate_schemas(ck, ["ids"], ck.n(3000, 60000)) + crowded(ck, ck.n(250, 2500)) + random_schemas(ck, ck.n(400, 6000))
    ev, tx = record(ck, srv, cases, "simplify")
    ev2, tx2 = record(ck, srv, cases, "validate")
    srv.stop()
    verdicts(ck, "C01", ev + ev2, tx + tx2)


def C02(ck):
    srv = server(ck)
    cases = enumerate_schemas(ck, ["ids"], ck.n(3000, 60000)) + crowded(ck, ck.n(400, 4000)) + random_schemas(ck, ck.n(1500, 15000))
    ev, tx = record(ck, srv, cases)
    srv.stop()
    verdicts(ck, "C02", ev, tx)


def C03(ck):
    srv = server(ck)
    cases = enumerate_schemas(ck, ["names"], ck.n(4000, 60000)) + populous(ck, ck.n(400, 4000)) + random_schemas(ck, ck.n(2000, 15000), ids=False)
    ev, tx = record(ck, srv, cases)
    srv.stop()
    verdicts(ck, "C03", ev, tx)


def C04(ck):
    srv = server(ck)
    cases = enumerate_schemas(ck, ["generics", "tuples"], ck.n(5000, 60000)) + random_schemas(ck, ck.n(1500, 15000), ids=False)
    ev, tx = record(ck, srv, cases)
    srv.stop()
    verdicts(ck, "C04", ev, tx)


def M02(ck):
    srv = server(ck)
    cases = enumerate_schemas(ck, ["ids"], ck.n(3000, 60000)) + crowded(ck, ck.n(400, 4000)) + random_schemas(ck, ck.n(800, 8000))
    ev, tx = record(ck, srv, cases, "simplify")
    srv.stop()
    verdicts(ck, "M02", ev, tx)


# ------------------------------------------------------------------ references

class WorldGen:
    """Sets of schemas with modules, imports and references, most of which lead somewhere."""

    def __init__(self, r):
        self.r = r

    def world(self):
        r = self.r
        names = r.sample(["main", "other", "third", "base", "m"], r.randint(1, 4))
        self.schemas = []
        self.deep = r.random() < 0.2
        for n in names:
            self.schemas.append([n, self.defs(7 if self.deep else 2)])
        self.targets = [(s, p, d) for s, ds in self.schemas for p, d in self.walk(ds, [])]
        for s, ds in self.schemas:
            self.fill(s, ds, [], [])
        return [{"name": s, "defs": ds} for s, ds in self.schemas]

    def walk(self, ds, path):
        for d in ds:
            if d["d"] == "mod":
                yield path, d
                yield from self.walk(d["defs"], path + [d["name"]])
            elif d["d"] != "use":
                yield path, d

    def defs(self, depth):
        r = self.r
        out, used = [], set()
        for i in range(r.randint(1, 3 if self.deep else 4)):
            c = r.random()
            n = r.choice(["A", "B", "Cc", "D", "T"])
            if c < (0.25 if not self.deep else 0.95 if i == 0 else 0.1) and depth > 0:
                n = r.choice(["m", "n", "other", "k"] + ["main", "base"] * self.deep)
                if n not in used:
                    out.append(gen.mod(n, self.defs(depth - 1)))
            elif n in used:
                continue
            elif c < 0.65:
                out.append(gen.struct(n, gen.unit(), r.choice([[], [], ["T"], ["K", "V"]] if r.random() < 0.9 else [["A1", "B1", "C1"], ["K", "V", "W", "X", "Y", "Z"]])))
            elif c < 0.85:
                out.append(gen.enum(n, [gen.variant("V", gen.unit())], r.choice([[], [], ["T"]])))
            elif c < 0.93:
                out.append(gen.alias(n, gen.T("u8")))
            else:
                out.append(gen.const(n.upper(), gen.T("u8"), {"k": "int", "v": "1"}))
            used.add(n)
        return out

    def fill(self, schema, ds, path, names):
        """Imports and fields of one module."""
        r = self.r
        uses = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            s, p, d = r.choice(self.targets)
            if r.random() < 0.02:
                s = r.choice(["nowhere", "m", "main", s])
            if r.random() < 0.02:
                p = p[:-1] + [r.choice(["m", "n", "k"])]
            if d["d"] == "mod":
                u = gen.use([s] + p + [d["name"]])
            elif r.random() < 0.5:
                u = gen.use([s] + p)
            elif d["d"] in ("struct", "enum") or r.random() < 0.04:
                u = gen.use([s] + p, [d["name"]])
            else:
                continue
            if len(u["segs"]) == 1 and not u["elem"] and u["segs"][0] == schema:
                continue
            nm = u["elem"][0] if u["elem"] else u["segs"][-1]
            if nm in [x.get("name") for x in ds] + [y["elem"][0] if y["elem"] else y["segs"][-1] for y in uses]:
                continue
            uses.append(u)
        scope = uses + names
        for d in list(ds):
            if d["d"] == "mod":
                self.fill(schema, d["defs"], path + [d["name"]], scope)
            elif d["d"] in ("struct", "enum"):
                tys = [self.ref(schema, ds, d, scope) for _ in range(r.randint(1, 2))] + [gen.ext(g) for g in d["gen"]]
                f = gen.unnamed(*[gen.field("", t) for t in tys])
                if d["d"] == "struct":
                    d["fields"] = f
                else:
                    d["variants"][0]["fields"] = f
        ds[:0] = uses

    def ref(self, schema, ds, d, scope, depth=1):
        r = self.r
        c = r.random()
        if c < 0.3:
            t = gen.T("u8")
        elif c < 0.65:
            p, x = r.choice(list(self.walk(ds, [])))
            t = self.make(p, x, schema, ds, d, scope, depth)
        elif scope:
            u = r.choice(scope)
            if u["elem"]:
                cand = [x for s, p, x in self.targets if x["d"] != "mod" and x["name"] == u["elem"][0] and [s] + p == u["segs"]]
                t = self.make([], cand[0], schema, ds, d, scope, depth) if cand else gen.T("u32")
            else:
                cand = [(p, x) for s, p, x in self.targets if x["d"] != "mod" and ([s] + p)[:len(u["segs"])] == u["segs"]]
                if cand:
                    p, x = r.choice(cand)
                    t = self.make([u["segs"][-1]] + p[len(u["segs"]) - 1:], x, schema, ds, d, scope, depth)
                else:
                    t = gen.ext("A", [], [u["segs"][-1]]) if r.random() < 0.1 else gen.T("i8")
        else:
            t = gen.ext(r.choice(["A", "B", "T"]), [], r.choice([[], ["m"], ["other"]])) if r.random() < 0.05 else gen.T("bool")
        return r.choice([t, t, t, gen.vec(t), gen.opt(t), gen.hmap(gen.T("u8"), t), gen.tup(gen.T("u8"), t), gen.arr(t, 2)])

    def make(self, path, x, schema, ds, d, scope, depth):
        r = self.r
        n = len(x.get("gen", []))
        if r.random() < 0.02:
            n += r.choice([-1, 1])
        if r.random() < 0.02:
            path = path + ["m"]
        if x["d"] == "mod":
            if r.random() < 0.9:
                return gen.T("u16")
            return gen.ext(r.choice(["A", "B"]), [], path + [x["name"]])
        if x["d"] in ("alias", "const") and r.random() < 0.95:
            return gen.T("u8")
        ts = [self.ref(schema, ds, d, scope, depth - 1) if depth > 0 else gen.T("u8") for _ in range(max(0, n))]
        return gen.ext(x["name"], ts, path)


def deep_worlds():
    """Chains of modules reached by every kind of path, right or wrong in one place."""
    out = []
    for depth in range(1, 8):
        for names in ([f"m{i}" for i in range(depth)], ["m"] * depth, ["other"] * depth, ["main"] * depth, (["other", "m", "main"] * 3)[:depth]):
            paths = [(names, True)] + [(names[:i] + names[i + 1:], False) for i in range(depth)] + [(names[:i] + ["zz"] + names[i + 1:], False) for i in range(depth)] + [(names + [names[-1]], False)]

            def chain():
                d = [gen.struct("A", gen.unit())]
                for i, n in reversed(list(enumerate(names))):
                    d = [gen.mod(n, d)] + ([gen.enum("A", [gen.variant("V", gen.unnamed(gen.field("", gen.ext("G"))))], ["G"])] if i % 2 else [])
                return d
            for p, _ in paths:
                use = lambda t: gen.struct("Use", gen.unnamed(gen.field("", t)))
                # the path itself, in the same schema
                out.append([{"name": "main", "defs": chain() + [use(gen.ext("A", [], p))]}])
                # an import of a module on the way, and the rest of the path
                for j in {0, 1, len(p) // 2, len(p)}:
                    u = ["other"] + p[:j]
                    out.append([{"name": "main", "defs": [gen.use(u), use(gen.ext("A", [], [u[-1]] + p[j:]))]}, {"name": "other", "defs": chain()}])
                # an import of the definition
                out.append([{"name": "other", "defs": chain()}, {"name": "main", "defs": [gen.use(["other"] + p, ["A"]), use(gen.ext("A"))]}])
    # many parameters and many imports
    for n in range(1, 9):
        gs = [f"G{i}" for i in range(n)]
        for k in range(n + 1):
            out.append([{"name": "main", "defs": [gen.struct("A", gen.unnamed(*[gen.field("", gen.ext(g)) for g in gs]), gs),
                                                  gen.struct("B", gen.unnamed(gen.field("", gen.ext("A", [gen.T("u8")] * n)), gen.field("", gen.ext("A", [gen.T("u8")] * k)) if k else gen.field("", gen.T("u8"))))]}])
        sch = [{"name": f"s{i}", "defs": [gen.struct(f"D{i}", gen.unit())]} for i in range(n)]
        us = [gen.use([f"s{i}"]) for i in range(n)]
        out.append([{"name": "main", "defs": us + [gen.struct("B", gen.unnamed(*[gen.field("", gen.ext(f"D{i}", [], [f"s{i}"])) for i in range(n)]))]}] + sch)
        out.append(sch + [{"name": "main", "defs": us + [gen.mod("m", [gen.mod("n", [gen.struct("B", gen.unnamed(*[gen.field("", gen.ext(f"D{i}", [], [f"s{i}"])) for i in range(n)]))])])]}])
        out.append(sch + [{"name": "main", "defs": us[:-1] + [gen.struct("B", gen.unnamed(gen.field("", gen.ext(f"D{n - 1}", [], [f"s{n - 1}"]))))]}])
    return out


def resolve_laws():
    return "SPECIFICATION Spec\nINVARIANT OrderLaw\nINVARIANT ImportLaw\nINVARIANT SomewhereLaw\nPROPERTY MoreImports\n"


def C05(ck):
    rc, o = core.tlc("MCResolve", resolve_laws(), os.path.join(ck.work, "mc"), env={"DEEP": "1" if ck.thorough else "0"})
    if rc:
        raise core.Broken("the resolution model violates its laws:\n" + o[-4000:])
    seen = sorted({s[5:] for s in core.printed(o) if s.startswith("CASE ")})
    # as many that resolve as that do not, as far as there are enough
    lim = ck.n(2200, 30000)
    r = random.Random(ck.seed)
    by = {v: [s.split(" ", 1)[1] for s in seen if s.startswith(v)] for v in ("ok", "bad", "open")}
    ck.cov["model_worlds"] = {v: len(x) for v, x in by.items()}
    seen = [s for x in by.values() for s in (x if len(x) <= lim else r.sample(x, lim))]
    worlds = [("model", [{"name": w["name"], "defs": tree.from_spec(w["defs"])} for w in json.loads(s)]) for s in seen]
    ck.cov["enumerated_worlds"] = len(worlds)
    dw = deep_worlds()
    worlds += [("deep", w) for w in (dw if ck.thorough else random.Random(ck.seed).sample(dw, min(len(dw), 900)))]
    ck.cov["deep_worlds"] = len(dw)
    wg = WorldGen(ck.rng)
    worlds += [("random", wg.world()) for _ in range(ck.n(1500, 15000))]
    srv = server(ck)
    qs = [{"op": "resolve", "files": [{"name": w["name"], "text": gen.text(gen.schema(w["defs"]), gen.Tidy())} for w in ws]} for _, ws in worlds]
    outs = srv.pipeline(qs)
    srv.stop()
    ev, tx, kinds = [], [], {}
    for (tag, ws), q, o in zip(worlds, qs, outs):
        k = "ok" if "ok" in o else o.get("rerr") or ("verr" if "verr" in o else "broken")
        kinds[k] = kinds.get(k, 0) + 1
        if k == "verr":
            continue
        o = {"ok": 1} if k == "ok" else {"rerr": k} if "rerr" in o and o["rendered"].get("ok") is True else {"broken": json.dumps(o)[:300]}
        ev.append({"op": "resolve", "tag": tag, "world": [{"name": w["name"], "defs": tree.to_spec(w["defs"])} for w in ws], "out": o})
        tx.append(q["files"])
    ck.cov["outcomes"] = kinds
    rej = core.judge("SchemaTrace", "C05", ev, os.path.join(ck.work, "judge"))
    ck.traces += len(ev)
    for i, tag in rej[:50]:
        ck.violate(f"{tag} schemas: {json.dumps(ev[i]['out'])[:200]} for {json.dumps(tx[i])[:500]}", {"files": tx[i], "out": ev[i]["out"]})
    for i in range(0, len(ev), max(1, len(ev) // 3)):
        ck.sample({"files": tx[i], "out": ev[i]["out"]})


# ------------------------------------------------------------------ generated code

def build_projects(ck, srv, projects, name):
    """projects: (schemas, bytes_mode).  Builds each through mabo-build, then compiles all results.
    Returns per project: build answer, out dir, compiles."""
    import shutil
    root = os.path.join(ck.work, name)
    shutil.rmtree(root, ignore_errors=True)
    res = []
    lib = []
    for i, (schemas, bm) in enumerate(projects):
        d, out = os.path.join(root, f"p{i}"), os.path.join(root, f"o{i}")
        os.makedirs(os.path.join(d, "src"))
        os.makedirs(out)
        with open(os.path.join(d, "Mabo.toml"), "w") as f:
            f.write('[package]\nname = "p"\nfiles = ["src/*.mabo"]\n')
        for n, s in schemas:
            with open(os.path.join(d, "src", n + ".mabo"), "w", newline="") as f:
                f.write(gen.text(s, gen.Tidy()) if isinstance(s, dict) else s)
        a = srv.ask({"op": "build", "dir": d, "out": out, "bytes": bm}, timeout=60)
        items = {}
        if a == {"ok": 1}:
            lib.append(f"pub mod p{i} {{")
            for n, _ in schemas:
                p = os.path.join(out, "mabo", n + ".rs")
                items[n] = srv.ask({"op": "items", "file": p}) if os.path.exists(p) else {"syn": "no output"}
                if os.path.exists(p):
                    lib.append(f'    pub mod {n} {{ include!("{p}"); }}')
            lib.append("}")
        res.append({"answer": a, "items": items, "compiles": a == {"ok": 1}})
    with open(os.path.join(root, "lib.rs"), "w") as f:
        f.write("\n".join(lib) + "\n")
    r = core.sh(["cargo", "check", "--offline", "--locked"], cwd=os.path.join(core.VERIF, "harness", "gen"),
                env={"VF_GEN": root, "CARGO_TARGET_DIR": core.TARGET}, timeout=800)
    errs = {}
    if r.returncode:
        import re
        if "could not compile `gen`" not in r.stderr:
            raise core.Broken("runtime does not build:\n" + r.stderr[-3000:])
        msg = ""
        for line in r.stderr.splitlines():
            if line.startswith("error"):
                msg = line
            m = re.search(r"--> .*/o(\d+)/mabo/", line)
            if m and msg:
                errs.setdefault(int(m.group(1)), msg)
                msg = ""
        if not errs:
            raise core.Broken("generated code fails without a place:\n" + r.stderr[-3000:])
    for i, e in errs.items():
        res[i]["compiles"] = False
        res[i]["error"] = e
    return res


WITNESSES = {
    "prelude-names": "struct Encode {\n    a: u8,\n}\n",
    "recursive": "struct A {\n    a: option<A>,\n}\n",
    "alias-unused": "type A<T> = u8;\n",
    "const-value": "const A: u8 = \"a\";\n",
    "const-type": "const A: vec<u8> = 1;\n",
    "comment-direction": "/// right \u202e to left\nstruct A\n",
    "nz-type": "struct A(non_zero<bool>)\n",
    "generic-argument": "struct G<T> {\n    a: T,\n}\nstruct A(G<(u8, u16)>)\n",
    "hash-key": "struct A<T>(hash_map<T, u8>)\n",
}


def every_type(ck):
    """Schemas that use every documented type up to a depth, as fields of all kinds, targets of aliases."""
    out = []
    for bm in (False, True):
        rc, o = core.tlc("MCTypes", "SPECIFICATION Spec\nINVARIANT Laws\n", os.path.join(ck.work, "types%d" % bm),
                         env={"BYTES": "1" if bm else "0", "DEPTH": "3" if ck.thorough else "2"})
        if rc:
            raise core.Broken("the type model violates its laws:\n" + o[-3000:])
        ts = [json.loads(x) for x in sorted({s[5:] for s in core.printed(o) if s.startswith("CASE ")})]
        lim = ck.n(1100, 9000)
        if len(ts) > lim:
            small = [t for t in ts if len(json.dumps(t)) < 40]
            ts = small + ck.rng.sample(ts, lim - len(small))
        ck.rng.shuffle(ts)
        ck.cov["types" + ("_bytes" if bm else "")] = len(ts)
        base = [gen.struct("Plain", gen.named(gen.field("x", gen.T("u8")))),
                gen.struct("Pair", gen.named(gen.field("a", gen.ext("T")), gen.field("b", gen.ext("K"))), ["T", "K"])]
        per = 150
        for k in range(0, len(ts), per):
            defs = list(base)
            for j in range(k, min(k + per, len(ts)), 10):
                g = ts[j:j + 10]
                c = (j // 10) % 4
                if c == 0:
                    defs.append(gen.struct("S%d" % j, gen.named(*[gen.field("f%d" % i, t) for i, t in enumerate(g)])))
                elif c == 1:
                    defs.append(gen.struct("S%d" % j, gen.unnamed(*[gen.field("", t) for t in g])))
                elif c == 2:
                    defs.append(gen.enum("E%d" % j, [gen.variant("V%d" % i, gen.named(gen.field("x", t))) for i, t in enumerate(g)]))
                else:
                    defs.append(gen.enum("E%d" % j, [gen.variant("V%d" % i, gen.unnamed(gen.field("", t), gen.field("", gen.T("bool")))) for i, t in enumerate(g)]))
                if c == 3:
                    defs += [gen.alias("A%d" % (j + i), t) for i, t in enumerate(g[:3])]
            out.append(([("types", gen.schema(defs))], bm))
        out.append(([("consts", gen.schema([gen.mod("m%d" % i, ds) for i, ds in enumerate(gen.every_const(ck.rng))]))], bm))
        words = sorted(wire.KEYWORDS) + ["crate", "self", "super", "union", "id", "r", "w", "v", "k", "value", "size", "buf", "std", "mabo"]
        fs = [gen.field(w, [gen.T("u32"), gen.opt(gen.T("string")), gen.vec(gen.T("u8")), gen.T("bool")][i % 4]) for i, w in enumerate(words)]
        out.append(([("words", gen.schema([gen.struct("S%d" % i, gen.named(*fs[i:i + 10])) for i in range(0, len(fs), 10)]
                                          + [gen.enum("E", [gen.variant("V%d" % i, gen.named(*fs[i:i + 10])) for i in range(0, len(fs), 10)])]
                                          + [gen.mod(w, [gen.struct("A", gen.unit())]) for w in words]
                                          + [gen.struct("Use", gen.unnamed(*[gen.field("", gen.ext("A", [], [w])) for w in words]))]))], bm))
        # the same with a generic in the place of a declared type
        out.append(([("generic", gen.schema(base + every_generic(ck, [t for t in ts if '"Plain"' in json.dumps(t)])))], bm))
    return out


def every_generic(ck, ts):
    def rename(t, new):
        if isinstance(t, list):
            return [rename(x, new) for x in t]
        if isinstance(t, dict):
            return {k: new if v == "Plain" else rename(v, new) for k, v in t.items()}
        return t
    lim = ck.n(150, 700)
    ts = ts if len(ts) <= lim else ck.rng.sample(ts, lim)
    out = []
    for i, t in enumerate(ts):
        a, b = rename(t, "A"), rename(ts[(7 * i + 3) % len(ts)], "B")
        c = i % 5
        both = gen.named(gen.field("x", a), gen.field("y", b)) if i % 2 else gen.unnamed(gen.field("", b), gen.field("", a))
        if c < 2:
            d = gen.struct("G%d" % i, both, ["A", "B"])
        elif c == 2:
            d = gen.enum("G%d" % i, [gen.variant("V", gen.unnamed(gen.field("", a))), gen.variant("N", gen.unit()), gen.variant("W", gen.named(gen.field("y", b), gen.field("z", gen.T("u8"))))], ["A", "B"])
        elif c == 3:
            d = gen.enum("G%d" % i, [gen.variant("N", gen.unit()), gen.variant("V", both)], ["A", "B"])
        else:
            d = gen.alias("G%d" % i, a, ["A"])
        out.append(d)
    return out


def C06(ck):
    srv = server(ck)
    projects = every_type(ck)
    for i in range(ck.n(40, 400)):
        g = gen.CodeGen(ck.rng, bytes_mode=i % 3 == 2)
        projects.append((g.project(ck.rng.choice([1, 2, 3])), g.bytes_mode))
    res = build_projects(ck, srv, projects, "code")
    ev, tx = [], []
    for (schemas, bm), r in zip(projects, res):
        files = [(n, gen.text(s, gen.Tidy())) for n, s in schemas]
        for n, s in schemas:
            out = r["items"].get(n, {"broken": json.dumps(r["answer"])[:300]})
            ev.append({"op": "gen", "tag": "gen", "b": bm, "defs": tree.to_spec(s["defs"], lits=True), "compiles": r["compiles"], "out": out})
            tx.append({"files": files, "schema": n, "bytes": bm, "error": r.get("error", ""), "answer": r["answer"]})
    rej = core.judge("SchemaTrace", "C06", ev, os.path.join(ck.work, "judge"))
    ck.traces += len(ev)
    for i, tag in rej[:20]:
        ck.violate(f"generated code of schema {tx[i]['schema']}: {tx[i]['error'] or tx[i]['answer']} compiles={ev[i]['compiles']}", tx[i])
    for i in range(0, len(ev), max(1, len(ev) // 3)):
        ck.sample({"schema": dict(tx[i]["files"])[tx[i]["schema"]], "compiles": ev[i]["compiles"]})
    ck.cov["projects"] = len(projects)
    # listed deviations: replayed, so that they are reported exactly as long as they exist
    for fid, text in WITNESSES.items():
        w = build_projects(ck, srv, [([("w", text)], False)], "witness-" + fid)[0]
        if not w["compiles"]:
            ck.finding(fid, f"{text!r}: {w.get('error') or json.dumps(w['answer'])[:200]}", {"text": text})
    srv.stop()
