"""Parser and formatter.  Collects behaviour; Syntax (by way of SyntaxTrace) judges it."""
import copy, json, os, random, re, string
from concurrent.futures import ThreadPoolExecutor
from . import core, gen

NAMED = ("name", "comment", "path", "segs", "elem", "gen", "n")


def server():
    return core.Server([core.sch_bin()])


# ------------------------------------------------------------------ trees as the specification sees them

def enc(s):
    return list(s.encode())


def lit(x):
    k, v = x["k"], x["v"]
    if k == "bool":
        v = [1 if v == "true" else 0]
    elif k == "int":
        v = [1 if v[0] == "-" else 0] + enc(v.lstrip("-"))
    elif k == "bytes":
        v = list(bytes.fromhex(v))
    else:
        v = enc(v)
    return {"k": k, "v": v}


def syn(x):
    """Text as bytes, literals as values."""
    if isinstance(x, list):
        return [syn(y) for y in x]
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if k == "lit":
                out[k] = lit(v)
            elif k == "id":
                out[k] = [enc(i) for i in v]
            elif k in NAMED:
                out[k] = enc(v) if isinstance(v, str) else [enc(i) for i in v]
            else:
                out[k] = syn(v)
        return out
    return x


FLOAT = re.compile(rb"[+-]?[0-9]+\.[0-9]+(?:[eE][+-]?[0-9]+)?")


def floats(*texts):
    """What the environment says about the decimal numbers in the texts."""
    import struct as st
    out = []
    for m in sorted({m for t in texts for m in FLOAT.findall(t.encode())}):
        f = float(m)
        if f not in (float("inf"), float("-inf")):
            out.append({"t": list(m), "v": enc(st.pack(">d", f).hex())})
    return out


AT = re.compile(r"at offset (\d+)")


def outcome(r):
    if "ast" in r:
        return {"ast": syn(r["ast"]), "ranges": [list(x) for x in r["spans"]]}
    if "err" in r:
        ls = [[l[0], l[1]] for l in r["err"]["labels"]] + [[int(x), 0] for x in AT.findall(r["err"]["msg"])]
        if not r.get("rendered", {}).get("ok"):
            return {"broken": "the report cannot be rendered"}
        return {"labels": ls}
    return {"broken": str(r)[:100]}


def parse_event(text, r, tree=None, tag="-"):
    return {"op": "parse", "text": enc(text), "floats": floats(text), "tree": [] if tree is None else [syn(tree)], "out": outcome(r), "tag": tag}


# ------------------------------------------------------------------ texts

THEMES = ("types", "fields", "defs", "lits")


def enumerated(ck, themes=THEMES, limit=None):
    """Texts enumerated by TLC: [tree, text, ranges, base, kind] of the specification."""
    deep = "1" if ck.thorough else "0"

    def one(th):
        rc, out = core.tlc("MCSyntax", "SPECIFICATION Spec\nINVARIANTS Emit Sane Bounded\n", os.path.join(ck.work, "mc-" + th),
                           env={"THEME": th, "DEEP": deep}, workers=4 if ck.thorough else 2)
        if rc:
            raise core.Broken("the syntax model violates its laws:\n" + out[-3000:])
        return [s[5:] for s in core.printed(out) if s.startswith("TEXT ")]
    with ThreadPoolExecutor(2 if ck.thorough else 4) as ex:
        parts = list(ex.map(one, themes))
    res, seen = [], {}
    for th, ls in zip(themes, parts):
        ls = sorted(set(ls))
        if limit and len(ls) > limit:
            ls = random.Random(ck.seed).sample(ls, limit)
        ck.cov["enumerated_" + th] = len(ls)
        for s in ls:
            x = json.loads(s)
            key = bytes(x["text"])
            if key in seen and seen[key] != x["tree"]:
                raise core.Broken(f"two schemas share the text {key}")
            seen[key] = x["tree"]
            res.append(x)
    return res


def spell(r, x):
    """Another way to write a literal."""
    k, v = x["k"], x["v"]
    if k == "int":
        return r.choice([v, ("+" + v) if v[0] != "-" else v])
    if k == "float":
        s = gen.lit_src(x)
        if r.random() < 0.5:
            return s
        m = re.match(r"([+-]?)(\d+)\.(\d+)(?:e([+-]?\d+))?$", s)
        sg, a, b, e = m.groups()
        e = int(e or 0)
        c = r.random()
        if c < 0.4:
            return f"{sg}{a}.{b}{'0' * r.randint(0, 2)}{r.choice('eE')}{r.choice(['', '+']) if e >= 0 else ''}{e}"
        return f"{sg or '+'}{a}.{b}" + (f"e{e}" if e else "")
    if k == "str":
        out = []
        names = {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\b": "\\b", "\f": "\\f", "\0": "\\0", "/": "\\/"}
        for c, nx in zip(v, v[1:] + "x"):
            q = r.random()
            if q < 0.2:
                out.append("\\u{%s}" % ("%x" % ord(c)).zfill(r.choice([1, 4, 6])).upper() if q < 0.1 else "\\u{%x}" % ord(c))
            elif c in names and q < 0.6:
                out.append(names[c])
            elif c in "\"\\":
                out.append("\\" + c)
            else:
                out.append(c)
            if r.random() < 0.05 and nx not in " \t\r\n":
                out.append("\\" + r.choice([" ", "\n", "\n   \t", "\r\n"]) * gen.seldom(r, 1, 8, 60, 0.1))
        return '"' + "".join(out) + '"'
    if k == "bytes":
        bs = list(bytes.fromhex(v))
        w = lambda: r.choice(["", "", " ", "\n", "\t "])  # noqa: E731
        return "[" + ",".join(w() + str(b) + w() for b in bs) + ("," + w() if r.random() < 0.3 else "") + "]"
    return v


def respell(r, s):
    """Literals of a tree in some spelling."""
    def go(x):
        if isinstance(x, list):
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for k, v in x.items():
                if k == "lit":
                    v["src"] = spell(r, v)
                else:
                    go(v)
    s = copy.deepcopy(s)
    go(s)
    return s


class Same(gen.Rnd):
    """Random white space, but the same optional commas for the same tree."""

    def __init__(self, rng, seed, wild=0.5):
        super().__init__(rng, wild)
        self.t = random.Random(seed)

    def trail(self):
        return self.t.random() < 0.5


def random_trees(ck, n, **kw):
    r = ck.rng
    for _ in range(n):
        g = gen.SynGen(r, comments=r.random() < 0.6, attrs=r.random() < 0.5, depth=r.choice([1, 2, 3]), **kw)
        yield respell(r, g.schema(valid=r.random() < 0.3))


def bare(x):
    """Without the spellings."""
    if isinstance(x, list):
        return [bare(y) for y in x]
    if isinstance(x, dict):
        return {k: bare(v) for k, v in x.items() if k != "src"}
    return x


def random_texts(ck, n):
    out = []
    for i, s in enumerate(random_trees(ck, n)):
        lay = gen.Tidy() if i % 4 == 0 else gen.Rnd(random.Random(f"{ck.seed}-{ck.prop}-{i}"), ck.rng.choice([0.2, 0.5, 0.9]))
        out.append((bare(s), gen.text(s, lay)))
    return out


def ask_parse(srv, texts):
    return srv.pipeline([{"op": "parse", "text": t} for t in texts])


def judged(ck, evs, texts, what):
    """Let the specification judge the events; report what it rejects."""
    rej = core.judge("SyntaxTrace", ck.prop, evs, os.path.join(ck.work, "judge"), chunk=20)
    ck.traces += len(evs)
    for i, tag in rej:
        if tag.startswith("finding:"):
            ck.finding(tag[8:], what(evs[i]), {"text": texts[i], "out": evs[i]["out"]})
        else:
            ck.violate(what(evs[i]), {"text": texts[i], "event": evs[i]})
    return rej


def show(bs, n=200):
    return repr(bytes(bs).decode("utf8", "replace"))[:n]


# ------------------------------------------------------------------ F03, F05

LOST = [("import-comment", {"comment": [], "defs": [dict(gen.use(["a"]), comment=["x"])]}, "/// x\nuse a;\n"),
        ("attributes-dropped", {"comment": [], "defs": [dict(gen.alias("A", gen.T("u8")), attrs=[{"name": "x", "v": {"k": "unit"}}])]},
         "#[x]\ntype A = u8;\n")]


def F03(ck):
    srv = server()
    # every text the model has, against the schema it denotes
    cases = enumerated(ck)
    texts = [bytes(x["text"]).decode() for x in cases]
    for x, t, r in zip(cases, texts, ask_parse(srv, texts)):
        o = outcome(r)
        if o.get("ast") != x["tree"]:
            ck.violate(f"the text {t!r} does not parse to the schema it denotes", {"text": t, "expected": x["tree"], "got": r})
    ck.traces += len(cases)
    # random schemas in random layouts
    rt = random_texts(ck, ck.n(1600, 12000))
    texts = [t for _, t in rt]
    evs = [parse_event(t, r, s) for (s, t), r in zip(rt, ask_parse(srv, texts))]
    for fid, s, t in LOST:
        evs.append(parse_event(t, srv.ask({"op": "parse", "text": t}), s, "finding:" + fid))
        texts.append(t)
    ck.sample({"text": rt[0][1]})
    judged(ck, evs, texts, lambda e: f"the text {show(e['text'])} does not parse to the schema it denotes")
    ck.cov["random_texts"] = len(rt)
    ck.assumptions.append("decimal numbers are converted to binary ones as Python does")


def F05(ck):
    srv = server()
    cases = enumerated(ck)
    texts = [bytes(x["text"]).decode() for x in cases]
    for x, t, r in zip(cases, texts, ask_parse(srv, texts)):
        o = outcome(r)
        if "ast" in o and {tuple(y) for y in o["ranges"]} != {tuple(y) for y in x["ranges"]}:
            a, b = {tuple(y) for y in o["ranges"]}, {tuple(y) for y in x["ranges"]}
            ck.violate(f"in the text {t!r} these ranges are recorded but wrong: {sorted(a - b)}, these are missing: {sorted(b - a)}",
                       {"text": t, "recorded": sorted(a - b), "missing": sorted(b - a)})
    ck.traces += len(cases)
    rt = random_texts(ck, ck.n(1200, 9000))
    # characters of several bytes everywhere in front
    rt += [(s, "/// " + "".join(ck.rng.choice("aé€\U0001F600") for _ in range(5)) + "\n\n" + t) for s, t in rt[:200] if not s["comment"]]
    texts = [t for _, t in rt]
    evs = [parse_event(t, r) for (s, t), r in zip(rt, ask_parse(srv, texts))]
    judged(ck, evs, texts, lambda e: f"a range recorded for {show(e['text'])} is not the one of the element")


# ------------------------------------------------------------------ F04

TOKENS = ["struct", "enum", "mod", "use", "type", "const", "///", "\n", " ", "{", "}", "(", ")", "<", ">", "[", "]", ",", ";", ":", "::", "@", "=", "#[",
          "\"", "\\", "u8", "vec", "option", "A", "a", "1", "-", "1.5", "é", "\0", "\t", "\r", "&", "box<string>", "true", "\U0001F600", "@1", "\\u{", "99999999999"]


RELATIVE = "type B = u8;\n\nconst A: string = \"a" + "é" * 20 + "\\x\";\n"


def mutate(r, t):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        n = len(t)
        c = r.random()
        i = r.randint(0, n)
        if c < 0.3 and n:
            i = r.randrange(n)
            t = t[:i] + t[i + 1:]
        elif c < 0.55:
            t = t[:i] + r.choice(TOKENS) + t[i:]
        elif c < 0.75 and n:
            i = r.randrange(n)
            t = t[:i] + r.choice(TOKENS + list(string.printable)) + t[i + 1:]
        elif c < 0.85:
            t = t[:i]
        elif c < 0.93 and n:
            j = r.randint(i, min(n, i + 12))
            t = t[:i] + t[j:]
        elif n:
            j = r.randint(i, min(n, i + 12))
            k = r.randint(0, n)
            t = t[:k] + t[i:j] + t[k:]
    return t


def texts_at_random(r):
    c = r.random()
    if c < 0.5:
        return "".join(r.choice(TOKENS) + r.choice(["", " ", "\n"]) for _ in range(r.randint(0, 12)))
    if c < 0.8:
        return "".join(chr(r.choice([r.randint(0, 127), r.randint(0, 0x2ff), r.randint(0x1F300, 0x1F64F)])) for _ in range(r.randint(0, 30)))
    return "struct A { a: " + "".join(r.choice(TOKENS) for _ in range(r.randint(1, 6))) + " }"


BAD = ["struct", "struct ", "struct a", "struct a(u8)", "struct A {", "struct A { a }", "struct A { a: }", "struct A { a: u8", "struct A { A: u8 }",
       "struct A(u8 @)", "struct A(u8 @x)", "struct A(u8 @-1)", "struct A(u8 @4294967296)", "struct A(foo)", "struct A(u9)", "struct A(vec)",
       "struct A(vec<>)", "struct A([u8])", "struct A([u8; x])", "struct A([u8; 4294967296])", "struct A()", "struct A {}", "struct A<>(u8)",
       "enum A", "enum A {", "enum a { A }", "enum A { a }", "enum A {}", "enum A { A B }", "type a = u8;", "type A = u8", "type A u8;",
       "const a: u8 = 1;", "const A: u8 = ;", "const A: u8 = 1", "const A: u8 = 1.;", "const A: u8 = .5;", "const A: f64 = 1.5e;", "const A: string = \"a;",
       "const A: string = \"\\x\";", "const A: string = \"\\u{110000}\";", "const A: string = \"\\u{d800}\";", "const A: string = \"\\u{}\";",
       "const A: bytes = [];", "const A: bytes = [256];", "const A: bytes = [1", "const A: bool = TRUE;", "const A: u8 = &1;",
       "const A: i128 = 170141183460469231731687303715884105728;", "const A: f64 = 1.0e999;", "use", "use a", "use A;", "use a::;", "use a::b::C::d;", "use a,b;",
       "mod A {}", "mod a", "mod a {", "mod a }", "foo", "}", "struct A(u8) }", "#[a]", "#[a] struct A", "#[]\nstruct A\n", "/// x", "#[A]\nstruct A\n",
       "structA", "struct\nA", "struct A(u8 u8)", "struct A(u8,,u8)", "struct A(,u8)", "struct A(u8)struct", "struct A { a: u8 b: u8 }", "struct A(u8 @1 @2)",
       "struct A { a: &u8 }", "struct A(box<u8>)", "struct A(hash_map<u8>)", "struct A(hash_map<u8, u8, u8>)", "struct A(vec<u8, u8>)", "struct A(a::b)"]

# every kind of mistake at every kind of place, and a few that are none
MISTAKES = [
    "#[a = foo]\nstruct A\n", "#[a = 99999999999999999999999999999999999999999]\nstruct A\n", "#[a = 1_]\nstruct A\n", "#[a = &1]\nstruct A\n",
    "#[a = &\"x\"]\nstruct A\n", "#[a(b = &1)]\nstruct A\n", "const A: u8 = &1;\n", "const A: u8 = 99999999999999999999999999999999999999999;\n",
    "const A: u8 = 1_;\n", "const A: f32 = 1.;\n", "const A: f32 = 1e;\n", "const A: u8 = 0x;\n", "const A: bytes = [300];\n",
    "const A: bytes = [&1];\n", "const A: bytes = [99999999999999999999999999999999999999999];\n", "const A: string = \"\\q\";\n",
    "const A: string = \"\\u{110000}\";\n", "const A: u8 = -;\n", "const A: u8 = foo;\n", "struct A { a: u8 @x }\n",
    "struct A { a: u8 @99999999999 }\n", "struct A { a: u8 @ }\n", "struct A { a: u8 @-1 }\n", "enum E { A @x }\n", "enum E { A @99999999999 }\n",
    "enum E { A { a: u8 @y } }\n", "struct A(u8 @x)\n", "struct A { a: () }\n", "struct A { a: (u8) }\n",
    "struct A { a: (u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,u8) }\n", "struct A { a: [u8; x] }\n", "struct A { a: [u8; 99999999999] }\n",
    "struct A { a: [u8; -1] }\n", "struct A { a: vec<> }\n", "struct A { a: &u8 }\n", "struct A { a: foo }\n", "struct A { a: m::b }\n",
    "struct A { a: M::b }\n", "struct A { a: B< }\n", "struct a\n", "struct A<t>\n", "struct A<>(u8)\n", "struct A<T(u8)\n", "enum e { A }\n",
    "enum E { a }\n", "enum E { A(u8 }\n", "enum E A\n", "mod M {}\n", "mod m { struct a }\n", "mod m struct A\n", "mod m { struct A\n",
    "const a: u8 = 1;\n", "const A u8 = 1;\n", "const A: u8 1;\n", "const A: u8 = 1\n", "const A: zz = 1;\n", "type a = u8;\n", "type A u8;\n",
    "type A = zz;\n", "type A = u8\n", "type A<x> = u8;\n", "use ;\n", "use A;\n", "use a::;\n", "use a::b\n", "use a::B::c;\n", "use 1;\n", "/// x",
    "/// x\n", "// x\nstruct A\n", "/// a\n/// b", "#[a]\n", "#[a]", "#[]\nstruct A\n", "#[A]\nstruct A\n", "#[a,]\nstruct A\n", "#[a(]\nstruct A\n",
    "#[a=]\nstruct A\n", "#[a = \"x]\nstruct A\n", "struct", "struct ", "struct A { 1: u8 }\n", "struct A { A: u8 }\n", "struct A { a u8 }\n",
    "struct A { a: u8, , }\n", "struct A { a: u8 b: u8 }\n", "struct A { a: u8 }; \n", "foo A\n", "struct A(,)\n", "struct A()\n", "enum E {}\n",
    "enum E { A, , }\n", "enum E { /// x\n }\n", "struct A { /// x\n }\n", "mod m { /// x\n }\n", "/// \u0001\nstruct A\n", "///\nstruct A\n",
    "struct A { /// x\r }\n", "struct A { a: u8 @0x }\n", "struct A { a: u8 @1_000_ }\n", "struct A { a: u8 @0xff }\n"]


def F04(ck):
    srv = server()
    r = ck.rng
    base = [t for _, t in random_texts(ck, ck.n(300, 1500))]
    small = [bytes(x["text"]).decode() for x in enumerated(ck, limit=ck.n(150, 1500))]
    texts = BAD + MISTAKES
    # every single removal, and every truncation, of small ones
    for t in r.sample(small, min(len(small), ck.n(120, 800))):
        texts += [t[:i] + t[i + 1:] for i in range(len(t))]
        texts += [t[:i] for i in range(len(t))]
        texts += [t[:i] + r.choice(TOKENS) + t[i:] for i in range(len(t))]
    texts += [mutate(r, r.choice(base)) for _ in range(ck.n(5000, 60000))]
    texts += [mutate(r, r.choice(small)) for _ in range(ck.n(3000, 40000))]
    texts += [texts_at_random(r) for _ in range(ck.n(2500, 30000))]
    texts.append(RELATIVE)
    # nesting of every kind
    for o, c in (("vec<", ">"), ("(", ",u8)"), ("[", ";1]"), ("hash_map<u8,", ">"), ("A<", ">")):
        for d in (1, 8, 60):
            texts += ["struct S(" + o * d + "u8" + c * d + ")", "struct S(" + o * d, "struct S(" + o * d + c * d + ")"]
    texts += ["mod a {" * d + "}" * k for d in (1, 8, 60) for k in (d, d - 1, d + 1)]
    texts += ["#[a" + "(b" * d + ")" * d + "]\nstruct A\n" for d in (1, 8, 60)]
    texts = sorted(set(texts))
    outs = ask_parse(srv, texts)
    evs = [parse_event(t, x) for t, x in zip(texts, outs)]
    ck.cov["texts"] = len(texts)
    ck.cov["accepted"] = sum("ast" in e["out"] for e in evs)
    ck.cov["rejected"] = sum("labels" in e["out"] for e in evs)
    ck.sample({"text": texts[len(texts) // 2], "out": str(outs[len(texts) // 2])[:200]})

    def what(e):
        if "ast" in e["out"]:
            return f"the text {show(e['text'])} was accepted as a schema it does not denote"
        if "labels" in e["out"]:
            return f"a position reported for {show(e['text'])} is outside of the text or inside of a character: {e['out']['labels']}"
        return f"parsing {show(e['text'])}: {e['out']['broken']}"
    judged(ck, evs, texts, what)
    # those that no schema can have
    for t in BAD:
        o = srv.ask({"op": "parse", "text": t})
        if "ast" in o:
            ck.violate(f"the text {t!r} is no schema but was accepted", {"text": t})
    # bytes that are no text
    for _ in range(ck.n(200, 2000)):
        b = bytearray(r.choice(base).encode())
        for _ in range(r.randint(1, 3)):
            b.insert(r.randint(0, len(b)), r.choice([0x80, 0xff, 0xc3, 0xe2, 0xf0, 0xed]))
        try:
            bytes(b).decode()
            continue
        except UnicodeDecodeError:
            pass
        o = srv.ask({"op": "parse_slice", "bytes": list(b)})
        ck.traces += 1
        if "err" not in o:
            ck.violate("bytes that are not UTF-8 were not rejected", {"bytes": list(b), "out": o})
    # nesting without end
    t = "struct S(" + "vec<" * 200000 + "u8" + ">" * 200000 + ")"
    o = srv.ask({"op": "parse", "text": t}, timeout=60)
    if "crash" in o or "hang" in o:
        ck.finding("deep-nesting", "a type nested 200000 times overflows the stack", {"out": o})


# ------------------------------------------------------------------ F01, F02

def F01(ck):
    srv = server()
    texts = [bytes(x["text"]).decode() for x in enumerated(ck, limit=ck.n(700, 8000))] + [t for _, t in random_texts(ck, ck.n(1500, 12000))]
    outs = ask_parse(srv, texts)
    ok = [(t, o) for t, o in zip(texts, outs) if isinstance(o.get("fmt"), str)]
    for t, o in zip(texts, outs):
        if "ast" in o and not isinstance(o.get("fmt"), str):
            ck.violate(f"formatting {t!r:.200} panics", {"text": t, "out": o})
    again = ask_parse(srv, [o["fmt"] for _, o in ok])
    evs = [{"op": "fmt", "ast": syn(o["ast"]), "text": enc(t), "fmt": enc(o["fmt"]), "floats": floats(t, o["fmt"]), "out": outcome(a), "tag": "-"}
           for (t, o), a in zip(ok, again)]
    tx = [t for t, _ in ok]
    for fid, s, t in LOST:
        o = srv.ask({"op": "parse", "text": t})
        evs.append({"op": "fmt", "ast": syn(s), "text": enc(t), "fmt": enc(o["fmt"]), "floats": [],
                    "out": outcome(srv.ask({"op": "parse", "text": o["fmt"]})), "tag": "finding:" + fid})
        tx.append(t)
    ck.sample({"text": tx[-5], "formatted": ok[-3][1]["fmt"]})
    judged(ck, evs, tx, lambda e: f"formatting {show(e['text'])} changes its meaning: {show(e['fmt'])}")


def F02(ck):
    srv = server()
    groups = []
    # layouts of the model that differ in white space only
    by = {}
    for x in enumerated(ck):
        if x["kind"] in ("none", "sp", "sp1", "ws", "line"):
            by.setdefault((json.dumps(x["tree"]), x["base"]), []).append(bytes(x["text"]).decode())
    keys = sorted(by)
    if len(keys) > ck.n(600, 6000):
        keys = random.Random(ck.seed).sample(keys, ck.n(600, 6000))
    groups += [by[k] for k in keys]
    r = ck.rng
    for i, s in enumerate(random_trees(ck, ck.n(500, 4000))):
        groups.append([gen.text(s, Same(random.Random(r.random()), i, w)) for w in (0.0, 0.4, 0.7, 1.0)])
    texts = [t for g in groups for t in g]
    outs = ask_parse(srv, texts)
    fm = [o.get("fmt") if isinstance(o.get("fmt"), str) else None for o in outs]
    idx = [i for i, f in enumerate(fm) if f is not None]
    again = dict(zip(idx, ask_parse(srv, [fm[i] for i in idx])))
    evs, tx, p = [], [], 0
    for g in groups:
        ids = [i for i in range(p, p + len(g)) if fm[i] is not None]
        p += len(g)
        if not ids:
            continue
        # distinct results suffice
        seen = {}
        for i in ids:
            a = again[i].get("fmt")
            seen.setdefault((fm[i], a if isinstance(a, str) else "\0"), texts[i])
        evs.append({"op": "same", "fmts": [enc(f) for f, _ in seen], "again": [enc(a) for _, a in seen], "out": {}, "tag": "-"})
        tx.append(list(seen.values()))
        ck.traces += len(ids)
    ck.sample({"layouts": groups[-1][:2]})
    ck.cov["layouts"] = len(texts)
    judged(ck, evs, tx, lambda e: "layouts of one schema are formatted differently, or formatting again changes the text: " +
           ", ".join(show(f, 120) for f in (e["fmts"][:2] if len(e["fmts"]) > 1 else e["fmts"][:1] + e["again"][:1])))
