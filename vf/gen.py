"""Generators of schemas (as the JSON tree the spec and the servers use) and their text."""
import random

PRIMS = ["bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64",
         "string", "strref", "bytes", "bytesref", "boxstr", "boxbytes"]
KW = {"bool": "bool", "strref": "&string", "bytesref": "&bytes", "boxstr": "box<string>", "boxbytes": "box<bytes>"}
UINTS = ["u8", "u16", "u32", "u64", "u128"]
SINTS = ["i8", "i16", "i32", "i64", "i128"]
INTS = UINTS + SINTS


def T(k, **kw):
    return dict(k=k, **kw)


def vec(e): return T("vec", e=e)
def opt(e): return T("opt", e=e)
def nz(e): return T("nz", e=e)
def hset(e): return T("set", e=e)
def hmap(a, b): return T("map", a=a, b=b)
def arr(e, n): return T("arr", e=e, n=str(n))
def tup(*es): return T("tup", es=list(es))
def ext(name, ts=(), path=()): return T("ext", path=list(path), name=name, ts=list(ts))


def field(name, ty, id=None, comment=()):
    return {"comment": list(comment), "name": name, "ty": ty, "id": [] if id is None else [str(id)]}


def named(*fs): return {"k": "named", "fs": list(fs)}
def unnamed(*fs): return {"k": "unnamed", "fs": list(fs)}
def unit(): return {"k": "unit", "fs": []}


def struct(name, fields, gen=(), comment=(), attrs=()):
    return {"d": "struct", "comment": list(comment), "attrs": list(attrs), "name": name, "gen": list(gen), "fields": fields}


def variant(name, fields, id=None, comment=()):
    return {"comment": list(comment), "name": name, "fields": fields, "id": [] if id is None else [str(id)]}


def enum(name, variants, gen=(), comment=(), attrs=()):
    return {"d": "enum", "comment": list(comment), "attrs": list(attrs), "name": name, "gen": list(gen), "variants": list(variants)}


def mod(name, defs, comment=()): return {"d": "mod", "comment": list(comment), "name": name, "defs": list(defs)}
def alias(name, ty, gen=(), comment=()): return {"d": "alias", "comment": list(comment), "name": name, "gen": list(gen), "ty": ty}
def const(name, ty, lit, comment=()): return {"d": "const", "comment": list(comment), "name": name, "ty": ty, "lit": lit}
def use(segs, elem=()): return {"d": "use", "segs": list(segs), "elem": list(elem)}
def schema(defs, comment=()): return {"comment": list(comment), "defs": list(defs)}


# ------------------------------------------------------------------ text

def seldom(r, n, lo, hi, p=0.02):
    """n, or once in a while a much larger number."""
    return r.randint(lo, hi) if r.random() < p else n


class Layout:
    """Where optional whitespace and separators go.  The plain one is a tidy layout."""
    ind = "    "

    def ws(self, kind=""):      # any whitespace, newlines included
        return ""

    def sp(self, kind=""):      # blanks and tabs only
        return " " if kind in ("colon", "id", "eq", "brace", "pair", "slashes") else ""

    def req(self):              # at least one blank
        return " "

    def trail(self):            # trailing comma
        return False

    def lit(self, lit):         # spelling of a literal
        return None


class Tidy(Layout):
    def trail(self):
        return True

    def ws(self, kind=""):
        return {"def": "\n", "fld": "\n    ", "close": "\n", "item": " "}.get(kind, "")


class Rnd(Layout):
    """Random layout."""

    def __init__(self, rng, wild=0.5):
        self.r, self.wild = rng, wild

    def ws(self, kind=""):
        r = self.r
        if r.random() > self.wild:
            return {"def": "\n", "fld": "\n    ", "close": "\n", "item": " "}.get(kind, "")
        return "".join(r.choice([" ", "\n", "\t", "\n\n", "  ", "\r\n"]) for _ in range(seldom(r, r.randint(0, 3), 10, 90, 0.004)))

    def sp(self, kind=""):
        r = self.r
        if r.random() > self.wild:
            return Layout.sp(self, kind)
        return "".join(r.choice([" ", "\t"]) for _ in range(seldom(r, r.randint(0, 2), 5, 60, 0.004)))

    def req(self):
        r = self.r
        if r.random() > self.wild:
            return " "
        return "".join(r.choice([" ", "\t"]) for _ in range(seldom(r, r.randint(1, 3), 5, 60, 0.004)))

    def trail(self):
        return self.r.random() < 0.5


class Writer:
    """Writes a tree as text; records the position of every element the parser reports one for."""

    def __init__(self, layout=None):
        self.l = layout or Tidy()
        self.parts, self.pos = [], 0
        self.spans = []
        self.tight = False

    def w(self, s):
        self.parts.append(s)
        self.pos += len(s.encode())

    def mark(self, kind):
        self.spans.append([kind, self.pos, None])
        return len(self.spans) - 1

    def end(self, i):
        self.spans[i][2] = self.pos

    def name(self, n):
        i = self.mark("name")
        self.w(n)
        self.end(i)

    def comment(self, lines):
        """Comment lines; each ends its line."""
        for n, c in enumerate(lines):
            self.w("" if self.tight else self.l.ws("none") if n == 0 else self.l.sp("none"))
            # the recorded range covers the text after the slashes and blanks
            self.w("///" + (self.l.sp("slashes") if c[:1] not in (" ", "\t") else ""))
            i = self.mark("comment")
            self.w(c)
            self.end(i)
            self.w("\n")

    def ty(self, t):
        i = self.mark("type")
        l, k = self.l, t["k"]
        if k in ("vec", "set", "opt", "nz"):
            self.w({"vec": "vec", "set": "hash_set", "opt": "option", "nz": "non_zero"}[k] + "<")
            self.ty(t["e"])
            self.w(l.ws() + ">")
        elif k == "map":
            self.w("hash_map<")
            self.ty(t["a"])
            self.w(l.sp() + "," + l.sp("pair"))
            self.ty(t["b"])
            self.w(l.ws() + ">")
        elif k == "tup":
            self.seq("(", t["es"], self.ty, ")")
        elif k == "arr":
            self.w("[" + l.ws())
            self.ty(t["e"])
            self.w(l.ws() + ";" + l.ws("item") + t["n"] + l.ws() + "]")
        elif k == "ext":
            for p in t["path"]:
                self.name(p)
                self.w("::")
            self.name(t["name"])
            if t["ts"]:
                self.seq("<", t["ts"], self.ty, ">")
        else:
            self.w(KW.get(k, k))
        self.end(i)

    def seq(self, o, xs, f, c, first=""):
        l = self.l
        self.w(o)
        for n, x in enumerate(xs):
            self.w(l.ws("item" if n else first))
            f(x)
            if n + 1 < len(xs):
                self.w(l.ws() + ",")
        if l.trail() and xs:
            self.w(l.ws() + ",")
        self.w(l.ws() + c)

    def id(self, i):
        if i:
            self.w(self.l.sp("id"))
            m = self.mark("id")
            self.w("@" + i[0])
            self.end(m)

    def generics(self, g):
        if g:
            self.seq("<", g, self.name, ">")

    def fields(self, f, nested=False):
        l = self.l
        if f["k"] == "unit":
            return
        self.w(l.sp("brace"))
        if f["k"] == "named":
            self.w("{")
            for n, x in enumerate(f["fs"]):
                self.w(l.ws("fld"))
                self.comment(x["comment"])
                self.w(l.sp("none") if x["comment"] else "")
                m = self.mark("field")
                self.name(x["name"])
                self.w(l.sp("none") + ":" + l.sp("colon"))
                self.ty(x["ty"])
                self.id(x["id"])
                self.end(m)
                if n + 1 < len(f["fs"]) or l.trail():
                    self.w(l.ws() + ",")
            self.w(l.ws("close") + "}")
        else:
            def one(x):
                m = self.mark("field")
                self.ty(x["ty"])
                self.id(x["id"])
                self.end(m)
            self.seq("(", f["fs"], one, ")")

    def lit(self, x):
        m = self.mark("literal")
        self.w(x.get("src") or lit_src(x))
        self.end(m)

    def attr(self, a):
        l = self.l
        self.w(a["name"])
        v = a["v"]
        if v["k"] == "single":
            self.w(l.sp("eq") + "=" + l.sp("eq"))
            self.lit(v["lit"])
        elif v["k"] == "multi":
            self.seq("(", v["attrs"], self.attr, ")")

    def attrs(self, attrs):
        for a in attrs:
            self.w("#[" + self.l.ws())
            self.attr(a)
            self.w(self.l.ws() + "]\n")

    def deflist(self, defs, top):
        for n, d in enumerate(defs):
            if n and defs[n - 1]["d"] == "struct" and defs[n - 1]["fields"]["k"] == "unit":
                self.w("\n")       # a bare name needs to end somewhere
            self.w(self.l.ws("def" if n or not top else "none"))
            # a comment block at the very start that ends in a blank line belongs to the schema
            self.tight = top and n == 0 and not self.lead
            self.comment(d.get("comment", []))
            if d.get("attrs"):
                self.w("" if self.tight else self.l.ws("none"))
                self.attrs(d["attrs"])
                self.w(self.l.sp("none"))
            elif d.get("comment") and not self.tight:
                self.w(self.l.ws("none"))
            self.tight = False
            self.definition(d)

    def definition(self, d):
        l = self.l
        k = d["d"]
        if k == "use":
            self.w("use" + l.req())
            for n, s in enumerate(d["segs"]):
                if n:
                    self.w("::")
                self.name(s)
            for e in d["elem"]:
                self.w("::")
                self.name(e)
            self.w(";")
            return
        self.w({"mod": "mod", "struct": "struct", "enum": "enum", "alias": "type", "const": "const"}[k] + l.req())
        self.name(d["name"])
        if k == "mod":
            self.w(l.sp("brace") + "{")
            self.deflist(d["defs"], False)
            self.w(l.ws("close") + "}")
        elif k == "struct":
            self.generics(d["gen"])
            self.fields(d["fields"])
        elif k == "enum":
            self.generics(d["gen"])
            self.w(l.sp("brace") + "{")
            for n, v in enumerate(d["variants"]):
                self.w(l.ws("fld"))
                self.comment(v["comment"])
                self.w(l.sp("none") if v["comment"] else "")
                m = self.mark("variant")
                self.name(v["name"])
                self.fields(v["fields"])
                self.id(v["id"])
                self.end(m)
                if n + 1 < len(d["variants"]) or l.trail():
                    self.w(l.ws() + ",")
            self.w(l.ws("close") + "}")
        elif k == "alias":
            self.generics(d["gen"])
            self.w(l.sp("eq") + "=" + l.sp("eq"))
            self.ty(d["ty"])
            self.w(l.sp() + ";")
        elif k == "const":
            self.w(":" + l.sp("colon"))
            self.ty(d["ty"])
            self.w(l.sp("eq") + "=" + l.sp("eq"))
            self.lit(d["lit"])
            self.w(";")

    def schema(self, s):
        self.lead = bool(s["comment"])
        if s["comment"]:
            self.tight = True
            self.comment(s["comment"])
            self.w("\n")
        self.deflist(s["defs"], True)
        self.w(self.l.ws("close"))
        return self.text()

    def text(self):
        return "".join(self.parts)


def lit_src(x):
    k = x["k"]
    if k in ("bool", "int"):
        return x["v"]
    if k == "float":
        import struct as st
        f = st.unpack(">d", bytes.fromhex(x["v"]))[0]
        s = repr(f)
        if "e" in s:
            m, e = s.split("e")
            if "." not in m:
                m += ".0"
            return m + "e" + e
        return s
    if k == "str":
        out = []
        for c in x["v"]:
            o = ord(c)
            if c in '"\\':
                out.append("\\" + c)
            elif c == "\n":
                out.append("\\n")
            elif o < 32 or o == 127:
                out.append("\\u{%x}" % o)
            else:
                out.append(c)
        return '"' + "".join(out) + '"'
    return "[" + ", ".join(str(b) for b in bytes.fromhex(x["v"])) + "]"


def text(s, layout=None):
    return Writer(layout).schema(s)


# ------------------------------------------------------------------ identifiers (the rule of C01)

def with_ids(items):
    """Numbers of a sequence of fields or variants: explicit, else one after the predecessor, first is 1."""
    out, last = [], 0
    for x in items:
        last = int(x["id"][0]) if x["id"] else last + 1
        out.append(last)
    return out


# ------------------------------------------------------------------ schemas for generated code

FIELD_NAMES = ["aa", "bb", "cc", "dd", "ee", "ff", "gg", "hh", "alpha", "beta", "gamma_1", "x_y", "z9", "len", "size_of",
               "data", "name", "count", "items", "value_1", "other", "id", "r", "w", "v", "k", "type", "self", "gen", "match"]
RUST_WORDS = ["type", "self", "super", "crate", "async", "match", "gen", "dyn", "impl", "std", "mabo"]


class WireGen:
    """Schemas within the combinations that generate usable Rust code, for the wire checks."""

    def __init__(self, rng, bytes_mode=False):
        self.r = rng
        self.bytes_mode = bytes_mode      # the generated code uses bytes::Bytes
        self.decls = []                   # (name, generics) usable by later definitions, with module path
        self.n = 0

    def key(self, d=1):
        r = self.r
        ks = ["bool", "string", "strref", "boxstr"] + INTS + ["bytes"]
        if not self.bytes_mode:
            ks += ["boxbytes", "bytesref"]
        c = r.random()
        if d and c < 0.12:
            return arr(self.key(0), r.randint(1, 3))
        if d and c < 0.2:
            return vec(self.key(0))
        if d and c < 0.26:
            return opt(self.key(0))
        if d and c < 0.36:
            return tup(self.key(0), self.key(0))
        if c < 0.42:
            return nz(T(r.choice(INTS)))
        return T(r.choice(ks))

    def prim(self):
        ps = PRIMS
        return T(self.r.choice(ps))

    def ty(self, d, gens=(), path=()):
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.3:
            if gens and r.random() < 0.6:
                return ext(r.choice(gens))
            return self.prim()
        if c < 0.40:
            return vec(self.ty(d - 1, gens, path))
        if c < 0.46:
            return hset(self.key())
        if c < 0.54:
            return hmap(self.key(), self.ty(d - 1, gens, path))
        if c < 0.62:
            return opt(self.ty(d - 1, gens, path))
        if c < 0.72:
            return tup(*[self.ty(d - 1, gens, path) for _ in range(r.choice([2, 2, 3, 3, 4, 12]) if d > 1 else 2)])
        if c < 0.79:
            return arr(self.ty(d - 1, gens, path), r.choice([1, 2, 3, 3, 5]))
        if c < 0.87:
            k = r.random()
            if k < 0.4:
                return nz(T(r.choice(INTS)))
            if k < 0.6:
                return nz(T(r.choice(["string", "strref", "bytes", "bytesref"])))
            if k < 0.75:
                return nz(vec(self.ty(d - 1, gens, path)))
            if k < 0.87:
                return nz(hmap(self.key(), self.ty(d - 1, gens, path)))
            return nz(hset(self.key()))
        us = self.usable(path)
        if us:
            n, g, p = r.choice(us)
            return ext(n, [self.garg(1, path) for _ in g], p)
        return self.prim()

    def usable(self, path):
        """Types that may be referenced: name, generics, path to write."""
        return [(n, g, ()) for n, g, p in self.decls if p == path]

    def garg(self, d, path=()):
        """Type arguments implement the runtime's traits by themselves."""
        r = self.r
        ps = ["bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "string", "boxstr",
              "boxbytes"]
        if not self.bytes_mode:
            ps.append("bytes")
        c = r.random()
        if d <= 0 or c < 0.6:
            us = [x for x in self.usable(path) if not x[1]]
            if us and c < 0.15:
                n, _, p = r.choice(us)
                return ext(n, [], p)
            return T(r.choice(ps))
        if c < 0.7:
            return vec(self.garg(d - 1, path))
        if c < 0.8:
            return opt(self.garg(d - 1, path))
        if c < 0.87:
            return arr(self.garg(d - 1, path), r.randint(1, 3))
        if c < 0.93:
            return hset(T(r.choice(["bool", "string", "boxstr", "boxbytes", "u8", "i16", "u32", "i64", "u128"])))
        return hmap(T(r.choice(["bool", "string", "boxstr", "u8", "u32", "i64", "i128"])), self.garg(d - 1, path))

    def ids(self, n, big=True):
        """Explicit or implicit numbers, all distinct."""
        r = self.r
        if n > 8:
            out = [[] for _ in range(n)]
            out[r.randrange(n)] = [str(r.choice([n + 1, 127, 128, 2047, 2048, 70000]))] if r.random() < 0.5 else []
            return out
        while True:
            out = []
            for _ in range(n):
                c = r.random()
                if c < 0.6:
                    out.append([])
                elif c < 0.9 or not big:
                    out.append([str(r.randint(1, 40))])
                else:
                    out.append([str(r.choice([15, 16, 127, 128, 2047, 2048, 16383, 70000, 2**28, 2**29 - 1 - n]))])
            ids = with_ids([{"id": i} for i in out])
            if len(set(ids)) == n:
                return out

    def fields(self, gens=(), path=(), allow_unit=True, maxn=5, depth=3):
        r = self.r
        c = r.random()
        if allow_unit and c < 0.08 and not gens:
            return unit()
        n = seldom(r, r.randint(1, maxn), 9, 40, 0.01 if depth > 1 else 0)
        if n > 8:
            depth = 1
        names = r.sample(FIELD_NAMES, n) if n <= 8 else ["f_%d" % i for i in range(n)]
        ids = self.ids(n)
        fs = [field(names[i], self.ty(depth, gens, path)) for i in range(n)]
        # every generic must be mentioned
        for g in gens:
            if not any(mentions(f["ty"], g) for f in fs):
                fs[r.randrange(n)]["ty"] = r.choice([ext(g), vec(ext(g)), opt(ext(g)), tup(ext(g), T("u8"))])
        for g in gens:
            if not any(mentions(f["ty"], g) for f in fs):
                fs.append(field("g_" + g.lower(), ext(g)))
                ids.append([])
        for f, i in zip(fs, ids):
            f["id"] = i
        x = with_ids(fs)
        if len(set(x)) != len(x):
            for f in fs:
                f["id"] = []
        if c < 0.6:
            return named(*fs)
        for f in fs:
            f["name"] = ""
        return unnamed(*fs)

    def definition(self, path=(), generics=True, depth=3):
        r = self.r
        self.n += 1
        name = r.choice(["Rec", "Msg", "Item", "Node", "Data"]) + str(self.n)
        gens = r.sample(["T", "K", "V", "W", "X", "Y9"], seldom(r, r.randint(1, 2), 3, 6, 0.15)) if generics and r.random() < 0.2 else []
        if r.random() < 0.6:
            f = self.fields(gens, path, depth=depth)
            if f["k"] == "unit":
                gens = []
            d = struct(name, f, gens)
            usable = f["k"] != "unit"
        else:
            n = seldom(r, r.randint(1, 4), 9, 30, 0.02)
            ids = self.ids(n)
            vs = []
            for i in range(n):
                vs.append(variant("V" + "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i % 26] + "x" * (i // 26), self.fields((), path, maxn=3 if n < 9 else 1, depth=depth - 1 if n < 9 else 0), None))
                vs[-1]["id"] = ids[i]
            for g in gens:
                vs[0]["fields"] = unnamed(*([field("", ext(g)) for g in gens]))
            d = enum(name, vs, gens)
            usable = True
        if usable:
            self.decls.append((name, gens, path))
        return d


class CodeGen(WireGen):
    """Whole projects: schemas with modules, constants, aliases, imports of each other's types."""

    def __init__(self, rng, bytes_mode=False):
        super().__init__(rng, bytes_mode)
        self.visible = []
        self.exports = {}                 # schema -> [(path, name, generics)]
        self.mods = {}                    # schema -> [path]
        self.words = list(RUST_WORDS)     # every one at most once

    def usable(self, path):
        return self.visible

    def literal(self, ty):
        import struct as st
        r = self.r
        if ty == "bool":
            return {"k": "bool", "v": r.choice(["true", "false"])}
        if ty in INTS:
            b = int(ty[1:])
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if ty[0] == "i" else (0, min((1 << b) - 1, 2**127 - 1))
            return {"k": "int", "v": str(r.choice([lo, hi, 0, 1, r.randint(lo, hi)]))}
        if ty in ("f32", "f64"):
            f = r.choice([0.0, 1.0, -1.0, 0.5, 3.25, -1e10, 2.5e-7, 100.0, 1e15]) if ty == "f32" else \
                r.choice([0.1, 1e300, -1e-300, 123456789.125, -0.0, 5e-324, 1.7976931348623157e308, 12.0])
            return {"k": "float", "v": st.pack(">d", f).hex()}
        if ty in ("string", "strref"):
            return {"k": "str", "v": "".join(r.choice(["a", "b", " ", "\"", "\\", "\n", "\t", "é", "☃", "\U0001F600", "\x01", "/", "{", "'", "\0", "#"])
                                             for _ in range(seldom(r, r.randint(0, 6), 30, 300, 0.06)))}
        return {"k": "bytes", "v": bytes(r.choice([0, 34, 92, 127, 128, 255, r.randint(0, 255)]) for _ in range(seldom(r, r.randint(1, 5), 30, 140, 0.06))).hex()}

    def comment(self):
        return [self.r.choice(WORDS) for _ in range(seldom(self.r, self.r.choice([0, 0, 0, 1, 2]), 6, 30, 0.03))]

    def module(self, schema, path, depth, outer):
        """Definitions of a module and what it exports; outer: imports in scope as (name, entries)."""
        r = self.r
        uses, mine = [], []
        earlier = [s for s in self.exports]
        for _ in range(r.choice([0, 1, 1, 2]) if earlier else 0):
            s = r.choice(earlier)
            if r.random() < 0.5 and self.exports[s]:
                p, n, g = r.choice(self.exports[s])
                u, nm, ent = use([s] + p, [n]), n, [(n, g, [])]
            else:
                p = r.choice(self.mods[s])
                nm = ([s] + p)[-1]
                u = use([s] + p)
                ent = [(n, g, [nm] + q[len(p):]) for q, n, g in self.exports[s] if q[:len(p)] == p]
            if nm in [x[0] for x in mine]:
                continue
            uses.append(u)
            mine.append((nm, ent))
        names = [x[0] for x in mine]
        scope = mine + [x for x in outer if x[0] not in names]
        defs, exports, mods = list(uses), [], [path]
        local = []                        # (name, generics, path)
        for i in range(r.choice([0, 0, 1, 2]) if depth else 0):
            self.n += 1
            m = r.choice(["sub", "part", "inner"]) + str(self.n)
            if self.words and r.random() < 0.2:
                m = self.words.pop(r.randrange(len(self.words)))
            ds, ex, ms = self.module(schema, path + [m], depth - 1, scope)
            defs.append(mod(m, ds, self.comment()))
            exports += ex
            mods += ms
            local += [(n, g, p[len(path):]) for p, n, g in ex]
        for _ in range(r.randint(1, 3)):
            self.visible = local + [e for x in scope for e in x[1]]
            c = r.random()
            self.n += 1
            if c < 0.12:
                k = r.choice(["bool", "f32", "f64", "string", "strref", "bytes", "bytesref"] + INTS)
                defs.append(const("C_%d" % self.n, T(k), self.literal(k), self.comment()))
            elif c < 0.24:
                g = r.sample(["T", "K", "V", "W", "X"], seldom(r, r.choice([0, 0, 1, 2]), 3, 5, 0.1))
                t = self.ty(2, g)
                for x in g:
                    if not mentions(t, x):
                        t = tup(t, ext(x))
                defs.append(alias("Alias%d" % self.n, t, g, self.comment()))
            else:
                before = len(self.decls)
                d = self.definition((), depth=2)
                d["comment"] = self.comment()
                defs.append(d)
                for n, g, _ in self.decls[before:]:
                    local.append((n, g, []))
                    exports.append((path, n, g))
        return defs, exports, mods

    def project(self, n):
        out = []
        for i in range(n):
            name = ["alpha", "beta", "gamma", "delta"][i]
            defs, ex, ms = self.module(name, [], seldom(self.r, 2, 4, 6, 0.05), [])
            self.exports[name], self.mods[name] = ex, ms
            out.append((name, schema(defs, self.comment())))
        return out


def mentions(t, g):
    k = t["k"]
    if k == "ext":
        return (not t["path"] and t["name"] == g) or any(mentions(x, g) for x in t["ts"])
    if k == "map":
        return mentions(t["a"], g) or mentions(t["b"], g)
    if k == "tup":
        return any(mentions(x, g) for x in t["es"])
    if "e" in t:
        return mentions(t["e"], g)
    return False


# ------------------------------------------------------------------ arbitrary (syntactic) schemas

TYPE_NAMES = ["A", "B", "Abc", "Foo", "Bar2", "XyZ9", "Sample", "T", "Option1", "U8", "Vec", "String1", "Ab0c"]
MOD_NAMES = ["m", "alpha", "beta_1", "inner", "x_", "sub9", "util"]
CONST_NAMES = ["C", "MAX", "A_B", "VALUE_1", "X9_", "LIMIT"]
FNAMES = ["a", "b", "value", "x_1", "id", "name", "type1", "y__z", "use_it", "vec", "u8", "string", "mod1", "option", "trueish", "enumx"]
GEN_NAMES = ["T", "K", "V", "Value", "G1", "A"]
WORDS = ["a comment", "with  two blanks", "ünïcödé ☃", "trailing   ", "// nested slashes", "x", "", "emoji \U0001F600 end", "@1 u32,", "{ } ( ) ; ,", "`code`", "ends in a/b/", "/"]


class SynGen:
    """Any schema the grammar admits; names may clash and references may dangle."""

    def __init__(self, rng, comments=True, attrs=True, names=None, depth=3, ids=True):
        self.r, self.comments, self.attr_on, self.depth = rng, comments, attrs, depth
        self.ids_on = ids
        self.uniq = 0

    def comment(self, p=0.25):
        r = self.r
        if not self.comments or r.random() > p:
            return []
        return [r.choice(WORDS) for _ in range(seldom(r, r.choice([1, 1, 2, 3]), 6, 40, 0.03))]

    def tname(self):
        r = self.r
        return r.choice(TYPE_NAMES) if r.random() < 0.99 else r.choice("AZ") + "".join(r.choice("abcXYZ019") for _ in range(r.randint(12, 90)))

    def ty(self, d=None, gens=(), valid=False):
        r = self.r
        d = self.depth if d is None else d
        c = r.random()
        if d <= 0 or c < 0.35:
            if gens and r.random() < 0.5:
                return ext(r.choice(gens))
            return T(r.choice(PRIMS))
        if c < 0.43:
            return vec(self.ty(d - 1, gens, valid))
        if c < 0.48:
            return hset(self.ty(d - 1, gens, valid))
        if c < 0.56:
            return hmap(self.ty(d - 1, gens, valid), self.ty(d - 1, gens, valid))
        if c < 0.63:
            return opt(self.ty(d - 1, gens, valid))
        if c < 0.68:
            return nz(self.ty(d - 1, gens, valid))
        if c < 0.78:
            ns = [2, 3, 2, 4, 12] if valid else [1, 2, 3, 12, 13]
            return tup(*[self.ty(d - 2, gens, valid) for _ in range(r.choice(ns))])
        if c < 0.85:
            return arr(self.ty(d - 1, gens, valid), r.choice([0, 1, 3, 12, 4294967295]))
        n = r.choice([0, 0, 1, 2])
        if r.random() < 0.03:
            return ext(self.tname(), [T(r.choice(PRIMS)) for _ in range(r.randint(3, 20))], [r.choice(MOD_NAMES) for _ in range(r.randint(3, 20))])
        return ext(self.tname(), [self.ty(d - 1, gens, valid) for _ in range(r.choice([0, 0, 1, 2]))], r.sample(MOD_NAMES, n))

    def id(self):
        r = self.r
        if not self.ids_on:
            return []
        return [str(r.choice([1, 2, 3, 4, 5, 10, 0, 300, 536870912, 4294967294]))] if r.random() < 0.35 else []

    def fields(self, gens, valid=False):
        r = self.r
        c = r.random()
        if c < 0.2:
            return unit()
        n = r.randint(1, 4)
        if r.random() < 0.01:
            k = (named if c < 0.65 else unnamed)(*[field("f%d" % i + "_x" * r.choice([0, 0, 0, 30]) if c < 0.65 else "", T(r.choice(PRIMS))) for i in range(r.randint(9, 70))])
            return k
        if c < 0.65:
            names = r.sample(FNAMES, n) if valid or r.random() < 0.8 else [r.choice(FNAMES[:3]) for _ in range(n)]
            fs = [field(x, self.ty(None, gens, valid), None, self.comment(0.2)) for x in names]
            k = named(*fs)
        else:
            k = unnamed(*[field("", self.ty(None, gens, valid)) for _ in range(n)])
        for f in k["fs"]:
            f["id"] = self.id()
        if valid:
            x = with_ids(k["fs"])
            if len(set(x)) < len(x):
                for f in k["fs"]:
                    f["id"] = []
        return k

    def gens(self, valid=False):
        r = self.r
        if r.random() < 0.65:
            return []
        n = r.choice([1, 1, 2, 3])
        if r.random() < 0.03:
            return ["G%d" % i for i in range(r.randint(4, 40))]
        return r.sample(GEN_NAMES, n) if valid or r.random() < 0.8 else [r.choice(GEN_NAMES[:2]) for _ in range(n)]

    def literal(self, k=None):
        r = self.r
        k = k or r.choice(["bool", "int", "float", "str", "bytes"])
        if k == "bool":
            return {"k": k, "v": r.choice(["true", "false"])}
        if k == "int":
            return {"k": k, "v": str(r.choice([0, 1, -1, 255, 2**127 - 1, -2**127, r.randint(-10**6, 10**6), 7]))}
        if k == "float":
            import struct as st
            f = r.choice([1.0, -1.0, 0.5, 1.5e10, 2.5e-7, 3.14159, 1e300, -0.0, 123456789.125, 1e-300, 0.1, 100.0, 5e-324, 2.2e-308, -1e-310, 1.7976931348623157e308, 0.0, 4503599627370497.5, 9007199254740993.0, 1.1e-16])
            return {"k": k, "v": st.pack(">d", f).hex()}
        if k == "str":
            return {"k": k, "v": "".join(r.choice(["a", "b", " ", "\"", "\\", "\n", "\t", "é", "☃", "\U0001F600", "\x01", "/", "{", "'"]) for _ in range(seldom(r, r.randint(0, 6), 20, 400, 0.06)))}
        return {"k": k, "v": bytes(r.choice([0, 1, 127, 128, 255, r.randint(0, 255)]) for _ in range(seldom(r, r.randint(1, 5), 20, 300, 0.1))).hex()}

    def attr(self, d=1):
        r = self.r
        c = r.random()
        n = r.choice(["deprecated", "attr", "a_b", "validate", "x1"])
        if c < 0.35:
            return {"name": n, "v": {"k": "unit"}}
        if c < 0.75 or d <= 0:
            return {"name": n, "v": {"k": "single", "lit": self.literal()}}
        return {"name": n, "v": {"k": "multi", "attrs": [self.attr(d - 1) for _ in range(seldom(r, r.randint(1, 3), 4, 40, 0.04))]}}

    def attrs(self):
        r = self.r
        if not self.attr_on or r.random() < 0.75:
            return []
        return [self.attr() for _ in range(seldom(r, r.choice([1, 1, 2]), 3, 24, 0.04))]

    def fresh(self, base, used):
        n = base
        i = 1
        while n in used:
            n = base + str(i)
            i += 1
        used.add(n)
        return n

    def definition(self, d, used=None):
        r = self.r
        valid = used is not None
        c = r.random()

        def nm(base):
            return self.fresh(base, used) if valid else base
        if c < 0.34:
            g = self.gens(valid)
            f = self.fields(g, valid)
            if valid:
                if f["k"] == "unit":
                    g = []
                for x in g:
                    if not any(mentions(y["ty"], x) for y in f["fs"]):
                        if f["k"] == "named":
                            f["fs"].append(field(self.fresh("g_" + x.lower(), {y["name"] for y in f["fs"]}), ext(x)))
                        else:
                            f["fs"].append(field("", vec(ext(x))))
                ids = with_ids(f["fs"])
                if len(set(ids)) < len(ids):
                    for y in f["fs"]:
                        y["id"] = []
            return struct(nm(self.tname()), f, g, self.comment(), self.attrs())
        if c < 0.6:
            g = self.gens(valid)
            vs = []
            vn = set()
            for _ in range(seldom(r, r.randint(1, 4), 6, 24, 0.01)):
                n = self.tname()
                if valid or r.random() < 0.7:
                    n = self.fresh(n, vn)
                vs.append(variant(n, self.fields(g, valid), None, self.comment(0.2)))
            for v in vs:
                v["id"] = self.id()
            if valid:
                for x in g:
                    if not any(mentions(y["ty"], x) for v in vs for y in v["fields"]["fs"]):
                        vs.append(variant(self.fresh("G" + x, vn), unnamed(field("", ext(x)))))
                        vs[-1]["id"] = []
                ids = with_ids(vs)
                if len(set(ids)) < len(ids):
                    for v in vs:
                        v["id"] = []
            return enum(nm(self.tname()), vs, g, self.comment(), self.attrs())
        if c < 0.7:
            return alias(nm(self.tname()), self.ty(None, (), valid), self.gens(True), self.comment())
        if c < 0.82:
            k = r.choice(["bool", "int", "float", "str", "bytes"])
            ty = {"bool": T("bool"), "int": T(r.choice(INTS)), "float": T(r.choice(["f32", "f64"])), "str": T(r.choice(["string", "strref"])),
                  "bytes": T(r.choice(["bytes", "bytesref"]))}[k]
            if r.random() < 0.1:
                ty = self.ty(1, (), valid)
            return const(nm(r.choice(CONST_NAMES)), ty, self.literal(k), self.comment())
        if c < 0.9 and d > 0:
            return mod(nm(r.choice(MOD_NAMES)), self.defs(d - 1, valid, r.randint(0, 3)), self.comment())
        if valid:
            n = self.fresh(r.choice(MOD_NAMES + ["other"]), used)
            segs = [r.choice(MOD_NAMES) for _ in range(r.randint(0, 2))]
            if r.random() < 0.5:
                return use(segs + [n])
            used.discard(n)
            return use(segs + [n], [self.fresh(self.tname(), used)])
        segs = [r.choice(MOD_NAMES) for _ in range(r.randint(1, 3))]
        return use(segs, [self.tname()] if r.random() < 0.5 else [])

    def defs(self, d, valid, n):
        used = set() if valid else None
        return [self.definition(d, used) for _ in range(n)]

    def schema(self, valid=False, n=None):
        r = self.r
        n = r.randint(1, 5) if n is None else n
        return schema(self.defs(2, valid, n), self.comment(0.2))


def positions(s, layout=None):
    """Text and the tree with the position of every field and variant."""
    import copy
    w = Writer(layout)
    s = copy.deepcopy(s)
    text_ = w.schema(s)
    it = iter([x for x in w.spans if x[0] in ("field", "variant")])

    def fields(f):
        for x in f["fs"]:
            m = next(it)
            x["at"] = [m[1], m[2]]

    def walk(defs):
        for d in defs:
            if d["d"] == "mod":
                walk(d["defs"])
            elif d["d"] == "struct":
                fields(d["fields"])
            elif d["d"] == "enum":
                for v in d["variants"]:
                    m = next(it)
                    v["at"] = [m[1], m[2]]
                    fields(v["fields"])
    walk(s["defs"])
    return text_, s


def every_const(rng, skip=""):
    """Constants of every type there is a literal for, with the outermost and other telling values."""
    g = CodeGen(rng)
    lits = {"bool": [{"k": "bool", "v": v} for v in ("true", "false")],
            "string": [{"k": "str", "v": v} for v in ["", " ", "a", "\"", "\\", "`", "\n", "\r", "\t", "\0", "\x07", "\x7f", "\x85", "\xa0", "\u2028", "\ufeff", "\U0001F600", "${x}", "{{x}}", "<b>&amp;</b>", "%s", "//", "*/", "é" * 40] if v == "" or v not in skip],
            "bytes": [{"k": "bytes", "v": bytes(range(a, a + 32)).hex()} for a in range(0, 256, 32)] + [{"k": "bytes", "v": "00"}]}
    for k in INTS:
        b = int(k[1:])
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if k[0] == "i" else (0, min((1 << b) - 1, 2**127 - 1))
        lits[k] = [{"k": "int", "v": str(v)} for v in sorted({lo, hi, 0, 1, 9, 10, hi // 2, max(lo, -1), max(lo, -10)})]
    for k in ("f32", "f64"):
        lits[k] = [g.literal(k) for _ in range(8)]
    lits["strref"], lits["bytesref"] = lits["string"], lits["bytes"]
    out = []
    for k, ls in lits.items():
        for a in range(0, len(ls), 12):
            out.append([const("C%d" % i, T(k), l, g.comment()) for i, l in enumerate(ls[a:a + 12])])
    return out
