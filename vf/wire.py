"""Wire family: schemas -> generated code -> server; events for the trace specification."""
import json, os, random, shutil, time
from . import core, gen
from .core import Broken, Server

INTBITS = {"u16": 16, "u32": 32, "u64": 64, "u128": 128, "i16": 16, "i32": 32, "i64": 64, "i128": 128}
STRS = {"string": "string", "strref": "string", "boxstr": "string", "bytes": "bytes", "bytesref": "bytes", "boxbytes": "bytes"}


def digits(n):
    out = []
    while n:
        out.append(n % 128)
        n //= 128
    return out


def num(m):
    n = 0
    for d in reversed(m):
        n = n * 128 + d
    return n


def ival(n):
    return {"s": 1 if n < 0 else 0, "m": digits(abs(n))}


WRAPPERS = (({"k": "f64"}, "std::borrow::Cow<'static, f64>"), ({"k": "u32"}, "std::borrow::Cow<'static, u32>"),
            ({"k": "vec", "e": {"k": "u16"}}, "std::rc::Rc<Vec<u16>>"), ({"k": "i64"}, "std::rc::Rc<i64>"),
            ({"k": "map", "a": {"k": "u8"}, "b": {"k": "string"}}, "std::sync::Arc<std::collections::HashMap<u8, String>>"),
            ({"k": "opt", "e": {"k": "u16"}}, "std::sync::Arc<Option<u16>>"),
            ({"k": "vec", "e": {"k": "string"}}, "Slice<String>"), ({"k": "vec", "e": {"k": "u64"}}, "Slice<u64>"))


KEYWORDS = set("""abstract as async await become box break const continue do dyn else enum extern false final fn for gen if impl
in let loop macro match mod move mut override priv pub ref return static struct trait true try type typeof unsafe unsized use
virtual where while yield""".split())


def rust(name):
    """The name of a field or module in Rust."""
    return "r#" + name if name in KEYWORDS else "_" + name if name in ("crate", "self", "super") else name


class Table:
    """Declarations in the specification's form, and their Rust names."""

    def __init__(self):
        self.types, self.rust, self.keys, self.info = [], [], {}, []
        self.impls = []

    def add_schema(self, si, sch, bytes_mode):
        self.defs = {}
        self.si, self.bm = si, bytes_mode
        self._collect(sch["defs"], ())
        for (path, name), d in list(self.defs.items()):
            self._impl(path, d)
            if not d["gen"]:
                self.decl(path, name, [], [])
        # what a user of the generated code may put in place of a generic
        for t, r in WRAPPERS if ((), "G3") in self.defs else ():
            via = {"k": "via", "e": t}
            self.decl((), "G3", [via], [r])
            self.decl((), "G4", [{"k": "via", "e": {"k": "string"}}, via], ["std::rc::Rc<String>", r])
            self.decl((), "GE", [via], [r])

    def _collect(self, defs, path):
        for d in defs:
            if d["d"] == "mod":
                self._collect(d["defs"], path + (d["name"],))
            elif d["d"] in ("struct", "enum"):
                self.defs[(path, d["name"])] = d

    def decl(self, path, name, args, rargs):
        key = (self.si, path, name, json.dumps(args))
        if key in self.keys:
            return self.keys[key]
        d = self.defs[(path, name)]
        i = len(self.types) + 1
        self.keys[key] = i
        self.types.append(None)
        rn = "::".join(("s%d" % self.si,) + tuple(map(rust, path)) + (name,)) + ("<" + ", ".join(rargs) + ">" if rargs else "")
        self.rust.append(rn)
        self.info.append({"schema": self.si, "name": name, "path": path, "args": args, "bm": self.bm})
        env = {g: (a, r) for g, a, r in zip(d["gen"], args, rargs)}
        if d["d"] == "struct":
            self.types[i - 1] = dict(k="struct", **self.shape(d["fields"], env, path))
        else:
            vs = []
            for v, n in zip(d["variants"], gen.with_ids(d["variants"])):
                vs.append(dict(id=digits(n), **self.shape(v["fields"], env, path)))
            self.types[i - 1] = {"k": "enum", "vs": vs}
        return i

    def shape(self, f, env, path):
        fs = []
        for x, n in zip(f["fs"], gen.with_ids(f["fs"])):
            fs.append({"id": digits(n), "n": x["name"], "t": self.ty(x["ty"], env, path)[0]})
        return {"shape": f["k"], "fs": fs}

    def ty(self, t, env, path):
        """(type of the specification, Rust type)"""
        k = t["k"]
        rp = {"string": "String", "strref": "String", "boxstr": "Box<str>", "boxbytes": "Box<[u8]>",
              "bytes": "bytes::Bytes" if self.bm else "Vec<u8>", "bytesref": "bytes::Bytes" if self.bm else "Vec<u8>"}
        if k in STRS:
            return {"k": STRS[k]}, rp[k]
        if k in ("vec", "set", "opt"):
            e, r = self.ty(t["e"], env, path)
            return {"k": k, "e": e}, {"vec": "Vec<%s>", "set": "std::collections::HashSet<%s>", "opt": "Option<%s>"}[k] % r
        if k == "nz":
            e, r = self.ty(t["e"], env, path)
            if t["e"]["k"] in gen.INTS:
                return {"k": "nz", "e": e}, "std::num::NonZero" + t["e"]["k"].upper()
            return {"k": "nz", "e": e}, "mabo::NonZero<%s>" % r
        if k == "map":
            a, ra = self.ty(t["a"], env, path)
            b, rb = self.ty(t["b"], env, path)
            return {"k": "map", "a": a, "b": b}, "std::collections::HashMap<%s, %s>" % (ra, rb)
        if k == "arr":
            e, r = self.ty(t["e"], env, path)
            return {"k": "arr", "e": e, "n": int(t["n"])}, "[%s; %s]" % (r, t["n"])
        if k == "tup":
            es = [self.ty(x, env, path) for x in t["es"]]
            return {"k": "tup", "es": [e[0] for e in es]}, "(" + ", ".join(e[1] for e in es) + ",)"
        if k == "ext":
            if not t["path"] and t["name"] in env:
                a, r = env[t["name"]]
                return {"k": "via", "e": a}, r
            args = [self.ty(x, env, path) for x in t["ts"]]
            p = path + tuple(t["path"])
            i = self.decl(p, t["name"], [a[0] for a in args], [a[1] for a in args])
            return {"k": "ref", "i": i}, self.rust[i - 1]
        return {"k": k}, k

    def _impl(self, path, d):
        g = d["gen"]
        rn = "::".join(("s%d" % self.si,) + tuple(map(rust, path)) + (d["name"],)) + ("<" + ", ".join(g) + ">" if g else "")
        gs = "<" + ", ".join(x + ": Vv" for x in g) + ">" if g else ""

        def pat(f):
            n = len(f["fs"])
            if f["k"] == "named":
                return "{ " + ", ".join("%s: f%d" % (rust(x["name"]), i) for i, x in enumerate(f["fs"])) + " }"
            if f["k"] == "unnamed":
                return "(" + ", ".join("f%d" % i for i in range(n)) + ")"
            return ""

        def mk(f, j):
            n = len(f["fs"])
            if f["k"] == "named":
                return "{ " + ", ".join("%s: Vv::mk(&%s[%d])" % (rust(x["name"]), j, i) for i, x in enumerate(f["fs"])) + " }"
            if f["k"] == "unnamed":
                return "(" + ", ".join("Vv::mk(&%s[%d])" % (j, i) for i in range(n)) + ")"
            return ""

        def sh(f):
            return "json!([" + ", ".join("f%d.sh()" % i for i in range(len(f["fs"]))) + "])"
        if d["d"] == "struct":
            f = d["fields"]
            self.impls.append("impl%s Vv for %s { fn mk(j: &J) -> Self { Self %s } fn sh(&self) -> J { let Self %s = self; %s } }"
                              % (gs, rn, mk(f, "j"), pat(f), sh(f)))
        else:
            m = "".join("%d => Self::%s %s, " % (i + 1, v["name"], mk(v["fields"], 'j["f"]')) for i, v in enumerate(d["variants"]))
            s = "".join("Self::%s %s => json!({\"i\": %d, \"f\": %s}), " % (v["name"], pat(v["fields"]), i + 1, sh(v["fields"]))
                        for i, v in enumerate(d["variants"]))
            self.impls.append("impl%s Vv for %s { fn mk(j: &J) -> Self { match j[\"i\"].as_u64().unwrap() { %s_ => panic!() } } "
                              "fn sh(&self) -> J { match self { %s} } }" % (gs, rn, m, s))


class Bundle:
    """Generated code of several schemas, built through mabo-build from /repo, as a server."""

    def __init__(self, schemas, work, name="wire", bytes_every=3):
        """schemas: list of (tree, bytes_mode)"""
        self.schemas = schemas
        self.table = Table()
        self.work = os.path.join(work, name)
        shutil.rmtree(self.work, ignore_errors=True)
        self.failed = None
        for i, (s, bm) in enumerate(schemas):
            self.table.add_schema(i, s, bm)
        self.build()

    def build(self):
        sch = Server([core.sch_bin()])
        incl = []
        for bm in (False, True):
            idx = [i for i, (s, b) in enumerate(self.schemas) if b == bm]
            if not idx:
                continue
            d = os.path.join(self.work, "proj%d" % bm)
            os.makedirs(os.path.join(d, "src"))
            open(os.path.join(d, "Mabo.toml"), "w").write('[package]\nname = "p"\nfiles = ["src/*.mabo"]\n')
            for i in idx:
                open(os.path.join(d, "src", "s%d.mabo" % i), "w").write(gen.text(self.schemas[i][0]))
            out = os.path.join(self.work, "out%d" % bm)
            os.makedirs(out)
            r = sch.ask({"op": "build", "dir": d, "out": out, "bytes": bm}, timeout=60)
            if r != {"ok": 1}:
                self.failed = ("build step failed: " + json.dumps(r)[:1500], {"dir": d})
                sch.stop()
                return
            for i in idx:
                p = os.path.join(out, "mabo", "s%d.rs" % i)
                if not os.path.exists(p):
                    self.failed = ("build step wrote no output for s%d" % i, {"dir": d})
                    sch.stop()
                    return
                incl.append('pub mod s%d { include!("%s"); }' % (i, p))
        sch.stop()
        c = os.path.join(self.work, "crate")
        shutil.copytree(os.path.join(core.VERIF, "harness", "wire"), c)
        t = self.table
        arms = "".join("%d => run::<%s>(q, s), " % (i + 1, r) for i, r in enumerate(t.rust))
        with open(os.path.join(c, "src", "gen.rs"), "w") as f:
            f.write("\n".join(incl) + "\n" + "\n".join(t.impls) +
                    "\nfn dispatch(t: u64, q: &J, s: &mut St) -> J { match t { %s _ => json!({\"st\": \"none\"}) } }\n" % arms)
        t0 = time.time()
        r = core.cargo_build(c, ["--locked"])
        core.log(f"[build generated code of {len(self.schemas)} schemas, {len(t.rust)} types: {time.time()-t0:.1f}s]")
        if r.returncode:
            err = [l for l in r.stderr.splitlines() if l.startswith("error") or " --> " in l][:12]
            # a failure inside this crate's own deps is not about generated code
            if "could not compile `wire`" not in r.stderr:
                raise Broken("runtime does not build:\n" + r.stderr[-3000:])
            self.failed = ("generated code does not compile: " + " ".join(err)[:1500],
                           {"schemas": [gen.text(s) for s, _ in self.schemas], "stderr": r.stderr[-3000:]})
            return
        self.bin = os.path.join(c, "wire-server")
        shutil.copy(os.path.join(core.TARGET, "debug", "wire"), self.bin)
        # a decoder that never ends shall not take all the memory with it
        self.server = Server(["/bin/bash", "-c", 'ulimit -v 6000000; exec "$0"', self.bin], timeout=20)

    def run(self, qs):
        return self.server.pipeline(qs)


# ------------------------------------------------------------------ values

CHARS = ["a", "Z", "0", " ", "é", "ß", "☃", "\U0001F600", "\0", "\n", "\"", "\x7f"]


SMALL = ("bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64")


class Val:
    def __init__(self, rng, types):
        self.r, self.types = rng, types
        self.big = 0     # the length of the next string or sequence of small things, once
        self.full = False  # nothing is left out
        self.nest = 0

    def length(self, usual):
        n, self.big = self.big or usual, 0
        return n

    def int(self, k):
        r = self.r
        bits = INTBITS[k]
        lo, hi = (0, 2**bits - 1) if k[0] == "u" else (-2**(bits - 1), 2**(bits - 1) - 1)
        c = r.random()
        if c < 0.3:
            n = r.choice([lo, hi, 0, 1, -1, lo + 1, hi - 1])
        elif c < 0.7:
            e = r.randint(0, bits // 7 + 1) * 7 - r.choice([0, 1])
            n = (1 << max(0, e)) + r.choice([-1, 0, 1])
            if r.random() < 0.5:
                n = -n
        else:
            n = r.randint(lo, hi) >> r.randint(0, bits)
        return ival(min(hi, max(lo, n)))

    def string(self):
        r = self.r
        n = r.choice([0, 0, 1, 2, 3, 5]) if r.random() < 0.96 else r.choice([126, 127, 128, 130, 300])
        if self.big:
            n = self.length(n)
            return list(("".join(r.choice(CHARS) for _ in range(20)) * (n // 20 + 1)).encode()[:n].decode(errors="ignore").encode().ljust(n, b"x"))
        return list("".join(r.choice(CHARS) for _ in range(n)).encode())

    def bytes(self):
        r = self.r
        n = r.choice([0, 0, 1, 2, 3, 6]) if r.random() < 0.96 else r.choice([127, 128, 129])
        n = self.length(n)
        return [r.choice([0, 1, 127, 128, 255, r.randint(0, 255)]) for _ in range(n)]

    def val(self, t, d=0):
        r = self.r
        k = t["k"]
        if k == "bool":
            return r.random() < 0.5
        if k == "u8":
            return r.choice([0, 1, 127, 128, 255, r.randint(0, 255)])
        if k == "i8":
            return r.choice([0, 1, -1, 127, -128, r.randint(-128, 127)])
        if k in INTBITS:
            return self.int(k)
        if k == "f32":
            return r.choice([[0, 0, 0, 0], [128, 0, 0, 0], [127, 128, 0, 0], [127, 192, 0, 1], [0, 0, 0, 1],
                             [63, 128, 0, 0], [r.randint(0, 126)] + [r.randint(0, 255) for _ in range(3)]])
        if k == "f64":
            return r.choice([[0] * 8, [128] + [0] * 7, [127, 240] + [0] * 6, [127, 248, 0, 0, 0, 0, 0, 1], [0] * 7 + [1],
                             [r.randint(0, 126)] + [r.randint(0, 255) for _ in range(7)]])
        if k == "string":
            return self.string()
        if k == "bytes":
            return self.bytes()
        if k == "nz":
            for _ in range(200):
                v = self.val(t["e"], d)
                if t["e"]["k"] in ("u8", "i8"):
                    if v != 0:
                        return v
                elif t["e"]["k"] in INTBITS:
                    if v["m"]:
                        return v
                elif v:
                    return v
            raise Broken("no non-zero value")
        if k == "via":
            return self.val(t["e"], d)
        cnt = self.count(d)
        if k == "vec" and t["e"]["k"] in SMALL:
            cnt = min(self.length(cnt), 1 if d else 1100)
        if k == "vec":
            return [self.val(t["e"], d + 1) for _ in range(cnt)]
        if k == "set":
            return self.distinct([self.val(t["e"], d + 1) for _ in range(cnt)])
        if k == "map":
            ks = self.distinct([self.val(t["a"], d + 1) for _ in range(cnt)])
            return [[x, self.val(t["b"], d + 1)] for x in ks]
        if k == "arr":
            return [self.val(t["e"], d + 1) for _ in range(t["n"])]
        if k == "opt":
            return [] if r.random() < 0.4 and not (self.full and self.nest < 3) else [self.val(t["e"], d)]
        if k == "tup":
            return [self.val(x, d + 1) for x in t["es"]]
        if k == "ref":
            return self.decl(t["i"], d)
        raise Broken(k)

    def count(self, d):
        c = self.r.random()
        if d > 6:
            return 0
        if self.full:
            return 1 if self.nest < 3 else self.r.choice([0, 1])
        if d == 0 and c < 0.03:
            return self.r.choice([64, 127, 128, 130])
        return self.r.choice([0, 1, 1, 2, 3]) if d < 3 else self.r.choice([0, 1])

    def distinct(self, xs):
        out, seen = [], set()
        for x in xs:
            s = json.dumps(x)
            if s not in seen:
                seen.add(s)
                out.append(x)
        return out

    def decl(self, i, d=0):
        dd = self.types[i - 1]
        self.nest += 1
        try:
            if dd["k"] == "struct":
                return [self.val(f["t"], d) for f in dd["fs"]]
            return self.variant(dd, self.r.randrange(len(dd["vs"])), d)
        finally:
            self.nest -= 1

    def variant(self, dd, n, d=0):
        return {"i": n + 1, "f": [self.val(f["t"], d) for f in dd["vs"][n]["fs"]]}

    def complete(self, i):
        """Values of a declaration in which everything is there, one for each variant."""
        self.full = True
        try:
            dd = self.types[i - 1]
            return [self.decl(i)] if dd["k"] == "struct" else [self.variant(dd, n) for n in range(len(dd["vs"]))]
        finally:
            self.full = False


def weight(x):
    if isinstance(x, list):
        return 1 + sum(weight(y) for y in x)
    if isinstance(x, dict):
        return 1 + sum(weight(y) for y in x.values())
    return 1
