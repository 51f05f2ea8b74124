"""Projects and the command line tool: K01 to K04.  Trees, patterns, ignore files and commands come from MCProject and MCTool or are
generated; what the libraries and the binary do with them is judged by Project and Tool."""
import json, os, random, re, shutil, subprocess, tempfile
from . import core, gen, tree, f_checks

THEMES = ["toml", "glob", "rules", "nest"]


class Place:
    """A scratch directory outside of everything, with a home of its own."""

    def __init__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="vf-k-"))
        self.home = os.path.join(self.root, "home")
        os.makedirs(self.home)
        self.env = {"HOME": self.home, "XDG_CONFIG_HOME": self.home}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.root.startswith(tempfile.gettempdir()) and os.path.basename(self.root).startswith("vf-k-"):
            shutil.rmtree(self.root, ignore_errors=True)

    def fresh(self, name="p"):
        p = os.path.join(self.root, name)
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(p)
        return p


def rel(path):
    return os.path.join(*[bytes(n).decode() for n in path]) if path else ""


def names(p, root):
    """A path below root as the specification writes it."""
    r = os.path.relpath(p, root)
    return [] if r == "." else [list(os.fsencode(x)) for x in r.split(os.sep)]


def plant(root, entries, contents=None):
    """Creates a tree."""
    for e in sorted(entries, key=lambda e: (e["kind"] == "link", len(e["path"]))):
        p = os.path.join(root, rel(e["path"]))
        if e["kind"] == "dir":
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if e["kind"] == "link":
            os.symlink(os.path.join(root, rel(e["to"])), p)
        elif e["kind"] == "rules" and not contents:
            with open(p, "wb") as f:
                f.write(b"".join(bytes(x) + b"\n" for x in e["lines"]))
        else:
            with open(p, "wb") as f:
                f.write(contents(e) if contents else b"")


def project_file(pats, name="p"):
    return ("[package]\nname = \"%s\"\nfiles = %s\n" % (name, json.dumps([p if isinstance(p, str) else bytes(p).decode() for p in pats]))).encode()


TOML_NAME = list(b"Mabo.toml")


# ------------------------------------------------------------------ patterns

def ptext(ts):
    """The text of a pattern; the specification checks that it is the one it means."""
    out = ""
    for t in ts:
        k = t[0]
        if k == "lit":
            out += ("\\" if chr(t[1]) in "*?[]{}\\!," else "") + chr(t[1])
        elif k == "set":
            out += "[" + ("!" if t[2] else "") + "".join(map(chr, t[1])) + "]"
        elif k == "alt":
            out += "{" + ",".join(ptext(a) for a in t[1]) + "}"
        else:
            out += {"any": "?", "star": "*", "sep": "/", "pre": "**/", "mid": "/**/", "suf": "/**", "all": "**"}[k]
    return out


def rule_text(r):
    return ("!" if r["neg"] else "") + ("/" if r["root"] else "") + ptext(r["pat"]) + ("/" if r["dir"] else "")


def lits(s):
    return [["lit", b] for b in s.encode()]


class PatGen:
    def __init__(self, r, words, plain=False):
        self.r, self.words, self.plain = r, words, plain

    def comp(self, depth=1):
        r = self.r
        w = r.choice(self.words)
        c = r.random()
        if c < 0.3:
            return lits(w)
        if c < 0.45:
            return [["star"]] + lits(".mabo")
        if c < 0.55:
            return [["star"]]
        if c < 0.62:
            return lits(w[:1]) + [["star"]]
        if c < 0.68:
            return [["star"]] + lits(w[-1:]) + [["star"]]
        if c < 0.76:
            i = r.randrange(len(w))
            return lits(w[:i]) + [["any"]] + lits(w[i + 1:])
        if c < 0.84:
            # a set that is negated stands at the beginning, where it can not be asked about a slash
            s = sorted(set(r.choice("abd.") for _ in range(r.randint(1, 3))))
            return [["set", [ord(x) for x in s], r.random() < 0.3]] + lits(w[1:])
        if depth and not self.plain:
            return lits(w[:1]) + [["alt", [self.comp(0) if r.random() < 0.7 else lits(w[1:]) for _ in range(r.randint(1, 3))] + ([[]] if r.random() < 0.2 else [])]] + \
                (lits(".mabo") if r.random() < 0.5 else [])
        return lits(w)

    def pattern(self):
        r = self.r
        if not self.plain and r.random() < 0.03:
            return [["all"]]
        n = r.choice([1, 1, 2, 2, 3])
        out = [["pre"]] if r.random() < 0.3 else []
        for i in range(n):
            if i:
                out = out + [["mid"] if r.random() < 0.25 else ["sep"]]
            out = out + self.comp()
        if not self.plain and r.random() < 0.1:
            out = out + [["suf"]]
        return out

    def rule(self):
        r = self.r
        c = r.random()
        p = self.comp(0)
        if c < 0.25:
            p = p + [r.choice([["sep"], ["sep"], ["mid"]])] + self.comp(0)
        elif c < 0.35:
            p = [["pre"]] + p
        elif c < 0.42:
            p = p + [["suf"]]
        x = {"neg": r.random() < 0.3, "root": r.random() < 0.25, "dir": r.random() < 0.3, "pat": p}
        if p and p[0][0] == "pre":
            x["root"] = False
        if p and p[-1][0] == "suf":
            x["dir"] = False
        x["text"] = rule_text(x)
        return x


DIRS = ["a", "b", "d", "src", ".h", "x y", "v1.0", "e.mabo", "Ab"]
FILES = ["a.mabo", "b.mabo", "d.mabo", "ab.mabo", "ba.mabo", "a.b.mabo", ".h.mabo", "a.txt", "mabo", ".mabo", "a.mabo.bak", "x y.mabo", "[a].mabo", "d{b}.mabo",
         "A.mabo", "a.MABO", "!a.mabo", "#a.mabo", "a,b.mabo"]
RDIRS = [d for d in DIRS if d != "x y"]
RFILES = [f for f in FILES if f[0] not in "!#" and " " not in f and "[" not in f and "{" not in f and "," not in f]


def random_tree(r, files=FILES, links=True, rules=True, projects=0.25):
    """A tree, and the directories with a project file."""
    dirs = [[]]
    for _ in range(r.randint(0, 6)):
        d = r.choice(dirs)
        n = list(r.choice(DIRS).encode())
        if len(d) < 4 and d + [n] not in dirs:
            dirs.append(d + [n])
    es = [{"path": d, "kind": "dir"} for d in dirs if d]
    taken = {json.dumps(d) for d in dirs}

    def put(p, **kw):
        if json.dumps(p) not in taken:
            taken.add(json.dumps(p))
            es.append({"path": p, **kw})
    for d in dirs:
        for f in r.sample(files, r.randint(0, min(6, len(files)))):
            put(d + [list(f.encode())], kind="file")
        if r.random() < projects:
            put(d + [TOML_NAME], kind="file")
    if rules:
        g = PatGen(r, RDIRS + RFILES, plain=True)
        for d in dirs:
            if r.random() < 0.12:
                put(d + [list(b".git")], kind="dir")
            for n in (b".gitignore", b".ignore"):
                if r.random() < 0.22:
                    rs = [g.rule() for _ in range(r.randint(1, 3))]
                    put(d + [list(n)], kind="rules", rules=[{k: x[k] for k in ("neg", "root", "dir", "pat")} for x in rs],
                        lines=[list(x["text"].encode()) for x in rs])
    if links:
        plain = [e for e in es if e["kind"] in ("file", "dir")]
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            if not plain:
                break
            e = r.choice(plain)
            d = r.choice(dirs)
            # nothing that contains itself, and no links to what links are in
            if e["kind"] == "dir" and (d[:len(e["path"])] == e["path"] or any(x["kind"] == "link" and x["path"][:len(e["path"])] == e["path"] for x in es)):
                continue
            if any(x["kind"] == "link" and d[:len(x["to"])] == x["to"] for x in es):
                continue
            n = r.choice(["lnk", "l.mabo", "k.mabo", "a"])
            put(d + [list(n.encode())], kind="link", to=e["path"])
    return es


# ------------------------------------------------------------------ K01

def asked(r, root):
    if "ok" in r:
        return {"files": [names(f, root) for f in r["ok"]["files"]]}
    return {"err": json.dumps(r)[:300]}


def found(r, root):
    if "ok" in r:
        return {"found": [[names(os.path.dirname(p["path"]), root), [names(f, os.path.dirname(p["path"])) for f in p["files"]]] for p in r["ok"]]}
    return {"err": json.dumps(r)[:300]}


def toml_of(t):
    out = ["[package]"] if t["package"] == "ok" else ["[other]"]
    out += {"ok": ["name = \"x\""], "no": [], "type": ["name = 1"]}[t["name"]]
    out += {"ok": ["files = [\"*.mabo\"]"], "none": ["files = []"], "no": [], "type": ["files = \"*.mabo\""], "bad": ["files = [\"[\"]"]}[t["files"]]
    out += {"ok": ["license = \"MIT OR Apache-2.0\""], "no": [], "bad": ["license = \"MIT OR Nonsense-9\""], "type": ["license = 5"]}[t["license"]]
    if t["more"]:
        out += ["description = \"text\"", "extra = [1, 2]", "", "[section]", "x = 1"]
    if t["syntax"] == "bad":
        out += ["= ["]
    return "\n".join(out) + "\n"


def K01(ck):
    srv_bin = core.sch_bin()
    cases = {}
    laws = "INVARIANTS Emit Union2 Schemas Shallow Antitone Inside\n"
    for th in THEMES:
        rc, o = core.tlc("MCProject", "SPECIFICATION Spec\n" + laws, os.path.join(ck.work, "mc-" + th), env={"THEME": th, "DEEP": "1" if ck.thorough else "0"})
        if rc:
            raise core.Broken("the model of projects violates its laws:\n" + o[-4000:])
        seen = sorted({s[5:] for s in core.printed(o) if s[:5] in ("CASE ", "TOML ")})
        ck.cov["enumerated_" + th] = len(seen)
        cases[th] = [json.loads(s) for s in seen]
    with Place() as pl:
        srv = core.Server([srv_bin], env=pl.env)

        def deviates(what, got, want, data):
            if got != want:
                ck.violate(f"{what}: {json.dumps(got)[:300]} instead of {json.dumps(want)[:300]}", data)

        # project files
        root = pl.fresh()
        plant(root, [{"path": [list(b"a.mabo")], "kind": "file"}])
        for c in cases["toml"]:
            with open(os.path.join(root, "Mabo.toml"), "w") as f:
                f.write(toml_of(c["toml"]))
            a, b = srv.ask({"op": "load", "dir": root}), srv.ask({"op": "discover", "dir": root})
            ck.traces += 1
            deviates("loading a project file " + json.dumps(toml_of(c["toml"])), "ok" in a, c["good"], {"toml": c["toml"], "out": a})
            deviates("discovery of a project file " + json.dumps(toml_of(c["toml"])), "ok" in b, c["good"], {"toml": c["toml"], "out": b})
            if "ok" not in a and "err" not in a or "ok" not in b and "err" not in b:
                ck.violate(f"no answer for a project file: {a} {b}", {"toml": c["toml"]})
        os.remove(os.path.join(root, "Mabo.toml"))
        deviates("loading without a project file", "err" in srv.ask({"op": "load", "dir": root}), True, {})
        os.mkdir(os.path.join(root, "Mabo.toml"))
        deviates("loading a directory as project file", "err" in srv.ask({"op": "load", "dir": root}), True, {})
        with open(os.path.join(pl.fresh("q"), "Mabo.toml"), "wb") as f:
            f.write(b"[package]\nname = \"\xff\"\nfiles = []\n")
        deviates("loading a project file that is not text", "err" in srv.ask({"op": "load", "dir": os.path.join(pl.root, "q")}), True, {})

        # trees
        for th in ("glob", "rules", "nest"):
            last = None
            for c in cases[th]:
                if c["tree"] != last:
                    root = pl.fresh()
                    plant(root, c["tree"])
                    last = c["tree"]
                    ps = [e["path"] for e in c["tree"] if e["kind"] == "file" and e["path"][-1] == TOML_NAME]
                for p in ps + ([] if th == "nest" else [[TOML_NAME]]):
                    with open(os.path.join(root, rel(p)), "wb") as f:
                        f.write(project_file(c["pats"]))
                what = "%s of %s%s%s" % ([bytes(p).decode() for p in c["pats"]],
                                         th, [(rel(e["path"]), [bytes(x).decode() for x in e["lines"]]) for e in c["tree"] if e["kind"] == "rules"],
                                         [(rel(e["path"]), rel(e["to"])) for e in c["tree"] if e["kind"] == "link"])
                ck.traces += 1
                if th != "nest" or [TOML_NAME] in ps:
                    a = asked(srv.ask({"op": "load", "dir": root}), root)
                    deviates("files for " + what, sorted(map(rel, a["files"])) if "files" in a else a, sorted(map(rel, c["files"])), c)
                if th == "nest":
                    a = found(srv.ask({"op": "discover", "dir": root}), root)
                    want = sorted((rel(d), sorted(map(rel, fs))) for d, fs in c["found"])
                    deviates("projects for " + what, sorted((rel(d), sorted(map(rel, fs))) for d, fs in a["found"]) if "found" in a else a, want, c)

        # recorded
        r = ck.rng
        ev, tx = [], []
        words = sorted(set(DIRS + FILES))
        for i in range(ck.n(350, 3000)):
            es = random_tree(r)
            root = pl.fresh()
            plant(root, es)
            tomls = [e for e in es if e["kind"] == "file" and e["path"][-1] == TOML_NAME]
            for e in tomls:
                g = PatGen(r, words)
                e["pats"] = [g.pattern() for _ in range(r.choice([0, 1, 1, 2, 3]))] if r.random() < 0.8 else [[["pre"], ["star"]] + lits(".mabo")]
                with open(os.path.join(root, rel(e["path"])), "wb") as f:
                    f.write(project_file([ptext(p) for p in e["pats"]]))
            spec = [{k: v for k, v in e.items() if k != "lines"} for e in es]
            for e in r.sample(tomls, min(2, len(tomls))):
                at = e["path"][:-1]
                d = os.path.join(root, rel(at))
                out = asked(srv.ask({"op": "load", "dir": d if at else root}), d)
                ev.append({"op": "load", "tag": "load", "tree": spec, "at": at, "pats": e["pats"], "texts": [list(ptext(p).encode()) for p in e["pats"]], "out": out})
                tx.append({"tree": es, "dir": rel(at), "patterns": [ptext(p) for p in e["pats"]]})
            if r.random() < 0.5:
                at = r.choice([[]] + [e["path"] for e in es if e["kind"] == "dir"])
                d = os.path.join(root, rel(at)) if at else root
                out = found(srv.ask({"op": "discover", "dir": d}), d)
                ev.append({"op": "discover", "tag": "discover", "tree": spec, "at": at, "out": out})
                tx.append({"tree": es, "dir": rel(at), "patterns": [[rel(e["path"]), [ptext(p) for p in e["pats"]]] for e in tomls]})
        srv.stop()
    rej = core.judge("ToolTrace", "K01", ev, os.path.join(ck.work, "judge"))
    ck.traces += len(ev)
    ck.cov["recorded"] = len(ev)
    for i, tag in rej[:40]:
        t = tx[i]
        ck.violate(f"{tag} in {t['dir']!r} with {t['patterns']}: {json.dumps(readable(ev[i]['out']))[:500]} of {json.dumps(listing(t['tree']))[:900]}",
                   {"event": ev[i], "text": t})
    for i in range(0, len(ev), max(1, len(ev) // 3)):
        ck.sample({"patterns": tx[i]["patterns"], "out": readable(ev[i]["out"]), "tree": listing(tx[i]["tree"])})


def readable(out):
    if "files" in out:
        return [rel(p) for p in out["files"]]
    if "found" in out:
        return [[rel(d), [rel(p) for p in fs]] for d, fs in out["found"]]
    return out


def listing(es):
    return [rel(e["path"]) + {"dir": "/", "link": " -> " + rel(e.get("to", []))}.get(e["kind"], "")
            + (" " + json.dumps([bytes(x).decode() for x in e["lines"]]) if e["kind"] == "rules" else "") for e in es]


# ------------------------------------------------------------------ commands

def snapshot(root):
    """What is there, and when it was written."""
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, f)
            st = os.lstat(p)
            with open(p, "rb") if not os.path.islink(p) else open(os.devnull, "rb") as h:
                data = h.read()
            out[os.path.relpath(p, root)] = (data, (st.st_mtime_ns, st.st_ctime_ns, st.st_ino, st.st_mode))
        for x in ds:
            out.setdefault(os.path.relpath(os.path.join(d, x), root) + "/", (b"", ()))
    return out


class Tool:
    def __init__(self, place):
        self.bin = core.repo_bin("mabo-cli", "mabo")
        self.env = dict(core.ENV, **place.env)

    def run(self, cwd, *args):
        try:
            p = subprocess.run([self.bin, *args], cwd=cwd, env=self.env, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired:
            return "hang", "no answer within 60 s"
        err = p.stderr.decode("utf8", "replace")
        if p.returncode < 0 or p.returncode == 101 or "panicked at" in err:
            return "crash", err[-400:]
        return ("ok" if p.returncode == 0 else "bad"), err[-400:]


def name_of(p):
    return [list(x.encode()) for x in p.split("/")]


class Pool:
    """Contents by number.  A number stands for some bytes; what is not among them is 0."""

    def __init__(self):
        self.rows, self.data, self.index = [], [], {}

    def number(self, data):
        return self.index.get(bytes(data), 0)

    def put(self, data, row):
        data = bytes(data)
        if data not in self.index:
            self.rows.append(row)
            self.data.append(data)
            self.index[data] = len(self.rows)
        return self.index[data]

    def schema(self, defs, canon, *others):
        """A schema with its canonical text and other spellings of it; returns their numbers."""
        spec = tree.to_spec(defs, lits=True)
        n = self.put(canon.encode(), {"reads": True, "parses": True, "canon": len(self.rows) + 1, "defs": spec})
        return [n] + [self.put(o.encode(), {"reads": True, "parses": True, "canon": n, "defs": spec}) for o in others]

    def other(self, data, reads=True):
        return self.put(data, {"reads": reads, "parses": False, "canon": 1, "defs": []})


def canonical(srv, texts):
    out = []
    for t, r in zip(texts, srv.pipeline([{"op": "fmt", "text": t} for t in texts])):
        out.append(r.get("fmt"))
    return out


def model_contents(srv):
    """The contents of MCTool in its numbering."""
    texts = ["struct A\n", "use b::B;\n\nstruct A(B)\n", "struct A\n\nstruct A\n", "struct B\n\nmod m {\nmod n {\n}\nstruct C\n}\n", "struct A(X)\n"]
    messy = [" struct  A", "use b::B;\n\n  struct A( B )", "struct A\n\n\n\nstruct A", "struct B\n\n\nmod m {mod n {} struct C\n}", "struct\tA(X)"]
    canon = canonical(srv, texts)
    out = [b""]
    for t, m, c in zip(texts, messy, canon):
        again, other = canonical(srv, [c or t, m])
        out += [(c or t).encode(), m.encode()]
        if c is None or again != c or other != c or m == c:
            raise core.Broken(f"the formatter does not agree with itself on {t!r}: {c!r} {again!r} {other!r}")
    return out + [b"struct A {", b"enum E\n", b"struct A\n\xff\n", b"\xc3\x28"]


def model_steps(ck, ops):
    laws = "INVARIANTS Emit EmitPool FmtTwice FmtOnly FmtPaths FmtVerdict BuildCheck BuildAll GoCheck\n"
    rc, o = core.tlc("MCTool", "SPECIFICATION Spec\n" + laws, os.path.join(ck.work, "mc"), env={"DEEP": "1" if ck.thorough else "0"})
    if rc:
        raise core.Broken("the model of the tool violates its laws:\n" + o[-4000:])
    seen = sorted({s[5:] for s in core.printed(o) if s.startswith("STEP ") and json.loads(s[5:])["op"] in ops})
    ck.cov["model_steps"] = len(seen)
    lim = ck.n(1500, 12000)
    steps = [json.loads(s) for s in (seen if len(seen) <= lim else random.Random(ck.seed).sample(seen, lim))]
    ck.cov["replayed_steps"] = len(steps)
    return steps


def setup(root, files, contents, dirs=("d/e.mabo",)):
    for d in dirs:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for p, c in files:
        p = os.path.join(root, rel(p))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(contents[c])


def wrote(a, b):
    return sorted(p for p in b if p in a and a[p][1] != b[p][1] and not p.endswith("/"))


def replay(ck, pl, tool, contents, step, k, twice=False):
    root = pl.fresh()
    setup(root, step["before"], contents)
    pats = [bytes(p).decode() for p in step["pats"]]
    if step["k"] == "project":
        with open(os.path.join(root, "Mabo.toml"), "wb") as f:
            f.write(project_file(pats))
    args = [step["op"]] + ([] if step["k"] == "project" else pats)
    if step["k"] == "project" and k % 2:
        args += ["--project-dir", root]
    a = snapshot(root)
    exit_, err = tool.run(root if len(args) == 1 or step["k"] == "globs" else pl.home, *args)
    b = snapshot(root)
    want = {rel(p): contents[c] for p, c in step["after"]}
    story = f"{' '.join(args[:1] + (pats if step['k'] == 'globs' else ['(project ' + str(pats) + ')']))} on " + \
        json.dumps({rel(p): contents[c].decode("latin1") for p, c in step["before"]})[:600]
    got = {p: b[p][0] for p in b if not p.endswith("/") and p != "Mabo.toml"}
    if exit_ in ("hang", "crash"):
        ck.violate(f"{exit_}: {story}: {err}", step)
    elif got != want or set(b) != set(a):
        bad = sorted(p for p in set(got) | set(want) if got.get(p) != want.get(p))
        ck.violate(f"left {[(p, repr(got.get(p))) for p in bad[:3]]} instead of {[repr(want.get(p)) for p in bad[:3]]}: {story}", step)
    elif wrote(a, b) != sorted(rel(p) for p in step["wrote"]):
        ck.violate(f"wrote to {wrote(a, b)} instead of {[rel(p) for p in step['wrote']]}: {story}", step)
    elif step["op"] == "check" and step["verdict"] != "open" and exit_ != step["verdict"]:
        ck.violate(f"exit status {exit_} instead of {step['verdict']}: {story}: {err}", step)
    elif twice:
        tool.run(root, *args[:1], *(["--project-dir", root] if step["k"] == "project" else pats))
        if snapshot(root) != b:
            ck.violate(f"running it again changes files: {story}", step)


CONSTS = {"bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "string", "strref", "bytes", "bytesref"}


NONZERO = set(gen.INTS) | {"string", "strref", "bytes", "bytesref", "vec", "map", "set"}


def buildable(x):
    """Without what the generator panics on: constants of types that no constant can have (known: const-type) and types
    that have no non-zero form (known: nz-type)."""
    if isinstance(x, list):
        return [buildable(y) for y in x if not (isinstance(y, dict) and y.get("d") == "const" and y["ty"]["k"] not in CONSTS)]
    if not isinstance(x, dict):
        return x
    if x.get("k") == "nz":
        e = buildable(x["e"])
        return e if e["k"] not in NONZERO else dict(x, e=e)
    return {k: buildable(v) for k, v in x.items()}


class Worlds:
    """Random worlds of schema files, and what is done to them."""

    def __init__(self, ck, srv, whole=False, build=False):
        self.build = build
        from .c_checks import WorldGen
        self.ck, self.r, self.srv, self.whole = ck, ck.rng, srv, whole
        self.worldgen = WorldGen(self.r)

    def sources(self):
        """Schemas to place: (stem, definitions)."""
        r = self.r
        c = r.random()
        out = []
        if c < 0.55 and not self.whole:
            out = [(w["name"], w["defs"]) for w in self.worldgen.world()]
        elif c < 0.9 or self.whole:
            g = gen.CodeGen(r)
            out = [(n, s["defs"]) for n, s in g.project(r.choice([1, 2, 3]))]
        for i in range(r.choice([0, 0, 1, 2]) if not self.whole else 0):
            s = gen.SynGen(r, comments=False, attrs=False, depth=2).schema(valid=r.random() < 0.8, n=r.choice([1, 2, 3]))
            out.append(("extra%d" % i, buildable(s["defs"]) if self.build else s["defs"]))
        for i in range(gen.seldom(r, 0, 5, 20, 0.06)):
            out.append(("one%d" % i, [gen.struct("A", r.choice([gen.unit(), gen.unnamed(gen.field("", gen.T(r.choice(["u8", "u16", "bool"]))))]))]))
        return out or [("lone", [gen.struct("A", gen.unit())])]

    def make(self):
        """(pool, entries with contents, spare contents for each file)"""
        r = self.r
        pool = Pool()
        base = pool.other(b"neither read nor written\n")
        dirs = [[]]
        for _ in range(r.randint(0, 4)):
            d = r.choice(dirs) + [list(r.choice(["a", "b", "src", ".h", "v1"]).encode())]
            if len(d) < 4 and d not in dirs:
                dirs.append(d)
        es = [{"path": d, "kind": "dir"} for d in dirs if d]
        spare = {}
        taken = set()
        for stem, defs in self.sources():
            txt = [gen.text(gen.schema(defs), gen.Tidy()), gen.text(gen.schema(defs), gen.Rnd(random.Random(r.random())))]
            canon = canonical(self.srv, txt)
            if None in canon:
                continue
            # the spellings may differ in optional separators, which formatting keeps
            nums = sorted({n for t, c in zip(txt, canon) for n in pool.schema(defs, c, t)})
            bad = pool.other(r.choice(f_checks.BAD).encode()) if r.random() < 0.5 else None
            raw = pool.other(b"\xff\xfe" + canon[0].encode()[:20], reads=False) if r.random() < 0.3 else None
            alts = [n for n in nums] + [n for n in (bad, raw) if n]
            name = list((stem + ("" if r.random() < 0.97 else ".v1") + (".mabo" if r.random() < 0.95 else ".txt")).encode())
            d = r.choice(dirs)
            key = json.dumps(d + [name])
            if key in taken:
                continue
            taken.add(key)
            c = r.choice(nums) if r.random() < 0.93 else r.choice(alts)
            es.append({"path": d + [name], "kind": "file", "c": c})
            spare[key] = alts
            if r.random() < 0.04 and not self.whole:
                d2 = r.choice(dirs)
                if json.dumps(d2 + [name]) not in taken:
                    taken.add(json.dumps(d2 + [name]))
                    es.append({"path": d2 + [name], "kind": "file", "c": r.choice(nums)})
        for d in dirs:
            if r.random() < 0.15:
                es.append({"path": d + [list(b"note.txt")], "kind": "file", "c": base})
            if r.random() < 0.06:
                es.append({"path": d + [list(b"dir.mabo")], "kind": "dir"})
        for row in pool.rows:
            if row["canon"] > len(pool.rows):
                raise core.Broken("a content without canonical text")
        # ignore rules
        if r.random() < 0.25:
            g = PatGen(r, ["a", "b", "src", "main.mabo", "alpha.mabo", "other.mabo"], plain=True)
            rs = [g.rule() for _ in range(r.randint(1, 2))]
            data = b"".join(x["text"].encode() + b"\n" for x in rs)
            d = r.choice(dirs)
            es.append({"path": d + [list(b".ignore")], "kind": "rules", "rules": [{k: x[k] for k in ("neg", "root", "dir", "pat")} for x in rs],
                       "c": pool.other(data)})
        return pool, es, spare

    def selection(self, es, project=None):
        r = self.r
        words = sorted({bytes(n).decode() for e in es for n in e["path"]})
        if project if project is not None else r.random() < 0.55:
            g = PatGen(r, words)
            pats = [[["pre"], ["star"]] + lits(".mabo")] if r.random() < 0.7 else [g.pattern() for _ in range(r.choice([1, 2, 2, 3]))]
            return {"k": "project", "pats": pats}
        # patterns of the command line: a double star is a component of its own and never the last one, braces mean nothing
        g = PatGen(r, words, plain=True)
        pats = [[["pre"], ["star"]] + lits(".mabo")] if r.random() < 0.4 else [g.pattern() for _ in range(r.choice([1, 1, 2]))]
        # a component like `.*` also stands for the parent directory
        pats = [p for p in pats if not any(t[0] == "alt" for t in p) and not re.search(r"(^|/)\.[^/]*[*?\[]", ptext(p))] or [[["star"]]]
        return {"k": "globs", "pats": pats}


def act(pl, tool, root, pool, es, op, sel, k, srv=None, out=None, package="p", strict=False):
    """Runs a command and returns the event."""
    texts = [ptext(p) for p in sel["pats"]]
    toml = os.path.join(root, "Mabo.toml")
    if sel["k"] == "project":
        with open(toml, "wb") as f:
            f.write(project_file(texts, package))
    a = snapshot(root)
    ev = {"op": op, "tag": op, "pool": pool.rows, "tree": [{x: y for x, y in e.items() if x != "lines"} for e in es], "sel": sel,
          "texts": [list(t.encode()) for t in texts]}
    if op == "build":
        before = snapshot(out)
        bm = k % 4 == 3
        ans = srv.ask({"op": "build", "dir": root, "out": out, "bytes": bm}, timeout=60)
        exit_, err = ("ok", "") if ans == {"ok": 1} else ("bad", json.dumps(ans)[:600]) if "berr" in ans and ans["berr"] != "code" else ("crash", json.dumps(ans)[:600])
        now = snapshot(out)
        new = sorted(p for p in now if not p.endswith("/") and (p not in before or now[p] != before[p]))
        gone = sorted(p for p in before if p not in now)
        ev["b"] = bm
        ev["wrote"] = [list(p[5:-3].encode()) if p.startswith("mabo/") and p.endswith(".rs") and "/" not in p[5:] else list(p.encode()) for p in new] + \
            [list(p.encode()) for p in gone]
        ev["outs"] = [dict(stem=list(p[5:-3].encode()), **srv.ask({"op": "items", "file": os.path.join(out, p)})) for p in new if p.endswith(".rs")]
    elif op == "go":
        ev.update(package=package, strict=strict)
        exit_, err, ev["outs"] = go_run(pl, tool, root, out, pool.texts, k)
    else:
        args = [op]
        if sel["k"] == "project" and k % 2:
            exit_, err = tool.run(pl.home, op, "--project-dir", root)
        elif sel["k"] == "project":
            exit_, err = tool.run(root, op)
        else:
            exit_, err = tool.run(root, op, *texts)
    b = snapshot(root)
    ev["exit"] = exit_
    ev["after"] = [[names(os.path.join(root, p), root), pool.number(b[p][0])] for p in b if not p.endswith("/") and p != "Mabo.toml"]
    ev["after"] += [[name_of(p[:-1]), 0] for p in b if p.endswith("/") and p not in a]
    touched = [names(os.path.join(root, p), root) for p in wrote(a, b)]
    if op == "go":
        ev["wrote"] = touched
        if touched:
            ev["outs"].append({"path": ["the project itself"], "f": 0})
    elif op != "build":
        ev["wrote"] = touched
    elif touched:
        ev["wrote"] += [list(b"the project itself")]
    return ev, err


def histories(ck, pl, srv, n, ops, whole=False):
    """Random worlds, commands on them and changes in between."""
    r = ck.rng
    tool = GoTool(pl) if "go" in ops else Tool(pl) if "build" not in ops else None
    w = Worlds(ck, srv, whole, "build" in ops or "go" in ops)
    ev, tx = [], []
    for i in range(n):
        pool, es, spare = w.make()
        root, out = pl.fresh(), pl.fresh("out")
        plant(root, es, lambda e: pool.data[e["c"] - 1])
        package = "p"
        if "go" in ops:
            package = r.choice(["p", "p", "alpha", "my_pack"])
            packages(srv, pool, package)
            if r.random() < 0.3:
                os.makedirs(os.path.join(out, package, "old"))
                for n in (f"{package}/{package}.go", f"{package}/old/old.go", "other.txt"):
                    with open(os.path.join(out, n), "w") as f:
                        f.write("of an earlier run\n")
        for k in range(r.randint(2, 5)):
            op = r.choice(ops)
            sel = w.selection(es, project=True if op in ("build", "go") else None)
            if k and r.random() < 0.7:
                files = [e for e in es if e["kind"] == "file" and json.dumps(e["path"]) in spare]
                for e in r.sample(files, min(len(files), r.choice([1, 1, 2]))):
                    e["c"] = r.choice(spare[json.dumps(e["path"])])
                    with open(os.path.join(root, rel(e["path"])), "wb") as f:
                        f.write(pool.data[e["c"] - 1])
            e, err = act(pl, tool, root, pool, es, op, sel, r.randrange(100), srv, out, package)
            ev.append(json.loads(json.dumps(e)))
            tx.append({"op": op, "select": [sel["k"]] + [ptext(p) for p in sel["pats"]], "exit": e["exit"], "stderr": err,
                       "files": {rel(x["path"]): pool.data[x["c"] - 1].decode("latin1") for x in es if "c" in x}})
            # carry on from what is there
            now = {json.dumps(p): c for p, c in e["after"]}
            for x in es:
                if "c" in x:
                    x["c"] = now.get(json.dumps(x["path"]), 0)
            if any("c" in x and x["c"] == 0 for x in es):
                break
    return ev, tx


def judged(ck, prop, ev, tx):
    rej = core.judge("ToolTrace", prop, ev, os.path.join(ck.work, "judge"))
    ck.traces += len(ev)
    kinds = {}
    for e in ev:
        kinds[e["op"] + " " + e["exit"]] = kinds.get(e["op"] + " " + e["exit"], 0) + 1
    ck.cov["recorded"] = kinds
    for i, tag in rej[:40]:
        t = tx[i]
        ck.violate(f"{tag} with {t['select']}: exit {t['exit']}, wrote {[rel(p) if p and isinstance(p[0], list) else bytes(p).decode() for p in ev[i]['wrote']]}, "
                   f"of {json.dumps(t['files'])[:700]}: {t['stderr'][:300]}", {"event": ev[i], "text": t})
    for i in range(0, len(ev), max(1, len(ev) // 3)):
        ck.sample({k: v for k, v in tx[i].items() if k != "stderr"})


def commands(ck, op):
    with Place() as pl:
        srv = core.Server([core.sch_bin()], env=pl.env)
        tool = Tool(pl)
        contents = model_contents(srv)
        for k, step in enumerate(model_steps(ck, {op})):
            replay(ck, pl, tool, contents, step, k, twice=op == "fmt" and k % 5 == 0)
            ck.traces += 1
        ev, tx = histories(ck, pl, srv, ck.n(260, 1500), [op])
        srv.stop()
    judged(ck, ck.prop, ev, tx)


def K02(ck):
    commands(ck, "fmt")


def K03(ck):
    commands(ck, "check")


# ------------------------------------------------------------------ packages of Go

class GoTool(Tool):
    def __init__(self, place):
        self.bin = core.repo_bin("mabo-go", "mabo-go")
        self.env = dict(core.ENV, **place.env)


def packages_of(o, at=()):
    at = [*at, o["name"]]
    return [(at + [o["name"] + ".go"], o["content"])] + [x for m in o["mods"] for x in packages_of(m, at)]


def packages(srv, pool, package):
    """Adds to every content the packages of its schema, their texts by number."""
    pool.texts = {}
    rows = [(row, d) for row, d in zip(pool.rows, pool.data)]
    outs = srv.pipeline([{"op": "go", "text": d.decode() if row["parses"] else "", "package": package} for row, d in rows])
    for (row, _), o in zip(rows, outs):
        row["go"] = [{"path": p, "f": pool.texts.setdefault(t, len(pool.texts) + 1)} for p, t in packages_of(o["go"])] if row["parses"] and "go" in o else []


def go_run(pl, tool, root, out, texts, k, *more, env=None):
    """Runs the generator; what is new or changed in the output directory."""
    before = snapshot(out)
    args = ["--no-fmt"] if not more else []
    if k % 3 == 0:
        exit_, err = tool.run(root, "--out-dir", out, *args)
    elif k % 3 == 1:
        exit_, err = tool.run(pl.home, "--project-dir", root, "-o", out, *args)
    else:
        exit_, err = tool.run(out, "--project-dir", root, *args)
    now = snapshot(out)
    outs = [{"path": p.split("/"), "f": texts.get(now[p][0].decode("utf8", "replace"), 0)}
            for p in sorted(now) if not p.endswith("/") and before.get(p) != now[p]]
    outs += [{"path": ["removed", p], "f": 0} for p in sorted(before) if p not in now]
    return exit_, err, outs


def K05(ck):
    with Place() as pl:
        srv = core.Server([core.sch_bin()], env=pl.env)
        tool = GoTool(pl)
        contents = model_contents(srv)
        pk = [packages_of(o["go"]) if "go" in o else [] for o in
              srv.pipeline([{"op": "go", "text": c.decode("utf8", "replace"), "package": "p"} for c in contents])]
        for k, step in enumerate(model_steps(ck, {"go"})):
            ck.traces += 1
            root, out = pl.fresh(), pl.fresh("out")
            setup(root, step["before"], contents)
            with open(os.path.join(root, "Mabo.toml"), "wb") as f:
                f.write(project_file(step["pats"]))
            os.makedirs(os.path.join(out, "p", "m"))
            for n in ("zz.go", "p/zz.go", "p/p.go", "p/m/m.go"):
                with open(os.path.join(out, n), "w") as f:
                    f.write("// of an earlier run\n")
            a = snapshot(root)
            exit_, err, outs = go_run(pl, tool, root, out, {t: [p, t] for ps in pk for p, t in ps}, k)
            story = f"packages of {[bytes(p).decode() for p in step['pats']]} on " + json.dumps({rel(p): contents[c].decode("latin1") for p, c in step["before"]})[:600]
            want = sorted("/".join(p) for p in step["outs"]) if exit_ == "ok" else []
            if exit_ not in ("ok", "bad") or (step["verdict"] != "open" and exit_ != step["verdict"] and not (step["many"] and exit_ == "bad")):
                ck.violate(f"{exit_} instead of {step['verdict']}: {story}: {err}", step)
            elif sorted("/".join(o["path"]) for o in outs) != want:
                ck.violate(f"wrote {['/'.join(o['path']) for o in outs]} instead of {want}: {story}", step)
            elif any(o["f"] == 0 or o["f"][0] != o["path"] for o in outs):
                ck.violate(f"a package with other contents than those of its module: {story}", step)
            elif snapshot(root) != a:
                ck.violate(f"the project is changed by the {story}", step)
        ev, tx = histories(ck, pl, srv, ck.n(100, 900), ["go"])
        e2, t2 = histories(ck, pl, srv, ck.n(60, 500), ["go"], whole=True)
        # packages of two schemas may not replace each other
        pool = Pool()
        es = []
        for n, d in (("a", "A"), ("b", "B")):
            i, = pool.schema([gen.struct(d, gen.unit())], f"struct {d}\n")
            es.append({"path": name_of(n + ".mabo"), "kind": "file", "c": i})
        packages(srv, pool, "p")
        root, out = pl.fresh(), pl.fresh("out")
        plant(root, es, lambda e: pool.data[e["c"] - 1])
        e, err = act(pl, tool, root, pool, es, "go", {"k": "project", "pats": [[["star"]]]}, 0, srv, out, strict=True)
        if core.judge("ToolTrace", "K05", [json.loads(json.dumps(e))], os.path.join(ck.work, "two")):
            ck.finding("go-overwrite", f"two schemas in a project: exit {e['exit']}, wrote {['/'.join(o['path']) for o in e['outs']]}", {"event": e})
        for fid, text in PANICS.items():
            root, out = pl.fresh(), pl.fresh("out")
            setup(root, [[[list(b"a.mabo")], 1]], [text.encode()] * 2)
            with open(os.path.join(root, "Mabo.toml"), "wb") as f:
                f.write(project_file(["*.mabo"]))
            exit_, err, outs = go_run(pl, tool, root, out, {}, 0)
            if exit_ == "crash":
                ck.finding(fid, f"packages of {text!r}: {err[-300:]}", {"text": text})
        # formatting what was written
        import shutil as sh
        fmt = sh.which("gofmt")
        for n, text in enumerate(("struct A\n", "mod m {\nmod n {\nenum E { A, B(u8 @1) }\n}\n}\nstruct B<T> { x: vec<T> }\n")):
            root, out = pl.fresh(), pl.fresh("out")
            setup(root, [[[list(b"a.mabo")], 1]], [text.encode()] * 2)
            with open(os.path.join(root, "Mabo.toml"), "wb") as f:
                f.write(project_file(["*.mabo"]))
            plain = {"/".join(p): t for p, t in packages_of(srv.ask({"op": "go", "text": text, "package": "p"})["go"])}
            exit_, err, outs = go_run(pl, tool, root, out, {}, n, "fmt")
            now = {p: x[0].decode() for p, x in snapshot(out).items() if not p.endswith("/")}
            if fmt:
                tidy = {p: subprocess.run([fmt, "-s"], input=t.encode(), capture_output=True).stdout.decode() for p, t in plain.items()}
                if exit_ != "ok" or now != tidy:
                    ck.violate(f"exit {exit_} and files {sorted(now)} of {text!r} are not the formatted packages: {err}", {"text": text})
            elif set(now) != set(plain):
                ck.violate(f"wrote {sorted(now)} instead of {sorted(plain)}", {"text": text})
        # a directory that is no project
        root, out = pl.fresh(), pl.fresh("out")
        setup(root, [[[list(b"a.mabo")], 1]], [b"struct A\n"] * 2)
        exit_, err, outs = go_run(pl, tool, root, out, {}, 0)
        if exit_ != "bad" or outs:
            ck.violate(f"a directory without a project file: exit {exit_}, wrote {outs}", {})
        srv.stop()
    judged(ck, "K05", ev + e2, tx + t2)


PANICS = {"const-type": "const A: vec<u8> = 1;\n", "nz-type": "struct A(non_zero<bool>)\n"}


def K04(ck):
    with Place() as pl:
        srv = core.Server([core.sch_bin()], env=pl.env)
        contents = model_contents(srv)
        for step in model_steps(ck, {"build"}):
            ck.traces += 1
            root, out = pl.fresh(), pl.fresh("out")
            setup(root, step["before"], contents)
            with open(os.path.join(root, "Mabo.toml"), "wb") as f:
                f.write(project_file(step["pats"]))
            old = {s + ".rs": f"// of an earlier build: {s}\n".encode() for s in ("a", "b", "c", "zz")}
            os.mkdir(os.path.join(out, "mabo"))
            for n, t in old.items():
                with open(os.path.join(out, "mabo", n), "wb") as f:
                    f.write(t)
            a = snapshot(root)
            ans = srv.ask({"op": "build", "dir": root, "out": out, "bytes": False}, timeout=60)
            story = f"build of {[bytes(p).decode() for p in step['pats']]} on " + json.dumps({rel(p): contents[c].decode("latin1") for p, c in step["before"]})[:600]
            ok = ans == {"ok": 1}
            if not ok and "berr" not in ans:
                ck.violate(f"{json.dumps(ans)[:300]}: {story}", step)
                continue
            if step["verdict"] != "open" and ok != (step["verdict"] == "ok"):
                ck.violate(f"{json.dumps(ans)[:300]} instead of {step['verdict']}: {story}", step)
                continue
            now = {p[5:]: x[0] for p, x in snapshot(out).items() if not p.endswith("/")}
            outs = {bytes(s).decode() + ".rs" for s in step["outs"]} if ok else set()
            stale = sorted(n for n in outs if now.get(n) in (None, old.get(n)))
            other = sorted(n for n in set(now) | set(old) if n not in outs and now.get(n) != old.get(n))
            if stale or other:
                ck.violate(f"outputs not written: {stale}, others changed: {other}: {story}", step)
            if snapshot(root) != a:
                ck.violate(f"the project is changed by a {story}", step)
        ev, tx = histories(ck, pl, srv, ck.n(120, 900), ["build"])
        e2, t2 = histories(ck, pl, srv, ck.n(60, 400), ["build"], whole=True)
        # what can not be written is reported
        root, out = pl.fresh(), pl.fresh("out")
        setup(root, [[[list(b"a.mabo")], 1]], contents)
        with open(os.path.join(root, "Mabo.toml"), "wb") as f:
            f.write(project_file(["*.mabo"]))
        with open(os.path.join(out, "mabo"), "w") as f:
            f.write("in the way\n")
        ans = srv.ask({"op": "build", "dir": root, "out": out, "bytes": False})
        if "berr" not in ans:
            ck.violate(f"a build into a directory that can not be created: {json.dumps(ans)[:300]}", {})
        os.remove(os.path.join(out, "mabo"))
        os.makedirs(os.path.join(out, "mabo", "a.rs"))
        ans = srv.ask({"op": "build", "dir": root, "out": out, "bytes": False})
        if "berr" not in ans:
            ck.violate(f"a build onto a directory: {json.dumps(ans)[:300]}", {})
        for fid, text in PANICS.items():
            root, out = pl.fresh(), pl.fresh("out")
            setup(root, [[[list(b"a.mabo")], 1]], [text.encode()] * 2)
            with open(os.path.join(root, "Mabo.toml"), "wb") as f:
                f.write(project_file(["*.mabo"]))
            ans = srv.ask({"op": "build", "dir": root, "out": out, "bytes": False})
            if "berr" not in ans:
                ck.finding(fid, f"build of {text!r}: {json.dumps(ans)[:300]}", {"text": text})
        srv.stop()
    judged(ck, "K04", ev + e2, tx + t2)
