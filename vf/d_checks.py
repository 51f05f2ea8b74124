"""D01: the pages of the documentation."""
import json, os, re, shutil, subprocess, tempfile
from html.parser import HTMLParser
from . import core, gen
from .g_checks import to_spec, restyle, every_const, every_generic

VOID = {"meta", "link", "br", "hr", "img", "input"}


class Node:
    def __init__(self, tag, attrs):
        self.tag, self.attrs, self.kids = tag, dict(attrs), []

    def has(self, cls):
        return cls in (self.attrs.get("class") or "").split()

    def text(self):
        return "".join(k if isinstance(k, str) else k.text() for k in self.kids)

    def all(self, tag=None, cls=None, deep=True):
        """Elements in order; deep=False: not inside of one another."""
        out = []
        for k in self.kids:
            if isinstance(k, Node):
                hit = (tag is None or k.tag == tag) and (cls is None or k.has(cls))
                if hit:
                    out.append(k)
                if deep or not hit:
                    out += k.all(tag, cls, deep)
        return out

    def child(self, tag=None, cls=None):
        return [k for k in self.kids if isinstance(k, Node) and (tag is None or k.tag == tag) and (cls is None or k.has(cls))]


class Dom(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = Node("", [])
        self.stack = [self.root]
        self.bad = ""

    def handle_starttag(self, tag, attrs):
        n = Node(tag, attrs)
        self.stack[-1].kids.append(n)
        if tag not in VOID:
            self.stack.append(n)

    def handle_startendtag(self, tag, attrs):
        self.stack[-1].kids.append(Node(tag, attrs))

    def handle_endtag(self, tag):
        if tag in VOID:
            return
        if self.stack[-1].tag != tag:
            self.bad = self.bad or f"</{tag}> inside of <{self.stack[-1].tag}>"
        for i in range(len(self.stack) - 1, 0, -1):
            if self.stack[i].tag == tag:
                del self.stack[i:]
                return

    def handle_data(self, d):
        self.stack[-1].kids.append(d)


def paragraphs(n):
    """What a rendered comment says, as paragraphs of lines."""
    if n is None:
        return []
    out = []
    for k in n.kids:
        if isinstance(k, Node):
            t = k.text()
            out.append([x.strip() for x in t.strip().split("\n")] if k.tag == "p" else ["<" + k.tag + ">" + t])
        elif k.strip():
            out.append(["?" + k])
    return out


def one(xs):
    return xs[0] if xs else None


def txt(n):
    return " ".join(n.text().split()) if n is not None else ""


RANGE = re.compile(r"^(\d+)(\.\.)?(\d+)?$")


def nested(n):
    """What is said about a size: a line, and a list of its parts."""
    if one(n.child("em")) and txt(one(n.child("em"))) == "unknown":
        return {"label": "unknown"}
    st, co = one(n.child("strong")), one(n.child("code"))
    m = RANGE.match(txt(co)) if co else None
    if not m or st is None:
        return {"label": "unreadable", "lo": 0, "hi": 0, "inner": []}
    cap = lambda x: min(int(x), 1 << 30)
    s = {"label": st.text(), "lo": cap(m.group(1)), "hi": cap(m.group(3)) if m.group(3) else (-1 if m.group(2) else cap(m.group(1))), "inner": []}
    for ul in n.child("ul"):
        for li in ul.child("li"):
            s["inner"].append({"name": "".join(k for k in li.kids[:1] if isinstance(k, str)).strip().rstrip(":"), "size": nested(li)})
    return s


def size(li):
    for d in li.child("div"):
        if [h for h in d.child("h4") if txt(h) == "Metadata"]:
            m = one(d.all("div", "markdown"))
            ps = m.child("p") if m else []
            if len(ps) != 1:
                return {"label": "unreadable", "lo": 0, "hi": 0, "inner": []}
            n = Node("", [])
            n.kids = ps[0].kids + m.child("ul")
            return nested(n)
    return {"label": "unknown"}


def members(ul):
    out = []
    for li in (ul.child("li") if ul is not None else []):
        out.append({"name": txt(one(li.all("span", "field-name"))), "ty": txt(one(li.all("span", "field-type"))),
                    "id": txt(one(li.all("span", "field-id"))), "comment": paragraphs(one(li.child("div", "markdown"))), "size": size(li), "big": False})
    return out


STR = {"n": "\n", "t": "\t", "r": "\r", '"': '"', "\\": "\\", "'": "'", "0": "\0"}


def literal(ty, s):
    """The value of a constant as it is printed."""
    import struct
    try:
        if s in ("true", "false") and ty == "bool":
            return {"k": "bool", "v": s}
        if ty in ("f32", "f64"):
            return {"k": "float", "v": struct.pack(">d", float(s)).hex()}
        if ty[0] in "ui":
            return {"k": "int", "v": str(int(s))}
        if s.startswith('"') and s.endswith('"'):
            v = re.sub(r"\\(u\{([0-9a-f]+)\}|.)", lambda m: chr(int(m.group(2), 16)) if m.group(2) else STR[m.group(1)], s[1:-1], flags=re.S)
            return {"k": "str", "v": v}
        if s.startswith("[") and s.endswith("]"):
            return {"k": "bytes", "v": bytes(int(x) for x in s[1:-1].split(",") if x.strip()).hex()}
    except (ValueError, KeyError):
        pass
    return {"k": "?", "v": s}


def page(path, content):
    p = {"path": path, "kind": "?", "title": "", "name": "", "crumbs": [], "def": "", "comment": [], "members": [], "variants": [], "next": [], "rows": [],
         "lit": {"k": "none", "v": ""}}
    d = Dom()
    d.feed(content)
    d.close()
    if d.bad or len(d.stack) != 1:
        p["kind"] = "not well-formed: " + d.bad
        return p
    p["title"] = txt(one(d.root.all("title")))
    sections = d.root.all("div", "section")
    h2 = [(s, h) for s in sections for h in s.child("h2")]
    if len(h2) != 1 or not isinstance(h2[0][1].kids[0], str):
        return p
    s, h = h2[0]
    words = h.kids[0].split()
    p["kind"] = words[0] if words else "?"
    if p["kind"] == "Schema":
        p["name"] = " ".join(words[1:])
    else:
        p["name"] = txt(one(h.child("span")))
    p["crumbs"] = [{"text": a.text(), "href": (a.attrs.get("href") or "").split("/")} for a in h.all("a")]
    pre = one(s.child("pre"))
    p["def"] = pre.text() if pre else ""
    m = re.match(r"(const \S+: (\S+) = )(.*);$", p["def"], re.S)
    if p["kind"] == "Constant" and m:
        p["def"], p["lit"] = m.group(1), literal(m.group(2), m.group(3))
    p["comment"] = paragraphs(one(s.child("div", "markdown")))
    for s in sections:
        h3 = one(s.child("h3"))
        if h3 is None:
            continue
        t = h3.text().strip()
        if t == "Fields":
            p["members"] += members(one(s.child("ul")))
        elif t == "Metadata":
            p["next"] = [txt(x) for x in s.all("code")]
        elif t == "Variants":
            for li in one(s.child("ul")).child("li"):
                ul = [u for dv in li.child("div") for u in dv.child("ul")]
                p["variants"].append({"name": txt(one(li.all("span", "variant-name"))), "id": txt(one(li.all("span", "variant-id"))),
                                      "comment": paragraphs(one(li.child("div", "markdown"))), "members": members(one(ul))})
        else:
            for tr in s.all("tr"):
                td = tr.child("td")
                a = one(tr.all("a"))
                p["rows"].append({"sec": t, "name": txt(a), "href": ((a.attrs.get("href") if a else "") or "").split("/"),
                                  "comment": paragraphs(td[1]) if len(td) > 1 else [["?"]]})
    return p


def pages(o, parent=()):
    """Every page with its path, the pages of a module below its name."""
    out = [(list(parent) + o["file"].split("/"), o["content"])]
    for m in o["mods"]:
        out += pages(m, parent + (o["name"],))
    return out


LINES = ["a comment", "with <b>markup</b> & more", "x < y", "ünïcödé ☃", "the end", "emoji \U0001F600 end", "says \"so\" and 'so'", "plain words here", "", "", "   "]


def recomment(r, defs):
    for d in defs:
        if d["d"] == "use":
            continue
        c = lambda: [r.choice(LINES) for _ in range(gen.seldom(r, r.choice([0, 0, 1, 2, 4]), 6, 30, 0.03))]
        d["comment"] = c()
        for f in [d["fields"]] if d["d"] == "struct" else [v["fields"] for v in d["variants"]] if d["d"] == "enum" else []:
            for x in f["fs"]:
                x["comment"] = c() if f["k"] == "named" else []
        for v in d.get("variants", []):
            v["comment"] = c()
        if d["d"] == "mod":
            recomment(r, d["defs"])


def renders(srv, cases):
    """cases: (tag, name, schema)"""
    qs = [{"op": "doc", "text": gen.text(s, gen.Tidy()), "path": "dir/" + n + ".mabo"} for _, n, s in cases]
    ans = srv.pipeline(qs)
    ev = []
    for (tag, n, s), a in zip(cases, ans):
        ps = [page(p, c) for p, c in pages(a["doc"])] if "doc" in a else []
        ev.append({"op": "doc", "tag": tag, "name": n, "comment": s["comment"], "defs": to_spec(s["defs"]), "pages": ps})
    return qs, ans, ev


def written(ck, srv, cli, projects):
    """What the tool writes for projects of (file, name, schema)."""
    ev, tx = [], []
    base = tempfile.mkdtemp(prefix="d01-")
    try:
        for i, schemas in enumerate(projects):
            root = os.path.join(base, str(i))
            os.makedirs(os.path.join(root, "p"))
            with open(os.path.join(root, "p", "Mabo.toml"), "w") as f:
                f.write('[package]\nname = "x"\nfiles = ["**/*.mabo"]\n')
            want = {}
            for file, n, s in schemas:
                q = os.path.join(root, "p", file)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, "w") as f:
                    f.write(gen.text(s, gen.Tidy()))
                a = srv.ask({"op": "doc", "text": gen.text(s, gen.Tidy()), "path": file})
                for p, c in pages(a["doc"]) if "doc" in a else []:
                    want["/".join([n] + p)] = c
            out = os.path.join(root, "out")
            r = subprocess.run([cli, "doc", "--project-dir", os.path.join(root, "p"), out], capture_output=True, text=True, cwd=root,
                               env=dict(os.environ, HOME=root, XDG_CONFIG_HOME=root))
            got = {}
            for d, _, fs in os.walk(out):
                for x in fs:
                    with open(os.path.join(d, x), encoding="utf8") as f:
                        got[os.path.relpath(os.path.join(d, x), out)] = f.read()
            ev.append({"op": "tree", "tag": "tree", "schemas": [{"name": n, "defs": to_spec(s["defs"])} for _, n, s in schemas], "ok": r.returncode == 0,
                       "files": [x.split("/") for x in sorted(got)], "same": all(got[x] == want.get(x) for x in got)})
            tx.append({"files": {f: gen.text(s, gen.Tidy()) for f, _, s in schemas}, "stderr": r.stderr[-400:], "written": sorted(got)})
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return ev, tx


def D01(ck):
    srv = core.Server([core.sch_bin(doc=True)])
    cli = core.repo_bin("mabo-cli", "mabo")
    cases = []
    shapes = [("1", "2")] + ([("2", "2")] if ck.thorough else [])
    for d, w in shapes:
        rc, o = core.tlc("MCDoc", "SPECIFICATION Spec\nINVARIANTS Laws Emit\n", os.path.join(ck.work, "mc"), env={"DEPTH": d, "WIDTH": w})
        if rc:
            raise core.Broken("the model of pages violates its laws:\n" + o[-4000:])
        small = [json.loads(s[5:]) for s in sorted(set(core.printed(o))) if s.startswith("CASE ")]
        ck.cov["enumerated_schemas"] = ck.cov.get("enumerated_schemas", 0) + len(small)
        lim = ck.n(900, 12000)
        small = small if len(small) <= lim else ck.rng.sample(small, lim)
        cases += [("enum", "s", {"comment": ck.rng.choice([[], ["about"]]), "defs": from_spec(d)}) for d in small]
    rc, o = core.tlc("MCTypes", "SPECIFICATION Spec\nINVARIANT Laws\n", os.path.join(ck.work, "types"), env={"BYTES": "0", "DEPTH": "2"})
    if rc:
        raise core.Broken("the type model violates its laws:\n" + o[-3000:])
    ts = [json.loads(x) for x in sorted({s[5:] for s in core.printed(o) if s.startswith("CASE ")})]
    ck.cov["enumerated_types"] = len(ts)
    ck.rng.shuffle(ts)
    ts = ts[:ck.n(800, 5000)]
    for j in range(0, len(ts), 8):
        g = ts[j:j + 8]
        k = (j // 8) % 3
        d = gen.struct("S", gen.named(*[gen.field("f%d" % i, t) for i, t in enumerate(g)])) if k == 0 else \
            gen.enum("E", [gen.variant("V%d" % i, gen.unnamed(gen.field("", t))) for i, t in enumerate(g)]) if k == 1 else \
            gen.struct("S", gen.unnamed(*[gen.field("", t) for t in g]))
        cases.append(("type", "types", gen.schema([d] + ([gen.alias("A%d" % i, t) for i, t in enumerate(g)] if k == 2 else []))))
    cases += every_generic(ck)
    for k, n, s in every_const(ck):
        recomment(ck.rng, s["defs"])
        cases.append((k, n, s))
    projects = []
    for i in range(ck.n(200, 2500)):
        g = gen.CodeGen(ck.rng)
        p = restyle(ck.rng, g.project(ck.rng.choice([1, 1, 2, 3])))
        for n, s in p:
            recomment(ck.rng, s["defs"])
            s["comment"] = [ck.rng.choice(LINES) for _ in range(ck.rng.choice([0, 1, 3]))]
            cases.append(("gen", n, s))
        if i % 5 == 0:
            dirs = [ck.rng.choice(["", "a/", "b/", "a/b/"]) for _ in p]
            projects.append([(d + n + ".mabo", n, s) for d, (n, s) in zip(dirs, p)])
            if len(p) > 1 and ck.rng.random() < 0.5:      # files of the same name
                (f0, n0, s0), (f1, n1, s1) = projects[-1][:2]
                projects[-1][1] = (("z/" if not f0.startswith("z/") else "") + n0 + ".mabo", n0, s1)
    qs, ans, ev = renders(srv, cases)
    rej = core.judge("DocTrace", "D01", ev, os.path.join(ck.work, "judge"))
    ck.traces += len(ev)
    for i, tag in rej[:20]:
        ck.violate(f"the documentation of this schema is not the one it stands for: {qs[i]['text'][:500]!r}", {"schema": qs[i]["text"], "answer": ans[i]})
    for i in range(0, len(ev), max(1, len(ev) // 3)):
        ck.sample({"schema": qs[i]["text"], "pages": ["/".join(p["path"]) for p in ev[i]["pages"]]})
    tev, tx = written(ck, srv, cli, projects)
    ck.traces += len(tev)
    for i, tag in core.judge("DocTrace", "D01", tev, os.path.join(ck.work, "tree")):
        ck.violate(f"the doc command wrote {tx[i]['written'][:12]} for {sorted(tx[i]['files'])}: {tx[i]['stderr']!r}", tx[i])
    ck.cov["schemas"], ck.cov["projects"] = len(ev), len(tev)
    srv.stop()


def from_spec(defs):
    from .tree import number

    def ids(x):
        if isinstance(x, list):
            return [ids(y) for y in x]
        if isinstance(x, dict):
            return {k: ([str(number(i)) for i in v] if k == "id" else ids(v)) for k, v in x.items()}
        return x
    out = ids(defs)

    def attrs(ds):
        for d in ds:
            if d["d"] in ("struct", "enum"):
                d.setdefault("attrs", [])
            if d["d"] == "mod":
                attrs(d["defs"])
    attrs(out)
    return out
