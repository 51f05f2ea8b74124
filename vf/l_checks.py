"""Language server over stdio.  Records conversations; Lsp (by way of LspTrace) judges them."""
import hashlib, json, os, random, re, shutil, socket as sockets, subprocess, tempfile, threading, time, urllib.parse
from concurrent.futures import ThreadPoolExecutor
from . import core, gen, f_checks

ENCS = ("utf-8", "utf-16", "utf-32")
CFGS = {"default": {"hover": {"showNextId": True, "showWireSize": True}},
        "quiet": {"hover": {"showNextId": False, "showWireSize": False}},
        "sizes": {"hover": {"showNextId": False, "showWireSize": True}},
        "ids": {"hover": {"showNextId": True, "showWireSize": False}}}
WAIT = 12.0


# ------------------------------------------------------------------ texts and positions (bytes)

def units(c, enc):
    return {"utf-8": len(c.encode()), "utf-16": len(c.encode("utf-16-le")) // 2, "utf-32": 1}[enc]


def line_starts(t):
    return [0] + [m.end() for m in re.finditer(rb"\r\n|\n|\r", t)]


def pos(t, o, enc):
    ls = line_starts(t)
    n = max(i for i, s in enumerate(ls) if s <= o and not (i and s == o and t[o - 1:o + 1] == b"\r\n"))
    return [n, sum(units(c, enc) for c in t[ls[n]:o].decode())]


def off(t, p, enc):
    ls = line_starts(t)
    s = ls[p[0]]
    e = s
    while e < len(t) and t[e] not in b"\r\n":
        e += 1
    n, o = p[1], s
    for c in t[s:e].decode():
        if n <= 0:
            break
        n -= units(c, enc)
        o += len(c.encode())
    assert n >= 0 or o == e or n == 0, "inside of a character"
    return o


def boundaries(t):
    return [i for i in range(len(t) + 1) if i == len(t) or t[i] & 0xC0 != 0x80]


def spots(t):
    return [i for i in boundaries(t) if t[i - 1:i + 1] != b"\r\n" or i == 0]


def apply(t, c, enc):
    if len(c) == 1:
        return c[0]
    s, e = off(t, c[0], enc), off(t, c[1], enc)
    return t[:s] + c[2] + t[e:]


# ------------------------------------------------------------------ client

def build():
    return core.repo_bin("mabo-lsp", "mabo-lsp")


def rng_json(r):
    return [[r["start"]["line"], r["start"]["character"]], [r["end"]["line"], r["end"]["character"]]]


def p_json(p):
    return {"line": p[0], "character": p[1]}


class Lsp:
    """A client; everything sent and received is kept in order."""

    def __init__(self, binary, home, encs=None, friendly=True, cfg="default", init=True, folders=None, extra=None, socket=False):
        env = dict(core.ENV, HOME=home, XDG_CACHE_HOME=os.path.join(home, "cache"), TZ="UTC")
        os.makedirs(home, exist_ok=True)
        if socket:
            with sockets.create_server(("127.0.0.1", 0)) as s:
                s.settimeout(WAIT)
                self.p = subprocess.Popen([binary, "--socket", str(s.getsockname()[1])], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                          stderr=subprocess.DEVNULL, env=env, cwd=home)
                try:
                    self.sock = s.accept()[0]
                except TimeoutError:
                    self.p.kill()
                    raise core.Broken("the server does not connect")
            self.sock.settimeout(None)
            self.inp, self.outp = self.sock.makefile("rb"), self.sock.makefile("wb")
        else:
            self.sock = None
            self.p = subprocess.Popen([binary, "--stdio"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=home)
            self.inp, self.outp = self.p.stdout, self.p.stdin
        self.cv = threading.Condition()
        self.wl = threading.Lock()
        self.got, self.sent, self.asks, self.closed = [], [], [], False
        self.replies = {}
        self.friendly, self.cfg = friendly, cfg
        self.next = 0
        self.enc = None
        threading.Thread(target=self.read, daemon=True).start()
        if init:
            caps = {} if encs is None else {"general": {"positionEncodings": encs}}
            r = self.request("initialize", {"capabilities": caps, "processId": None, "rootUri": None, **(extra or {}),
                                            **({"workspaceFolders": folders} if folders else {})}, record=False)
            self.init = self.wait(r)
            if self.init is None or "result" not in self.init:
                raise core.Broken(f"the server does not start: {self.init}")
            self.enc = self.init["result"]["capabilities"].get("positionEncoding")
            leg = self.init["result"]["capabilities"]["semanticTokensProvider"]["legend"]
            self.legend, self.mods = leg["tokenTypes"], leg["tokenModifiers"]
            self.write({"method": "initialized", "params": {}})

    # output of the server
    def read(self):
        f = self.inp
        while True:
            n = None
            while True:
                h = f.readline()
                if not h or h in (b"\r\n", b"\n"):
                    break
                if h.lower().startswith(b"content-length:"):
                    n = int(h.split(b":")[1])
            if n is None:
                break
            d = f.read(n)
            if len(d) < n:
                break
            m = json.loads(d)
            with self.cv:
                self.got.append(m)
                if "method" in m and "id" in m:
                    self.asks.append(m)
                elif "id" in m:
                    self.replies.setdefault(m["id"], m)
                self.cv.notify_all()
            if "method" in m and "id" in m:
                if m["method"] != "workspace/configuration":
                    if self.friendly or self.friendly is None:
                        self.write({"id": m["id"], "result": None})
                elif self.friendly:
                    self.answer(m, self.cfg)
        with self.cv:
            self.closed = True
            self.cv.notify_all()

    def write(self, m, rec=None):
        m = dict(m, jsonrpc="2.0")
        d = json.dumps(m).encode()
        with self.wl:
            if rec is not None:
                self.sent.append(rec)
            try:
                self.outp.write(b"Content-Length: %d\r\n\r\n" % len(d) + d)
                self.outp.flush()
            except (BrokenPipeError, OSError, ValueError):
                pass

    def answer(self, ask, cfg):
        """Reply to a question for the settings."""
        if cfg in CFGS:
            self.write({"id": ask["id"], "result": [CFGS[cfg]]}, {"m": "reply", "cfg": cfg})
        else:
            bad = {"error": {"error": {"code": -32603, "message": "no"}}, "null": {"result": None}, "empty": {"result": []},
                   "two": {"result": [CFGS["quiet"], CFGS["quiet"]]}, "type": {"result": [7]}, "elem": {"result": [{"hover": 1}]},
                   "obj": {"result": {"a": 1}}}[cfg]
            self.write(dict(bad, id=ask["id"]), {"m": "reply", "cfg": "none"})

    def request(self, method, params, rec=None, record=True, id=None):
        self.next += 1
        i = id if id is not None else self.next
        m = {"id": i, "method": method}
        if params is not ...:
            m["params"] = params
        self.write(m, dict(rec or {}, id=i) if record else None)
        return i

    def wait(self, id, timeout=WAIT):
        with self.cv:
            self.cv.wait_for(lambda: id in self.replies or self.closed, timeout)
            return self.replies.get(id)

    def wait_ask(self, n, timeout=WAIT):
        """The n-th question for the settings."""
        def f():
            return [a for a in self.asks if a["method"] == "workspace/configuration"]
        with self.cv:
            self.cv.wait_for(lambda: len(f()) > n or self.closed, timeout)
            return f()[n] if len(f()) > n else None

    # messages
    def open(self, uri, t):
        self.write({"method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "languageId": "mabo", "version": 1, "text": t.decode()}}},
                   {"m": "open", "uri": uri, "text": list(t)})

    def change(self, uri, cs):
        ch = [{"text": c[0].decode()} if len(c) == 1 else {"range": {"start": p_json(c[0]), "end": p_json(c[1])}, "text": c[2].decode()} for c in cs]
        self.write({"method": "textDocument/didChange", "params": {"textDocument": {"uri": uri, "version": 2}, "contentChanges": ch}},
                   {"m": "change", "uri": uri, "changes": [[list(c[0])] if len(c) == 1 else [c[0], c[1], list(c[2])] for c in cs]})

    def close(self, uri):
        self.write({"method": "textDocument/didClose", "params": {"textDocument": {"uri": uri}}}, {"m": "close", "uri": uri})

    def delete(self, uris):
        self.write({"method": "workspace/didDeleteFiles", "params": {"files": [{"uri": u} for u in uris]}}, {"m": "delete", "uris": list(uris)})

    def config(self):
        self.write({"method": "workspace/didChangeConfiguration", "params": {"settings": None}}, {"m": "config"})

    def symbols(self, uri):
        return self.request("textDocument/documentSymbol", {"textDocument": {"uri": uri}}, {"m": "symbols", "uri": uri, "pos": []})

    def tokens(self, uri):
        return self.request("textDocument/semanticTokens/full", {"textDocument": {"uri": uri}}, {"m": "tokens", "uri": uri, "pos": []})

    def hover(self, uri, p):
        return self.request("textDocument/hover", {"textDocument": {"uri": uri}, "position": p_json(p)}, {"m": "hover", "uri": uri, "pos": list(p)})

    def unknown(self, r):
        return self.request(r.choice(["textDocument/definition", "mabo/what", "textDocument/semanticTokens/range", "initialize", "$/x"]),
                            r.choice([{}, None, [1], ...]), {"m": "bad"})

    def malformed(self, r):
        return self.request(r.choice(["textDocument/hover", "textDocument/documentSymbol", "textDocument/semanticTokens/full"]),
                            r.choice([{}, None, [1], ..., {"textDocument": 1}, {"textDocument": {"uri": 5}}, {"textDocument": {"uri": "::no uri::"}, "position": {"line": -1, "character": 0}},
                                      {"textDocument": {"uri": "file:///a"}, "position": {"line": 1.5, "character": "x"}, "range": 1}][:7]), {"m": "bad"})

    def noise(self, r):
        self.write({"method": r.choice(["$/cancelRequest", "mabo/event", "textDocument/didSave", "$/setTrace", "workspace/didChangeWatchedFiles"]),
                    **r.choice([{"params": {}}, {"params": {"id": 1}}, {}, {"params": None}])}, {"m": "noise"})

    def junk(self, r):
        """Notifications that are known but make no sense."""
        self.write({"method": r.choice(["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "workspace/didDeleteFiles"]),
                    "params": r.choice([None, {}, [], {"textDocument": {"uri": 3}}, {"contentChanges": [{}]}, {"files": 1}])}, {"m": "noise"})

    def stray(self, r):
        self.write(r.choice([{"id": 987654, "result": None}, {"id": "zz", "error": {"code": 1, "message": "x"}}, {"id": 0, "result": [CFGS["quiet"]]}]),
                   {"m": "noise"})

    def leave(self):
        """The client goes away without a word."""
        for f in (self.outp, self.sock):
            try:
                if f is self.sock and f:
                    f.shutdown(sockets.SHUT_RDWR)
                if f:
                    f.close()
            except OSError:
                pass

    def stop(self):
        self.leave()
        try:
            self.p.wait(3)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


def digest(x, uri=None):
    s = json.dumps(x, sort_keys=True)
    if uri:
        s = s.replace(json.dumps(uri)[1:-1], "URI")
    return hashlib.sha1(s.encode()).hexdigest()[:12]


def ans(m, uri=None):
    return "error" if m is None or "error" in m else digest(m.get("result"), uri)


class Oracle:
    """What undisturbed servers say about documents."""

    def __init__(self, binary, home):
        self.bin, self.home, self.memo = binary, home, {}
        self.lock = threading.Lock()
        self.k = 0

    def look(self, enc, jobs):
        """jobs: {(text or None, cfg): set of hover positions}"""
        with self.lock:
            self.k += 1
            home = os.path.join(self.home, f"o{self.k}")
        srv, out, used = None, {}, 0
        cur = None
        for (t, cfg), hs in sorted(jobs.items(), key=lambda x: (x[0][1], x[0][0] or b"")):
            if srv is None or used >= 40 or cur != cfg:
                if srv:
                    srv.stop()
                srv, used, cur = Lsp(self.bin, home, [enc], cfg=cfg), 0, cfg
                srv.wait_ask(0)
                srv.wait(srv.symbols("file:///none"))
            used += 1
            uri = f"file:///fresh{used}.mabo"
            n = len(srv.got)
            if t is not None:
                srv.open(uri, t)
            ids = [("symbols", (), srv.symbols(uri)), ("tokens", (), srv.tokens(uri))] + [("hover", tuple(p), srv.hover(uri, p)) for p in sorted(hs)]
            for k, p, i in ids:
                out[(k, t, p, cfg)] = ans(srv.wait(i), uri)
            if t is not None:
                ds = [m for m in srv.got[n:] if m.get("method") == "textDocument/publishDiagnostics" and m["params"]["uri"] == uri]
                out[("diag", t, (), cfg)] = digest(ds[-1]["params"]["diagnostics"], uri) if ds else "nothing"
            if srv.closed:
                srv.stop()
                srv = None
        if srv:
            srv.stop()
        return out

    def need(self, enc, jobs, pool):
        """Ask for all of it, in parallel."""
        todo = {}
        for (t, cfg), hs in jobs.items():
            new = {tuple(p) for p in hs} - {k[2] for k in () }
            todo[(t, cfg)] = new
        items = sorted(todo.items(), key=lambda x: (x[0][1], x[0][0] or b""))
        n = max(1, min(8, len(items) // 20))
        parts = [dict(items[i::n]) for i in range(n)]
        for out in pool.map(lambda part: self.look(enc, part), parts):
            for k, v in out.items():
                self.memo[(enc,) + k] = v


def record(srv, since_got, since_sent, enc, alive=True):
    """The conversation since then."""
    sent = srv.sent[since_sent:]
    got = srv.got[since_got:]
    uri_of = {m["id"]: m.get("uri") for m in sent if "id" in m}
    mine = set(uri_of)
    replies = [{"id": m["id"], "ans": ans(m, uri_of.get(m["id"]))} for m in got if "method" not in m and m.get("id") in mine]
    diags = [{"uri": m["params"]["uri"], "ans": digest(m["params"]["diagnostics"], m["params"]["uri"])} for m in got
             if m.get("method") == "textDocument/publishDiagnostics"]
    return {"op": "session", "enc": enc, "sent": sent, "replies": replies, "diags": diags, "alive": alive}


def settings_of(sent, i):
    """Settings a request may have been answered with."""
    a = max([j for j in range(i) if sent[j]["m"] == "settled"], default=-1)
    b = min([j for j in range(i + 1, len(sent)) if sent[j]["m"] == "settled"], default=len(sent))
    return {sent[a]["cfg"] if a >= 0 else "default"} | {m["cfg"] for m in sent[a + 1:b] if m["m"] == "reply" and m["cfg"] != "none"}


def wanted(ev):
    """What has to be known about undisturbed servers to judge the conversation."""
    docs, out = {}, {}
    for i, m in enumerate(ev["sent"]):
        k = m["m"]
        if k == "open":
            docs[m["uri"]] = bytes(m["text"])
            out.setdefault((docs[m["uri"]], "default"), set())
        elif k == "change":
            t = docs.get(m["uri"])
            known = isinstance(t, bytes)
            for c in m["changes"]:
                if len(c) == 1:
                    t = bytes(c[0])
                elif isinstance(t, bytes):
                    try:
                        s, e = off(t, c[0], ev["enc"]), off(t, c[1], ev["enc"])
                        t = t[:s] + bytes(c[2]) + t[e:] if s <= e else "any"
                    except (AssertionError, IndexError):
                        t = "any"
            docs[m["uri"]] = t if isinstance(t, bytes) else "any"
            if known and isinstance(t, bytes):
                out.setdefault((t, "default"), set())
        elif k == "files":
            docs.update({x["uri"]: bytes(x["text"][0]) if x["text"] else "any" for x in m["files"]})
        elif k == "close":
            if docs.get(m["uri"]) is not None:
                docs[m["uri"]] = "any"
        elif k == "delete":
            for u in m["uris"]:
                docs[u] = None
        elif k in ("symbols", "tokens", "hover"):
            t = docs.get(m["uri"])
            if t == "any":
                continue
            out.setdefault((t, "default"), set())
            if k == "hover":
                for c in settings_of(ev["sent"], i):
                    out.setdefault((t, c), set()).add(tuple(m["pos"]))
    return out


def complete(evs, oracle):
    """Add what undisturbed servers say."""
    with ThreadPoolExecutor(8) as pool:
        for enc in ENCS:
            jobs = {}
            for e in evs:
                if e["enc"] == enc:
                    e["w"] = wanted(e)
                    for k, hs in e["w"].items():
                        jobs.setdefault(k, set()).update(hs)
            if jobs:
                oracle.need(enc, jobs, pool)
    for e in evs:
        fresh = []
        for (t, cfg), hs in e.pop("w").items():
            tt = [] if t is None else [list(t)]
            for k in ("symbols", "tokens", "diag"):
                v = oracle.memo.get((e["enc"], k, t, (), cfg))
                if v is not None and cfg == "default":
                    fresh.append({"kind": k, "text": tt, "pos": [], "cfg": cfg, "ans": v})
            for p in hs:
                fresh.append({"kind": "hover", "text": tt, "pos": list(p), "cfg": cfg, "ans": oracle.memo[(e["enc"], "hover", t, tuple(p), cfg)]})
        e["fresh"] = fresh


def tell(m):
    m = dict(m)
    if "files" in m:
        m["files"] = [[x["uri"]] + [bytes(t).decode("utf8", "replace") for t in x["text"]] for x in m["files"]]
    for k in ("text",):
        if k in m:
            m[k] = bytes(m[k]).decode("utf8", "replace")
    if "changes" in m:
        m["changes"] = [[bytes(c[-1]).decode("utf8", "replace")] if len(c) == 1 else [c[0], c[1], bytes(c[2]).decode("utf8", "replace")] for c in m["changes"]]
    return m


def judged(ck, evs, what, chunk=10):
    rej = core.judge("LspTrace", ck.prop, evs, os.path.join(ck.work, "judge"), chunk=chunk)
    ck.traces += len(evs)
    for i, tag in rej:
        e = evs[i]
        if tag.startswith("finding:"):
            ck.finding(tag[8:], what(e), e)
        else:
            d = dict(e)
            if "sent" in d:
                d["story"] = [tell(m) for m in d["sent"]]
            ck.violate(what(e), d)
    return rej


def story(e, n=260):
    return json.dumps([{k: v for k, v in tell(m).items() if k != "fresh"} for m in e["sent"]], ensure_ascii=False)[:n]


# ------------------------------------------------------------------ L01

def edits(ck, enc):
    rc, out = core.tlc("MCLspEdit", "SPECIFICATION Spec\nINVARIANTS Emit RoundTrip Ordered Coarser Composes\n",
                       os.path.join(ck.work, "mc-" + enc), env={"DEEP": "1" if ck.thorough else "0", "ENC": enc}, workers=4 if ck.thorough else 3)
    if rc:
        raise core.Broken("the model of documents violates its laws:\n" + out[-3000:])
    hs = sorted({s[5:] for s in core.printed(out) if s.startswith("HIST ")})
    ck.cov["edit_histories_" + enc] = len(hs)
    return [json.loads(s) for s in hs]


def start(binary, ck, name, enc, **kw):
    srv = Lsp(binary, os.path.join(ck.work, "home", name), [enc], **kw)
    if kw.get("friendly", True):
        srv.wait_ask(0)
        srv.wait(srv.symbols("file:///none"))
    return srv


def alive(srv):
    """A last request tells whether everything was worked on."""
    i = srv.request("textDocument/documentSymbol", {"textDocument": {"uri": "file:///barrier"}}, record=False)
    return srv.wait(i) is not None


def play(binary, ck, name, enc, scripts, per=60, **kw):
    """Plays scripts (functions of the client and a prefix for documents) and records a conversation for each."""
    evs, srv, used, bad = [], None, 0, 0
    for k, f in enumerate(scripts):
        if bad >= 3:
            break  # it is broken, and waiting for more of it takes long
        if srv is None or used >= per or srv.closed:
            if srv:
                srv.stop()
            srv, used = start(binary, ck, f"{name}", enc, **kw), 0
        used += 1
        g, s = len(srv.got), len(srv.sent)
        f(srv, f"file:///{name}-{k}-")
        a = alive(srv)
        evs.append(record(srv, g, s, enc, a))
        if not a:
            srv.stop()
            srv = None
            bad += 1
    if srv:
        srv.stop()
    return evs


def parallel(binary, ck, enc_scripts, **kw):
    """enc_scripts: [(enc, script)]"""
    jobs = []
    for enc in ENCS:
        fs = [f for e, f in enc_scripts if e == enc]
        n = 8 if len(fs) > 200 else 3
        for i in range(n):
            if fs[i::n]:
                jobs.append((enc, i, fs[i::n]))
    with ThreadPoolExecutor(8) as pool:
        parts = list(pool.map(lambda j: play(binary, ck, f"{j[0]}-{j[1]}", j[0], j[2], **kw), jobs))
    return [e for p in parts for e in p]


def history(h, r):
    """One of the model's histories."""
    enc = h["enc"]
    notes = [[[bytes(c[0])] if len(c) == 1 else [c[0], c[1], bytes(c[2])] for c in n] for n in h["notes"]]
    t = bytes(h["text"])
    p = pos(t, r.choice(spots(t)), enc)
    q = r.random()

    def f(srv, pre):
        u = pre + "d"
        srv.open(u, bytes(h["start"]))
        for n in notes:
            srv.change(u, n)
        srv.symbols(u)
        srv.tokens(u)
        if q < 0.3:
            srv.hover(u, p)
    return f


def some_texts(ck, n, valid=0.7):
    """Texts that are schemas, or nearly."""
    r = random.Random(f"{ck.seed}-{ck.prop}-texts")
    out = []
    for i in range(n):
        g = gen.SynGen(r, comments=True, attrs=r.random() < 0.3, depth=r.choice([0, 1, 2]))
        s = g.schema(valid=True)
        s["defs"] = s["defs"][:r.randint(1, 4)]
        t = gen.text(f_checks.respell(r, s), gen.Rnd(r, r.choice([0.1, 0.4])))
        if r.random() > valid:
            t = f_checks.mutate(r, t)
        if r.random() < 0.3:
            t = "/// " + "".join(r.choice("aé€\U0001F600ß") for _ in range(4)) + "\n\n" + t
        if not re.search(r"\r(?!\n)", t) and len(t) < 900:
            out.append(t.encode())
    return out


def random_edit(r, t, enc, pool):
    c = r.random()
    sp = spots(t)
    a = r.choice(sp)
    b = a if c < 0.4 else r.choice([x for x in sp if a <= x <= a + 12] or [a])
    new = r.choice([b"", b"x", b"\n", "é".encode(), "\U0001F600".encode(), b"\r\n", b"struct Q(u8)\n", b"/// z\n", b"_", b"}", b", "])
    if r.random() < 0.06:
        return [r.choice(pool)]
    p, q = pos(t, a, enc), pos(t, b, enc)
    if r.random() < 0.1:
        # beyond the end of the line
        q = [q[0], r.choice([1000, 2 ** 31 - 1])]
        b = off(t, q, enc)
    return [p, q, new]


def stores(ck, disk=False):
    """Histories of several documents whose names are alike."""
    rc, out = core.tlc("MCLspDocs", "SPECIFICATION Spec\nINVARIANTS Emit Independent Fresh Gone Kept\n", os.path.join(ck.work, "mc-docs"),
                       env={"SIZE": "4" if ck.thorough else "3", "DISK": "1" if disk else "0"}, workers=4)
    if rc:
        raise core.Broken("the model of several documents violates its laws:\n" + out[-3000:])
    hs = sorted({s[5:] for s in core.printed(out) if s.startswith("DOCS ")})
    ck.cov["document_histories"] = len(hs)
    hs = [json.loads(s) for s in hs]
    lim = ck.n(150, 2000) if disk else ck.n(700, 12000)
    return hs if len(hs) <= lim else ck.rng.sample(hs, lim)


def store_history(h, seen=("a", "ab", "a/b")):
    def f(srv, pre):
        for k, x in h:
            if k == "open":
                srv.open(pre + x, GOOD)
            elif k == "other":
                srv.open(pre + x, TWIN)
            elif k == "full":
                srv.change(pre + x, [[ALT]])
            elif k == "edit":
                srv.change(pre + x, [[[0, 0], [0, 1], b"/"]])
            elif k == "close":
                srv.close(pre + x)
            else:
                srv.delete([pre + u for u in x])
        for u in seen:
            srv.symbols(pre + u)
            srv.tokens(pre + u)
    return f


def twin(r, t):
    """Another text of the same length."""
    at = [m.start() for m in re.finditer(rb"[a-zA-Z]", t)]
    for i in r.sample(at, min(len(at), r.choice([1, 2]))):
        t = t[:i] + bytes([r.choice(b"abXY")]) + t[i + 1:]
    return t


NAMES = ("a", "ab", "a/b.mabo", "A", "b%20c", "b%20cd", "d/e.mabo", "d/e.mabo2", "d")


def random_history(r, enc, pool, n, disk=None):
    """Messages about a few documents.  disk: the contents of those that are files already"""
    seed = r.random()

    def f(srv, pre):
        r = random.Random(seed)
        uris = sorted(disk) if disk else [pre + x for x in r.sample(NAMES, r.choice([3, 3, 4]))]
        docs, old = {}, dict(disk or {})
        for _ in range(n):
            u = r.choice(uris)
            t = docs.get(u)
            c = r.random()
            if t is None and disk and c > 0.6:
                if c > 0.8:
                    srv.symbols(u)
                else:
                    srv.delete([u])
            elif t is None or c < 0.06:
                t = t if t is not None and r.random() < 0.5 else twin(r, old[u]) if u in old and r.random() < 0.5 else r.choice(pool)
                docs[u] = old[u] = t
                srv.open(u, t)
            elif c < 0.5:
                cs = []
                for _ in range(r.choice([1, 1, 2, 3, 5])):
                    e = random_edit(r, t, enc, pool)
                    t = apply(t, e, enc)
                    cs.append(e)
                docs[u] = t
                srv.change(u, cs)
            elif c < 0.55:
                srv.close(u)
                docs.pop(u)
                if r.random() < 0.5:
                    srv.symbols(u)
            elif c < 0.6:
                us = r.sample(uris, min(len(uris), r.choice([1, 2])))
                srv.delete(us)
                for x in us:
                    docs.pop(x, None)
                srv.symbols(us[0])
            elif c < 0.75:
                srv.symbols(u)
            elif c < 0.9:
                srv.tokens(u)
            else:
                srv.hover(u, pos(t, r.choice(spots(t)), enc))
        for u in docs:
            srv.symbols(u)
            srv.tokens(u)
    return f


TOML = '[package]\nname = "p"\nfiles = ["src/*.mabo", "*.mabo", "a/b", "a", "ab"]\n'


def in_workspace(binary, ck, name, enc, root, folders, disk, f, pre="", **kw):
    """A conversation about the files of a workspace.  disk: what the server knows of its files, if that can be told"""
    srv = start(binary, ck, name, enc, folders=folders, **kw)
    g, s = len(srv.got), len(srv.sent)
    srv.sent.append({"m": "files", "files": [{"uri": u, "text": [] if t is None else [list(t)]} for u, t in sorted(disk.items())]})
    f(srv, pre)
    a = alive(srv)
    e = record(srv, g, s, enc, a)
    srv.stop()
    shutil.rmtree(root, ignore_errors=True)
    return e


def url(path):
    return "file://" + urllib.parse.quote(path)


def workspace(binary, ck, r, k, pool):
    """A client whose documents are also files of projects, with other contents."""
    enc = r.choice(ENCS)
    root = os.path.realpath(tempfile.mkdtemp(prefix=r.choice(["vf-l-", "vf l-", "vf-lé-"])))
    disk, text, broken = {}, {}, False
    for d in ["", "x", "y/z"][:r.choice([1, 2, 3])]:
        d = os.path.join(root, d)
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        c = r.random()
        open(os.path.join(d, "Mabo.toml"), "w").write(TOML if c < 0.9 else "" if c < 0.93 else TOML.replace('"]', '"') if c < 0.96 else TOML.replace("*", "["))
        broken |= c >= 0.9
        for n in r.sample(["a.mabo", "ab.mabo", "src/a.mabo", "src/b c.mabo", "src/é.mabo", "src/e+f,(g).mabo", "no.txt", "src/h/i.mabo"], r.choice([1, 2, 3])) + (["src/f%d.mabo" % i for i in range(12)] if r.random() < 0.12 else []):
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            t = text[url(p)] = r.choice(pool)
            c = r.random()
            open(p, "wb").write(t if c < 0.9 else b"\xff\xfe" + t)
            disk[url(p)] = None if c >= 0.9 else t
            if n in ("no.txt", "src/h/i.mabo"):
                del disk[url(p)]        # not part of the project
    folders = [{"uri": url(x), "name": "w"} for x in r.choice([[root], [root], [root, os.path.join(root, "x")], [os.path.join(root, "nowhere"), root]])]
    if r.random() < 0.2:
        folders.insert(0, {"uri": "untitled:w", "name": "?"})
    if broken:
        disk = {u: None for u in disk}      # what becomes of the others is left open
    names = {u: text[u] for u in r.sample(sorted(text), min(len(text), 4))}
    return in_workspace(binary, ck, f"ws{k}", enc, root, folders, disk, random_history(r, enc, pool, r.choice([8, 16]), names), socket=k % 2 == 1)


def modelled_workspace(binary, ck, r, k, h):
    """One of the model's histories, among files."""
    root = os.path.realpath(tempfile.mkdtemp(prefix="vf-l-"))
    pre = url(os.path.join(root, "w")) + "/"
    os.makedirs(os.path.join(root, "w", "a.mabo"))
    open(os.path.join(root, "w", "Mabo.toml"), "w").write('[package]\nname = "p"\nfiles = ["**/*.mabo"]\n')
    names = {"a": "a.mabo/c.mabo", "ab": "a.mabo/c.mabob", "a/b": "a.mabo/d.mabo"}
    disk = {}
    for n in ("a", "a/b"):
        t = GOOD.replace(b"struct A", b"struct D")
        open(os.path.join(root, "w", names[n]), "wb").write(t)
        disk[pre + names[n]] = t
    h = [(x, [names[u] for u in y] if x == "delete" else names[y]) for x, y in h]
    return in_workspace(binary, ck, f"mw{k}", r.choice(ENCS), root, [{"uri": pre[:-1], "name": "w"}], disk, store_history(h, names.values()), pre)


def L08(ck):
    binary = build()
    r = ck.rng
    pool = some_texts(ck, ck.n(60, 400))
    hs = stores(ck, True)
    with ThreadPoolExecutor(12) as ex:
        evs = list(ex.map(lambda k: workspace(binary, ck, random.Random(f"{ck.seed}-ws-{k}"), k, pool), range(ck.n(150, 1500))))
        evs += list(ex.map(lambda k: modelled_workspace(binary, ck, random.Random(f"{ck.seed}-mw-{k}"), k, hs[k]), range(len(hs))))
    ck.cov["workspaces"] = len(evs)
    ck.cov["messages"] = sum(len(e["sent"]) for e in evs)
    complete(evs, Oracle(binary, os.path.join(ck.work, "home")))
    ck.sample({"story": [tell(m) for m in evs[-1]["sent"]][:6]})
    judged(ck, evs, lambda e: "the answers are not those for the files as they were found and the documents as they were opened, after " + story(e))


def L01(ck):
    binary = build()
    r = ck.rng
    with ThreadPoolExecutor(1 if ck.thorough else 3) as ex:
        hs = [h for part in ex.map(lambda e: edits(ck, e), ENCS) for h in part]
    if not ck.thorough:
        byenc = {e: [h for h in hs if h["enc"] == e] for e in ENCS}
        hs = [h for e in ENCS for h in r.sample(byenc[e], min(len(byenc[e]), 900))]
    scripts = [(h["enc"], history(h, r)) for h in hs]
    scripts += [(r.choice(ENCS), store_history(h)) for h in stores(ck)]
    pool = some_texts(ck, ck.n(60, 400))
    for _ in range(ck.n(150, 1500)):
        e = r.choice(ENCS)
        scripts.append((e, random_history(r, e, pool, r.choice([6, 12, 20]))))
    long = [t for _, t in long_texts(r)]
    for i in range(ck.n(9, 90)):
        e = ENCS[i % 3]
        scripts.append((e, random_history(r, e, long, 14)))
    evs = parallel(binary, ck, scripts)
    ck.cov["histories"] = len(evs)
    ck.cov["messages"] = sum(len(e["sent"]) for e in evs)
    # the model's texts are the ones the real edits are compared against
    complete(evs, Oracle(binary, os.path.join(ck.work, "home")))
    ck.sample({"story": [tell(m) for m in evs[-1]["sent"]][:6]})
    judged(ck, evs, lambda e: "the answers are not those for a freshly opened document with the same text, after " + story(e))


# ------------------------------------------------------------------ L02, L03

def scripts_of(ck, size, letters):
    rc, out = core.tlc("MCLspTalk", "SPECIFICATION Spec\nINVARIANTS Emit OnlyRequests InOrder Nothing Settled\n" + ("PROPERTY AllAnswered\n" if size <= 3 else ""),
                       os.path.join(ck.work, f"mc-{letters}-{size}"), env={"SIZE": str(size), "LETTERS": letters}, workers=8)
    if rc:
        raise core.Broken("the model of the conversation violates its laws:\n" + out[-3000:])
    ss = sorted({s[7:] for s in core.printed(out) if s.startswith("SCRIPT ")})
    ck.cov[f"scripts_{letters}_{size}"] = len(ss)
    return [json.loads(s) for s in ss]


GOOD = "/// é\nstruct A {\n    a: u8 @1,\n    b: vec<u16> @2,\n}\n".encode()
TWIN = GOOD.replace(b"struct A", b"struct Z").replace(b"b: vec", b"q: vec")
ALT = "mod m {\n    enum B {\n        X @1,\n    }\n}\n".encode()
WRONG = "struct A {\n    a: u8 @1,\n    b: u8 @1,\n}\n".encode()
BROKEN = "struct {".encode()


def letters(ck, script, seed, polite=True):
    """The messages of a script of the model."""
    def f(srv, pre):
        r = random.Random(seed)
        u, v = pre + "u", pre + "v"
        docs = {}
        nask = srv.nask if hasattr(srv, "nask") else 0
        for x in script:
            if x == "open":
                docs[u] = GOOD
                srv.open(u, GOOD)
            elif x == "openbad":
                docs[v] = r.choice([WRONG, BROKEN, b"", "é".encode()])
                srv.open(v, docs[v])
            elif x == "insert":
                t = docs.get(u)
                srv.change(u, [[[1, 0], [1, 0], b"/// x\n"], [[1, 4], [1, 5], "\U0001F600".encode()]])
                if t is not None:
                    for c in ([[1, 0], [1, 0], b"/// x\n"], [[1, 4], [1, 5], "\U0001F600".encode()]):
                        t = apply(t, c, srv.enc)
                    docs[u] = t
            elif x == "replace":
                srv.change(u, [[[0, 0], [0, 3], b"/// y\n///"]])
            elif x == "full":
                srv.change(u, [[ALT]])
            elif x == "wrong":
                # no sense: reversed, in the middle of a character, behind the end, no change at all
                srv.change(u, r.choice([[[[1, 3], [0, 1], b"z"]], [[[0, 5], [0, 5], b"z"]], [[[99, 0], [99, 5], b"z"]],
                                        [[[0, 4294967295], [4294967295, 4294967295], b""]], [], [[[2, 1], [1, 9], b""], [ALT]],
                                        [[[4294967295, 0], [0, 0], b"x"]]]))
            elif x == "close":
                srv.close(u)
            elif x == "delete":
                srv.delete(r.choice([[u], [v], [u, v], []]))
            elif x == "symbols":
                srv.symbols(r.choice([u, u, v]))
            elif x == "tokens":
                srv.tokens(r.choice([u, u, v]))
            elif x == "hover":
                srv.hover(u, r.choice([[1, 7], [1, 8], [2, 4], [3, 4], [0, 0], [99, 99], [0, 4294967295], [4294967295, 0], [1, 1000], [0, 5]]) if polite
                          else r.choice([[1, 7], [2, 4], [3, 4]]))
            elif x == "unknown":
                srv.unknown(r)
            elif x == "malformed":
                srv.malformed(r)
            elif x == "noise":
                srv.noise(r)
            elif x == "junk":
                srv.junk(r)
            elif x == "config":
                srv.config()
            elif x in ("good", "bad") and not polite:
                a = srv.wait_ask(nask)
                nask += 1
                srv.nask = nask
                if a is not None:
                    srv.answer(a, r.choice(["quiet", "sizes", "default"]) if x == "good" else r.choice(["error", "null", "empty", "two", "type", "elem", "obj"]))
            elif x == "stray":
                srv.stray(r)
    return f


def shutdown(binary, ck, r, k):
    """A whole conversation from the beginning to the end."""
    enc = r.choice(ENCS)
    srv = start(binary, ck, f"bye{k}", enc, socket=k % 2 == 1)
    g, s = len(srv.got), len(srv.sent)
    some = ["open", "insert", "symbols", "hover", "unknown", "config", "tokens", "malformed", "noise"]
    for x in r.sample(some, r.randint(0, 5)):
        letters(ck, [x], r.random())(srv, f"file:///{k}")
    how = r.choice(["bye", "bye", "bye", "exit", "gone"])
    ok = True
    if how == "bye":
        i = srv.request("shutdown", r.choice([None, ...]), {"m": "shutdown"})
        # what comes too late is refused
        for x in r.choices(some, k=r.choice([0, 0, 1, 3, 6])):
            letters(ck, [x], r.random())(srv, f"file:///{k}")
        last = [m["id"] for m in srv.sent[s:] if "id" in m][-1]
        ok = srv.wait(i) is not None and srv.wait(last) is not None
    elif how == "gone":
        ok = alive(srv)
        srv.leave()
    if how != "gone":
        srv.write({"method": "exit"})
    try:
        rc = srv.p.wait(WAIT)
    except subprocess.TimeoutExpired:
        rc = None
    with srv.cv:
        srv.cv.wait_for(lambda: srv.closed, WAIT)
    e = record(srv, g, s, enc, ok and (rc == 0 if how == "bye" else rc is not None and rc >= 0))
    e["exit"], e["how"] = str(rc), how
    srv.stop()
    return e


def L02(ck):
    binary = build()
    r = ck.rng
    scripts = [(r.choice(ENCS), letters(ck, s, r.random())) for s in scripts_of(ck, 3, "all")]
    if ck.thorough:
        scripts += [(r.choice(ENCS), letters(ck, s, r.random())) for s in scripts_of(ck, 4, "all")]
    alphabet = ["open", "openbad", "insert", "replace", "full", "wrong", "close", "delete", "symbols", "hover", "tokens", "unknown", "malformed",
                "noise", "junk", "config", "stray"]
    for _ in range(ck.n(300, 3000)):
        scripts.append((r.choice(ENCS), letters(ck, ["open"] + [r.choice(alphabet) for _ in range(r.choice([8, 15, 30]))], r.random())))
    # arbitrary documents and positions
    pool = some_texts(ck, ck.n(200, 2000), 0.4)

    def poke(t, seed, enc):
        def f(srv, pre):
            q = random.Random(seed)
            u = pre + "p"
            srv.open(u, t)
            for _ in range(3):
                a, b = [[q.choice([0, 1, 2, 5, 99]), q.choice([0, 1, 2, 3, 4, 5, 9, 40, 1000])] for _ in range(2)]
                srv.hover(u, a)
                srv.change(u, [[a, b, q.choice([b"", "é".encode(), b"\n", b"u8"])]])
            srv.symbols(u)
            srv.tokens(u)
        return f
    for t in pool:
        e = r.choice(ENCS)
        scripts.append((e, poke(t, r.random(), e)))
    evs = parallel(binary, ck, scripts)
    with ThreadPoolExecutor(8) as ex:
        evs += list(ex.map(lambda k: shutdown(binary, ck, random.Random(f"{ck.seed}-bye-{k}"), k), range(ck.n(24, 200))))
    # a document that is too deep for the parser (see F04)
    deep = ("type A = " + "vec<" * 200000 + "u8" + ">" * 200000 + ";\n").encode()
    evs += play(binary, ck, "deep", "utf-8", [lambda srv, pre: (srv.open(pre, deep), srv.symbols(pre))])
    evs[-1]["tag"] = "finding:deep-nesting"
    evs[-1]["sent"][0]["text"] = []
    for e in evs:
        e["fresh"] = []
    ck.cov["conversations"] = len(evs)
    ck.cov["messages"] = sum(len(e["sent"]) for e in evs)
    ck.sample({"story": [tell(m) for m in evs[-1]["sent"]][:6]})

    def what(e):
        if not e["alive"]:
            return "the server died, hung or did not end cleanly after " + story(e)
        return "requests were not answered exactly once and in order: " + story(e)
    judged(ck, evs, what, chunk=40)


def unsettled(binary, ck, name, script, seed, enc, wait):
    """A conversation in which the client answers the server when it likes."""
    r = random.Random(seed)
    srv = Lsp(binary, os.path.join(ck.work, "home", name), [enc], friendly=None)
    srv.nask = 0
    letters(ck, script, seed, polite=False)(srv, "file:///x/")
    if wait:
        time.sleep(2.3)
    a = alive(srv)
    # in the end it answers everything, and the server understands the last one
    while a and not srv.closed:
        q = srv.wait_ask(srv.nask, 0.15 if srv.nask else WAIT)
        if q is None:
            break
        srv.nask += 1
        srv.answer(q, r.choice(["null", "quiet"]))
    a = a and alive(srv)
    if a:
        n = srv.nask
        srv.config()
        q = srv.wait_ask(n)
        a = q is not None
        if a:
            cfg = r.choice(sorted(CFGS))
            srv.answer(q, cfg)
            a = alive(srv)
            srv.sent.append({"m": "settled", "cfg": cfg})
            u = "file:///x/u"
            srv.open(u, GOOD)
            for p in ([1, 7], [2, 4], [3, 4]):
                srv.hover(u, p)
            a = alive(srv)
    e = record(srv, 0, 0, enc, a)
    srv.stop()
    return e


def L03(ck):
    binary = build()
    r = ck.rng
    jobs = [(s, False) for s in scripts_of(ck, 3, "few")]
    four = scripts_of(ck, 4, "few")
    jobs += [(s, False) for s in (four if ck.thorough else r.sample(four, 250))]
    if ck.thorough:
        five = scripts_of(ck, 5, "few")
        jobs += [(s, False) for s in r.sample(five, 6000)]
    few = ["open", "insert", "symbols", "hover", "unknown", "config", "good", "bad", "stray"]
    for _ in range(ck.n(60, 600)):
        s, asked = [], 1
        for _ in range(r.choice([6, 10, 16])):
            x = r.choice(few)
            if x in ("good", "bad"):
                if not asked:
                    continue
                asked -= 1
            asked += x == "config"
            s.append(x)
        jobs.append((s, r.random() < 0.3))
    jobs += [(s, True) for s in r.sample(four, ck.n(24, 200))]
    todo = [(f"u{i % 97}-{i}", s, r.random(), r.choice(ENCS), w) for i, (s, w) in enumerate(jobs)]
    with ThreadPoolExecutor(16) as ex:
        evs = list(ex.map(lambda j: unsettled(binary, ck, *j), todo))
    ck.cov["conversations"] = len(evs)
    complete(evs, Oracle(binary, os.path.join(ck.work, "home")))
    ck.sample({"script": jobs[-1][0]})
    judged(ck, evs, lambda e: "messages were lost, or the server stopped working, after " + story(e))


# ------------------------------------------------------------------ L04, L05

KINDS = {2: "mod", 23: "struct", 10: "enum", 22: "variant", 7: "field", 13: "alias", 14: "const", 1: "use"}


def flat(syms, d=0):
    for x in syms or []:
        yield {"depth": d, "kind": KINDS.get(x["kind"], str(x["kind"])), "name": list(x["name"].encode()), "range": rng_json(x["range"]),
               "sel": rng_json(x["selectionRange"])}
        yield from flat(x.get("children"), d + 1)


def result(srv, i):
    m = srv.wait(i)
    if m is None or "error" in m:
        return {"failed": str(m)[:200]}
    return m.get("result")


def view(srv, uri, t, tree, r):
    """What the server shows of an open document."""
    enc = srv.enc
    syms = result(srv, srv.symbols(uri))
    toks = result(srv, srv.tokens(uri))
    e = {"op": "view", "text": list(t), "enc": enc, "tree": tree, "floats": f_checks.floats(t.decode())}
    if isinstance(syms, dict) or isinstance(toks, dict) and "failed" in toks:
        return dict(e, symbols=[], tokens=[], hovers=[], failed=str([syms, toks])[:300])
    syms = list(flat(syms))
    ok = all(x["range"] == x.pop("sel") for x in syms)
    e["symbols"] = syms if ok else []
    d = (toks or {}).get("data") or []
    e["tokens"] = [d[i:i + 3] + [srv.legend[d[i + 3]]] for i in range(0, len(d), 5)]
    at = [[0, 0]]
    for x in r.sample(syms, min(len(syms), 4)):
        (l, a), (m, b) = x["range"]
        at += [[l, a], [m, b]] + ([[l, r.randint(a, b)], [l, b - 1], [l, max(a - 1, 0)]] if l == m and b > a else [])
    at += [pos(t, r.choice(spots(t)), enc) for _ in range(3)]
    e["hovers"] = []
    ids = [(p, srv.hover(uri, p)) for p in r.sample(at, min(len(at), 8)) if inside(t, p, enc)]
    for p, i in ids:
        h = result(srv, i)
        if h is None:
            e["hovers"].append({"at": p, "range": [], "text": []})
        elif "failed" in h:
            e["hovers"].append({"at": p, "range": [[-1, -1], [-1, -1]], "text": []})
        else:
            e["hovers"].append({"at": p, "range": rng_json(h["range"]), "text": list(h["contents"]["value"].encode())})
    return e


def inside(t, p, enc):
    try:
        off(t, p, enc)
        return True
    except (AssertionError, IndexError):
        return False


def carriage(x):
    """Comments are whole lines, including carriage returns."""
    if isinstance(x, list):
        return [carriage(y) for y in x]
    if isinstance(x, dict):
        return {k: [c + "\r" for c in v] if k == "comment" else carriage(v) for k, v in x.items()}
    return x


def valid_texts(ck, n):
    """Schemas the compiler accepts, with their texts."""
    r = random.Random(f"{ck.seed}-{ck.prop}-valid")
    srv = f_checks.server()
    cands = []
    while len(cands) < n:
        more = []
        for i in range(n):
            g = gen.SynGen(r, comments=r.random() < 0.8, attrs=r.random() < 0.4, depth=r.choice([0, 1, 2]))
            s = g.schema(valid=True)
            s["defs"] = s["defs"][:r.randint(1, 5)]
            s = f_checks.respell(r, s)
            t = gen.text(s, gen.Rnd(r, r.choice([0.1, 0.4, 0.8])))
            if not s["comment"] and r.random() < 0.3:
                s["comment"] = ["".join(r.choice("aé€\U0001F600ß") for _ in range(4))]
                t = "/// " + s["comment"][0] + "\n\n" + t
            if r.random() < 0.25 and not re.search(r"#\[|\"", t):
                t = t.replace("\r\n", "\n").replace("\n", "\r\n")
                s = carriage(s)
            if not re.search(r"\r(?!\n)", t) and len(t) < 1500:
                more.append((f_checks.syn(f_checks.bare(s)), t))
        vs = srv.pipeline([{"op": "validate", "text": t} for _, t in more])
        ps = srv.pipeline([{"op": "parse", "text": t} for _, t in more])
        for (s, t), o, p in zip(more, vs, ps):
            # whether texts are read as they should is decided by F03
            if "ok" in o and f_checks.outcome(p).get("ast") == s:
                cands.append((s, t.encode()))
    srv.stop()
    return cands[:n]


def long_texts(r):
    """Schemas with very many lines, or with very long ones."""
    T = gen.T
    out = []
    small = lambda: [gen.struct("A", gen.named(gen.field("x", T("u8"), None, ["é"]), gen.field("y", gen.ext("B")))),
                     gen.enum("B", [gen.variant("V", gen.unit()), gen.variant("W", gen.unnamed(gen.field("", gen.ext("A"))))], [], ["\U0001F600"])]
    ss = [("\n" * r.randint(256, 400), gen.schema(small()), gen.Tidy()),
          ("\r\n" * 260, gen.schema(small()), gen.Layout()),
          ("", gen.schema([gen.const("S", T("string"), {"k": "str", "v": "\U0001F600é€" * 90}), gen.mod("m", small())]), gen.Layout()),
          (" " * r.randint(256, 400), gen.schema([gen.mod("m", small()), gen.alias("L" + "x" * 270, gen.opt(T("u16")))]), gen.Layout()),
          ("", gen.schema([gen.struct("A", gen.unnamed(*[gen.field("", r.choice([T("u8"), gen.ext("A")])) for i in range(70)])),
                           gen.enum("B", [gen.variant(f"V{i}", gen.unit()) for i in range(40)])]), gen.Tidy())]
    many = lambda d: [gen.struct(f"S{i}", gen.unnamed(gen.field("", T("u8"))), [], ["c"] * (i % 3)) for i in range(14)] + ([gen.mod("m", many(d - 1), ["in"])] if d else [])
    ss += [("", gen.schema(many(2)), gen.Tidy()),
           ("", gen.schema([gen.mod("m", [gen.mod("n", [gen.mod("o", [gen.mod("p", [gen.mod("q", small(), ["q"])])])])])]), gen.Tidy()),
           ("", gen.schema([gen.struct("A", gen.named(gen.field("x", T("u8"), None, [f"line {i}" for i in range(12)])), [], ["a", "", "é"] * 6),
                            gen.const("C", T("u8"), {"k": "int", "v": "1"}, ["z"] * 33)], ["top"] * 9), gen.Tidy())]
    for head, s, l in ss:
        out.append((f_checks.syn(f_checks.bare(s)), (head + gen.text(s, l)).encode()))
    return out


def L04(ck):
    binary = build()
    r = ck.rng
    f_checks.server()
    cases = []
    # every document of the syntax model the compiler accepts
    srv = f_checks.server()
    xs = [x for x in f_checks.enumerated(ck, limit=ck.n(150, None)) if 13 not in x["text"] or b"\r" not in bytes(x["text"]).replace(b"\r\n", b"")]
    for x, o in zip(xs, srv.pipeline([{"op": "validate", "text": bytes(x["text"]).decode()} for x in xs])):
        if "ok" in o:
            cases.append((x["tree"], bytes(x["text"])))
    srv.stop()
    n0 = len(cases)
    cases += valid_texts(ck, ck.n(220, 4000)) + long_texts(r)
    ck.cov["documents_of_the_model"] = n0
    ck.cov["random_documents"] = len(cases) - n0

    def work(j):
        enc, k = j
        srv, evs = None, []
        q = random.Random(f"{ck.seed}-{enc}-{k}")
        for i, (tree, t) in enumerate(cases[k::3]):
            if srv is None or srv.closed or i % 100 == 0:
                if srv:
                    srv.stop()
                srv = start(binary, ck, f"v{enc}-{k}", enc)
            uri = f"file:///v/{k}/{i}.mabo"
            srv.open(uri, t)
            evs.append(view(srv, uri, t, tree, q))
        srv.stop()
        return evs
    with ThreadPoolExecutor(9) as ex:
        evs = [e for p in ex.map(work, [(e, k) for e in ENCS for k in range(3)]) for e in p]
    # a line ending of its own
    srv = start(binary, ck, "cr", "utf-16")
    t = b"type A = u8;\r\r\ntype B = u8;\n"
    srv.open("file:///cr", t)
    e = view(srv, "file:///cr", t, f_checks.syn(gen.schema([gen.alias("A", gen.T("u8")), gen.alias("B", gen.T("u8"))])), random.Random(1))
    e["tag"] = "finding:cr-line-ending"
    evs.append(e)
    srv.stop()
    # negotiation
    names = ["utf-8", "utf-16", "utf-32", "utf-7", "UTF-8", ""]
    offers = [None, []] + [[a] for a in names] + [[a, b] for a in names for b in names if a != b] + [r.sample(names, r.choice([3, 4, 6])) for _ in range(ck.n(10, 60))]

    def offer(j):
        k, o = j
        srv = Lsp(binary, os.path.join(ck.work, "home", f"neg{k}"), o)
        evs = [{"op": "init", "offered": o or [], "announced": srv.enc or "utf-16"}]
        # and it keeps to it
        if srv.enc in (None,) + ENCS:
            srv.enc = srv.enc or "utf-16"
            t = "const A: string = \"é\U0001F600€\"; const B: u8 = 1;\n".encode()
            tree = f_checks.syn(gen.schema([gen.const("A", gen.T("string"), {"k": "str", "v": "é\U0001F600€"}), gen.const("B", gen.T("u8"), {"k": "int", "v": "1"})]))
            srv.open("file:///n", t)
            evs.append(view(srv, "file:///n", t, tree, random.Random(k)))
        srv.stop()
        return evs
    with ThreadPoolExecutor(8) as ex:
        evs += [e for p in ex.map(offer, enumerate(offers)) for e in p]
    ck.cov["offers"] = len(offers)
    ck.sample({"text": cases[-1][1].decode()})

    def what(e):
        if e["op"] == "init":
            return f"offered {e['offered']}, the server chose {e['announced']}"
        return f"with {e['enc']}, the ranges or kinds of symbols, tokens or hovers are wrong for {f_checks.show(e['text'])} {e.get('failed', '')}"
    judged(ck, evs, what, chunk=12)


HEAD = b"### Wire size\n\n"


def extents(x):
    """Roughly the largest size of a type in a tree."""
    from . import m_checks
    if isinstance(x, list):
        return max([0] + [extents(y) for y in x])
    if isinstance(x, dict):
        if "k" in x and x["k"] not in ("named", "unnamed", "unit"):
            def conv(t):
                return {k: int(bytes(v)) if k == "n" and t["k"] == "arr" else conv(v) if isinstance(v, dict) else
                        [conv(y) for y in v] if k == "es" else v for k, v in t.items()}
            if x["k"] in ("vec", "set", "opt", "nz", "map", "arr", "tup"):
                return m_checks.extent(conv(x))
        return max([0] + [extents(y) for y in x.values()])
    return 0


def said(srv, uri, t, tree, cfg, r, many=12):
    """What hovers on names say."""
    from .m_checks import shown
    e = {"op": "hover", "text": list(t), "enc": srv.enc, "tree": tree, "floats": f_checks.floats(t.decode()), "cfg": cfg, "big": extents(tree) > 1 << 26, "hovers": []}
    syms = list(flat(result(srv, srv.symbols(uri))))
    at = []
    for x in r.sample(syms, min(len(syms), many)):
        (l, a), (m, b) = x["range"]
        at.append([l, a if l != m or r.random() < 0.5 else r.randrange(a, b) if b > a else a])
    for p, i in [(p, srv.hover(uri, p)) for p in at if inside(t, p, srv.enc)]:
        h = result(srv, i)
        if h is None or "failed" in h:
            e["hovers"].append({"at": p, "range": [] if h is None else [[-1, -1], [-1, -1]], "text": [], "size": {"label": "none"}})
            continue
        v = h["contents"]["value"].encode()
        k = v.rfind(HEAD)
        s = {"label": "none"}
        if k >= 0:
            k += len(HEAD)
            s = shown([v[k:].decode()])
            v = v[:k]
        e["hovers"].append({"at": p, "range": rng_json(h["range"]), "text": list(v), "size": s})
    return e


def types_of_the_model(ck):
    rc, o = core.tlc("MCMeta", "SPECIFICATION Spec\nINVARIANTS Emit Kept Reached Encoded\n", os.path.join(ck.work, "mc"), env={"DEPTH": "2"})
    if rc:
        raise core.Broken("the model of sizes violates its laws:\n" + o[-4000:])
    types = [json.loads(s[5:]) for s in sorted(set(core.printed(o))) if s.startswith("CASE ")]
    ck.cov["enumerated_types"] = len(types)
    return types


def L06(ck):
    binary = build()
    r = ck.rng
    from . import m_checks
    docs = []
    types = types_of_the_model(ck)
    lim = ck.n(400, 6000)
    types = types if len(types) <= lim else r.sample(types, lim)
    while len(types) < lim + ck.n(200, 3000):
        t = m_checks.random_type(r, r.choice([1, 2, 3]))
        if m_checks.extent(t) < 1 << 26:
            types.append(t)
    r.shuffle(types)
    for j in range(0, len(types), 6):
        g = [m_checks.to_gen(r, t) for t in types[j:j + 6]]
        fs = gen.named(*[gen.field("f%d" % i, t, r.choice([None, None, 20 + i]), r.choice([(), (), ("about it",)])) for i, t in enumerate(g)])
        d = gen.struct("S", fs, ["T"]) if j % 12 else gen.enum("E", [gen.variant("A", gen.unit(), r.choice([None, 7])), gen.variant("V", fs)], ["T"])
        docs.append(gen.schema([gen.struct("Unit", gen.unit()), d]))
    # numbers: all of the model, and at the edges
    from . import c_checks
    docs += [s for _, s in c_checks.enumerate_schemas(ck, ["ids"], ck.n(250, 4000)) + c_checks.crowded(ck, ck.n(40, 400))]
    for ids in ([4294967295], [4294967294], [127], [128], [16383, 2], [9, 10, 99], [None, 9, None], [None] * 12, [100, None, 3], [1000000000, None], [2147483647], [2147483648, None]):
        docs.append(gen.schema([gen.struct("S", gen.named(*[gen.field("f%d" % k, gen.T("u8"), i) for k, i in enumerate(ids)])),
                                gen.struct("U", gen.unnamed(*[gen.field("", gen.T("u8"), i) for i in ids])),
                                gen.enum("E", [gen.variant("V%d" % k, gen.unnamed(gen.field("", gen.T("u8"), i)), i) for k, i in enumerate(ids)])]))
    srv = f_checks.server()
    texts = [gen.text(s, gen.Tidy()) for s in docs]
    cases = [(f_checks.syn(f_checks.bare(s)), t.encode()) for s, t, o in zip(docs, texts, srv.pipeline([{"op": "validate", "text": t} for t in texts])) if "ok" in o]
    srv.stop()
    ck.cov["documents_of_the_models"] = len(cases)
    more = valid_texts(ck, ck.n(150, 3000)) + long_texts(r)
    ck.cov["random_documents"] = len(more)
    cases += more
    r.shuffle(cases)

    def work(j):
        cfg, k = j
        srv, evs = None, []
        q = random.Random(f"{ck.seed}-{cfg}-{k}")
        part = [c for i, c in enumerate(cases) if i % 8 == k]
        part = [c for i, c in enumerate(part) if cfg == "default" or q.random() < 0.25]
        for i, (tree, t) in enumerate(part):
            if srv is None or srv.closed or i % 100 == 0:
                if srv:
                    srv.stop()
                srv = start(binary, ck, f"h{cfg}-{k}-{i}", q.choice(ENCS), cfg=cfg)
            uri = f"file:///h/{k}/{i}.mabo"
            srv.open(uri, t)
            evs.append(said(srv, uri, t, tree, cfg, q))
        if srv:
            srv.stop()
        return evs
    with ThreadPoolExecutor(8) as ex:
        evs = [e for p in ex.map(work, [(c, k) for c in CFGS for k in range(8)]) for e in p]
    ck.cov["hovers"] = sum(len(e["hovers"]) for e in evs)
    ck.sample({"text": cases[0][1].decode(), "hovers": [bytes(h["text"]).decode() for h in evs[0]["hovers"]][:3]})
    judged(ck, evs, lambda e: f"with the settings {e['cfg']!r}, hovers do not say what they should about {f_checks.show(e['text'])}: "
           + json.dumps([bytes(h["text"]).decode("utf8", "replace") + json.dumps(h["size"])[:80] for h in e["hovers"]])[:300], chunk=25)


def outline(srv, uri, t, tree):
    """What the server says the elements of an open document are."""
    syms, toks = result(srv, srv.symbols(uri)), result(srv, srv.tokens(uri))
    e = {"op": "outline", "text": list(t), "enc": srv.enc, "tree": tree, "floats": f_checks.floats(t.decode()), "symbols": [], "tokens": [], "mods": []}
    if isinstance(syms, dict) or isinstance(toks, dict) and "failed" in toks:
        return dict(e, failed=str([syms, toks])[:300])
    e["symbols"] = [{k: x[k] for k in ("depth", "kind", "name")} for x in flat(syms)]
    d = (toks or {}).get("data") or []
    e["tokens"] = [d[i:i + 3] + [srv.legend[d[i + 3]]] for i in range(0, len(d), 5)]
    e["mods"] = [[m for j, m in enumerate(srv.mods) if d[i + 4] >> j & 1] + ["?"] * (d[i + 4] >> len(srv.mods)) for i in range(0, len(d), 5)]
    return e


def L07(ck):
    binary = build()
    r = ck.rng
    srv = f_checks.server()
    xs = [x for x in f_checks.enumerated(ck, limit=ck.n(120, None)) if b"\r" not in bytes(x["text"]).replace(b"\r\n", b"")]
    cases = [(x["tree"], bytes(x["text"])) for x, o in zip(xs, srv.pipeline([{"op": "validate", "text": bytes(x["text"]).decode()} for x in xs])) if "ok" in o]
    ck.cov["documents_of_the_model"] = len(cases)
    # every type of the model of sizes, as a field and as an argument
    from . import m_checks
    ts = types_of_the_model(ck)
    ts = r.sample(ts, min(len(ts), ck.n(400, 6000)))
    docs = []
    for j in range(0, len(ts), 6):
        g = [m_checks.to_gen(r, t) for t in ts[j:j + 6]]
        fs = gen.named(*[gen.field("f%d" % i, t) for i, t in enumerate(g)])
        docs.append(gen.schema([gen.struct("S", fs, ["T"]), gen.alias("A", gen.ext("R", g[:3], ["m"])), gen.alias("B", gen.ext("R", g[3:], ["m", "n"]))]))
    texts = [gen.text(s, gen.Tidy()) for s in docs]
    typed = [(f_checks.syn(f_checks.bare(s)), t.encode()) for s, t, o in zip(docs, texts, srv.pipeline([{"op": "validate", "text": t} for t in texts])) if "ok" in o]
    # definitions with many elements
    from . import c_checks
    many = [s for _, s in c_checks.crowded(ck, ck.n(60, 600))]
    texts = [gen.text(s, gen.Tidy()) for s in many]
    typed += [(f_checks.syn(f_checks.bare(s)), t.encode()) for s, t, o in zip(many, texts, srv.pipeline([{"op": "validate", "text": t} for t in texts])) if "ok" in o]
    srv.stop()
    ck.cov["documents_of_types"] = len(typed)
    more = valid_texts(ck, ck.n(180, 4000)) + long_texts(r)
    ck.cov["random_documents"] = len(more)
    cases += typed + more
    r.shuffle(cases)

    def work(k):
        srv, evs = None, []
        for i, (tree, t) in enumerate(cases[k::8]):
            if srv is None or srv.closed or i % 100 == 0:
                if srv:
                    srv.stop()
                srv = start(binary, ck, f"o{k}-{i}", ENCS[(i // 100 + k) % 3])
            uri = f"file:///o/{k}/{i}.mabo"
            srv.open(uri, t)
            evs.append(outline(srv, uri, t, tree))
        if srv:
            srv.stop()
        return evs
    with ThreadPoolExecutor(8) as ex:
        evs = [e for p in ex.map(work, range(8)) for e in p]
    ck.cov["tokens"] = sum(len(e["tokens"]) for e in evs)
    ck.cov["symbols"] = sum(len(e["symbols"]) for e in evs)
    ck.sample({"text": cases[0][1].decode(), "tokens": [t[3:] + m for t, m in zip(evs[0]["tokens"], evs[0]["mods"])][:8]})
    judged(ck, evs, lambda e: f"the outline or the tokens say something else than what the elements of {f_checks.show(e['text'])} are {e.get('failed', '')}", chunk=15)


def L05(ck):
    binary = build()
    r = random.Random(f"{ck.seed}-L05-texts")
    texts = f_checks.BAD + f_checks.MISTAKES
    valid = [t.decode() for _, t in valid_texts(ck, ck.n(350, 3000))]
    texts += valid
    for t in valid:
        texts.append(f_checks.mutate(r, t))
    texts += [f_checks.texts_at_random(r) for _ in range(ck.n(200, 2000))]
    for _ in range(ck.n(500, 4000)):
        g = gen.SynGen(r, comments=True, attrs=r.random() < 0.3, depth=r.choice([0, 1, 2]))
        s = g.schema(valid=False)
        texts.append(gen.text(f_checks.respell(r, s), gen.Rnd(r, 0.3)))
    texts = [t for t in texts if not re.search(r"\r(?!\n)", t) and len(t) < 1500]
    r.shuffle(texts)
    srv = f_checks.server()
    oracle = []
    vs = srv.pipeline([{"op": "validate", "text": t} for t in texts])
    ps = srv.pipeline([{"op": "parse", "text": t} for t in texts])
    srv.stop()
    keep = []
    for t, v, p in zip(texts, vs, ps):
        if "ok" in v:
            oracle.append((True, not p["ast"]["defs"], [], False))
        elif "verr" in v:
            oracle.append((False, False, [[l[0], l[1]] for l in v["diag"]["labels"]], True))
        elif "err" in p:
            o = f_checks.outcome(p)
            if "labels" not in o:
                continue
            # the places its error is about
            oracle.append((False, False, o["labels"] + [[int(x), 0] for x in re.findall(r"\d+", p["cause"])], False))
        else:
            continue
        keep.append(t)

    def work(j):
        enc, k = j
        q = random.Random(f"{ck.seed}-{enc}-{k}")
        evs, srv, part = [], None, list(zip(keep, oracle))[k::3]
        for i, (t, (ok, empty, labels, exact)) in enumerate(part):
            b = t.encode()
            if srv is None or srv.closed or i % 100 == 0:
                if srv:
                    srv.stop()
                srv = start(binary, ck, f"d{enc}-{k}", enc)
                cur, c = {}, 0
            uri = f"file:///d/{k}/{q.choice('abc')}"
            g = len(srv.got)
            if uri not in cur or q.random() < 0.2:
                srv.open(uri, b)
            elif q.random() < 0.5:
                srv.change(uri, [[b]])
            else:
                # what is different, only
                o = cur[uri]
                x, y = common(o, b)
                srv.change(uri, [[pos(o, x, enc), pos(o, len(o) - y, enc), b[x:len(b) - y]]])
            cur[uri] = b
            syms = result(srv, srv.symbols(uri))
            toks = result(srv, srv.tokens(uri))
            fl = [] if not isinstance(syms, list) else [x for x in flat(syms) if x["kind"] != "use" and not bytes(x["name"]).isdigit()]
            if fl:
                ps = [q.choice(fl)["range"][0]]
            else:
                m = [x.start() for x in re.finditer(rb"[A-Za-z_]\w*", b)]
                ps = [pos(b, o, enc) for o in (q.sample(m, 3) if len(m) > 3 else m)]
            hs = [result(srv, h) for h in [srv.hover(uri, p) for p in ps]]
            offered = [bool(syms) and "failed" not in syms, bool(toks) and "failed" not in toks and bool(toks.get("data"))]
            if not ok or fl:
                offered.append(any(h is not None for h in hs))
            ds = [m["params"]["diagnostics"] for m in srv.got[g:] if m.get("method") == "textDocument/publishDiagnostics" and m["params"]["uri"] == uri]
            evs.append({"op": "verdict", "text": list(b), "enc": enc, "valid": ok, "empty": empty, "labels": labels, "exact": exact, "shown": bool(ds),
                        "diags": [rng_json(d["range"]) for d in ds[-1]] if ds else [],
                        "related": [[{"here": x["location"]["uri"] == uri, "range": rng_json(x["location"]["range"])}
                                     for x in d.get("relatedInformation") or []] for d in ds[-1]] if ds else [], "offered": offered})
        if srv:
            srv.stop()
        return evs
    with ThreadPoolExecutor(9) as ex:
        evs = [e for p in ex.map(work, [(e, k) for e in ENCS for k in range(3)]) for e in p]
    ck.cov["documents"] = len(evs)
    ck.cov["valid_documents"] = sum(e["valid"] for e in evs)
    ck.sample({"text": keep[0]})

    def what(e):
        return (f"the compiler says {'valid' if e['valid'] else 'invalid at ' + str(e['labels'])}, the server ({e['enc']}) shows {e['diags'] if e['shown'] else 'nothing'} "
                f"and offers {e['offered']} for {f_checks.show(e['text'])}")
    judged(ck, evs, what, chunk=25)


def common(a, b):
    """Lengths of the common beginning and end, in whole characters and not within a line ending."""
    x = 0
    while x < min(len(a), len(b)) and a[x] == b[x]:
        x += 1
    sa, sb = set(spots(a)), set(spots(b))
    while x not in sa or x not in sb:
        x -= 1
    y = 0
    while y < min(len(a), len(b)) - x and a[len(a) - 1 - y] == b[len(b) - 1 - y]:
        y += 1
    while len(a) - y not in sa or len(b) - y not in sb:
        y -= 1
    return x, y
