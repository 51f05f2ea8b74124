"""Shared plumbing: builds, processes, TLC, evidence, findings.  Decides nothing."""
import json, os, random, re, select, shutil, subprocess, sys, time, hashlib, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(BUILD, "target")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


class Broken(Exception):
    """The check itself could not be carried out (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, cwd=None, timeout=None, env=None, input=None):
    e = dict(ENV)
    if env:
        e.update(env)
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, env=e, input=input,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def cargo_build(dir_, args=(), timeout=840):
    r = sh(["cargo", "build", "--offline", *args], cwd=dir_, timeout=timeout)
    return r


_bins = {}


def sch_bin(doc=False):
    """The schema-side server, from /repo's working tree."""
    key = "doc" if doc else "plain"
    if key in _bins:
        return _bins[key]
    t0 = time.time()
    r = cargo_build(os.path.join(VERIF, "harness", "sch"), ["--locked"] + (["--features", "doc"] if doc else []))
    if r.returncode:
        raise Broken("sch does not build:\n" + r.stderr[-4000:])
    log(f"[build sch {time.time()-t0:.1f}s]")
    p = os.path.join(TARGET, "debug", "sch")
    _bins[key] = p
    return p


def repo_bin(pkg, binname):
    """A binary of /repo's workspace, built into our own target directory."""
    t0 = time.time()
    r = sh(["cargo", "build", "--offline", "--locked", "-p", pkg, "--config", "profile.dev.debug=0",
            "--target-dir", TARGET], cwd=REPO, timeout=840)
    if r.returncode:
        raise Broken(f"{pkg} does not build:\n" + r.stderr[-4000:])
    log(f"[build {pkg} {time.time()-t0:.1f}s]")
    return os.path.join(TARGET, "debug", binname)


class Server:
    """ndjson request/response process; a crash or hang of the code under test is data."""

    def __init__(self, argv, cwd=None, timeout=20, env=None):
        self.argv, self.cwd, self.timeout, self.p = argv, cwd, timeout, None
        self.env = env or {}
        self.hangs = 0
        self.lock = threading.Lock()

    def _start(self):
        e = dict(ENV)
        e.update(self.env)
        self.p = subprocess.Popen(self.argv, cwd=self.cwd, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None

    def hung(self):
        """Whatever hangs does so more than once, and the rest is still to be done."""
        self.hangs += 1
        if self.hangs >= 3:
            self.timeout = min(self.timeout, 3)

    def ask(self, q, timeout=None):
        with self.lock:
            if self.p is None:
                self._start()
            data = (json.dumps(q) + "\n").encode()
            deadline = time.time() + (timeout or self.timeout)
            try:
                self.p.stdin.write(data)
                self.p.stdin.flush()
            except BrokenPipeError:
                pass
            fd = self.p.stdout.fileno()
            while b"\n" not in self.buf:
                left = deadline - time.time()
                if left <= 0:
                    self.stop()
                    self.hung()
                    return {"hang": 1}
                r, _, _ = select.select([fd], [], [], left)
                if r:
                    chunk = os.read(fd, 1 << 20)
                    if not chunk:
                        self.p.wait()
                        rc = self.p.returncode
                        self.p = None
                        return {"crash": rc}
                    self.buf += chunk
            line, self.buf = self.buf.split(b"\n", 1)
            return json.loads(line)

    def pipeline(self, qs, timeout=120):
        """Send many requests; answers in order.  Falls back to one by one after a crash/hang."""
        out = []
        i = 0
        while i < len(qs):
            if self.p is None:
                self._start()
            batch = qs[i:i + 400]
            p = self.p

            def feed():
                try:
                    for q in batch:
                        p.stdin.write((json.dumps(q) + "\n").encode())
                    p.stdin.flush()
                except (BrokenPipeError, OSError, ValueError):
                    pass
            th = threading.Thread(target=feed, daemon=True)
            th.start()
            n = 0
            fd = p.stdout.fileno()
            deadline = time.time() + self.timeout
            while n < len(batch):
                while b"\n" in self.buf and n < len(batch):
                    line, self.buf = self.buf.split(b"\n", 1)
                    out.append(json.loads(line))
                    n += 1
                    deadline = time.time() + self.timeout
                if n == len(batch):
                    break
                left = deadline - time.time()
                if left <= 0:
                    self.stop()
                    self.hung()
                    out.append({"hang": 1})
                    n += 1
                    break
                r, _, _ = select.select([fd], [], [], left)
                if r:
                    chunk = os.read(fd, 1 << 20)
                    if not chunk:
                        p.wait()
                        self.p = None
                        out.append({"crash": p.returncode})
                        n += 1
                        break
                    self.buf += chunk
            i += n
            th.join(timeout=1)
        return out


# ------------------------------------------------------------------ TLC

class Tlc:
    def __init__(self):
        self.states = self.distinct = 0
        self.runs = 0


TLC = Tlc()


def write_json(path, x):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(x, f)


def write_ndjson(path, xs):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        for x in xs:
            f.write(json.dumps(x) + "\n")


def tlc(module, cfg, work, env=None, workers=8, timeout=800, heap="6g", simulate=None, args=(), deadlock=False):
    """Run TLC on spec/<module>.tla with the given cfg text.  Returns (rc, output)."""
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), work)
    c = os.path.join(work, module + ".cfg")
    with open(c, "w") as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(prefix="tlcmeta", dir=work)
    cmd = ["java", f"-Xmx{heap}", "-Xss256m", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC",
           "-config", c, "-metadir", meta, "-workers", str(workers), "-nowarning", "-noGenerateSpecTE"]
    if not deadlock:
        cmd.append("-deadlock")
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(args) + [os.path.join(work, module + ".tla")]
    t0 = time.time()
    try:
        r = sh(cmd, cwd=work, timeout=timeout, env=env)
        rc, out = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        rc, out = -1, (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct", out.replace(",", ""))
    if m:
        TLC.states += int(m[-1][0])
        TLC.distinct += int(m[-1][1])
    TLC.runs += 1
    log(f"[tlc {module} {time.time()-t0:.1f}s rc={rc} {m[-1] if m else ''}]")
    return rc, out


def tla_str(line):
    """A string printed by TLC's PrintT."""
    if line.startswith('"') and line.endswith('"'):
        line = line[1:-1]
        return line.replace('\\"', '"').replace("\\\\", "\\")
    return None


def printed(out):
    for line in out.splitlines():
        s = tla_str(line.strip())
        if s is not None:
            yield s


PIECE = 24 << 20


def judge(module, prop, events, work, consts="", extra_env=None, chunk=None, timeout=800, keep=None, workers=8, heap="6g"):
    """Let TLC judge recorded events.  Returns list of (index, reason) of rejected events.
    The trace specification walks chunks of events in parallel; it must consume them all."""
    if not events:
        raise Broken("no events recorded")
    # large recordings in pieces
    batches, cur, size = [], [], 0
    for i, e in enumerate(events):
        line = json.dumps(e)
        if cur and size + len(line) > PIECE:
            batches.append(cur)
            cur, size = [], 0
        cur.append(line)
        size += len(line)
    batches.append(cur)
    rej, tags, first = [], {}, 0
    for lines in batches:
        n = len(lines)
        nch = min(n, 64) if chunk is None else max(1, n // chunk)
        tr = os.path.join(work, "trace.ndjson")
        os.makedirs(work, exist_ok=True)
        with open(tr, "w") as f:
            f.write("\n".join(lines) + "\n")
        env = {"TRACE": tr, "PROP": prop, "CHUNKS": str(nch)}
        if extra_env:
            env.update(extra_env)
        cfg = f"SPECIFICATION TraceSpec\nPOSTCONDITION Consumed\n{consts}\n"
        rc, out = tlc(module, cfg, work, env=env, timeout=timeout, workers=workers, heap=heap)
        for s in printed(out):
            m = re.match(r"REJECT (\d+) (.*)$", s)
            if m:
                rej.append((first + int(m.group(1)) - 1, m.group(2)))
            m = re.match(r"TAG (\d+) (.*)$", s)
            if m:
                tags.setdefault(m.group(2), []).append(first + int(m.group(1)) - 1)
        if rc != 0:
            open(os.path.join(work, "tlc.out"), "w").write(out)
            raise Broken(f"TLC failed on {module} (rc {rc}):\n" + out[-6000:])
        first += n
    rej.sort()
    if keep is not None:
        keep.update(tags)
    return rej


# ------------------------------------------------------------------ findings, evidence, results

def known(prop):
    """Entries of the committed known-findings file for a property."""
    out = []
    p = os.path.join(VERIF, "known-findings")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)$", line)
            if m and m.group(1) == prop:
                out.append({"id": m.group(2), "what": m.group(3)})
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rng = random.Random(f"{prop}-{seed}")
        self.violations = []
        self.samples = []
        self.traces = 0
        self.cov = {}
        self.assumptions = []
        self.work = os.path.join(BUILD, "run", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.replays = os.path.join(BUILD, "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.level = "model_checking"
        self.known = {k["id"]: k for k in known(prop)}
        self.known_seen = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def violate(self, what, data):
        h = hashlib.sha1(json.dumps([what, data], sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(self.replays, f"{self.prop}-{h}.json")
        write_json(p, {"property": self.prop, "what": what, "seed": self.seed, "case": data})
        self.violations.append((what, p))

    def finding(self, fid, what, data=None):
        """A deviation identified as fid: listed -> KNOWN-FINDING, otherwise a violation."""
        if fid in self.known:
            if fid not in self.known_seen:
                self.known_seen[fid] = what
        else:
            self.violate(f"{fid}: {what}", data)

    def sample(self, x, k=3):
        if len(self.samples) < k:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 1500 else s[:1500])

    def finish(self):
        for fid, k in self.known.items():
            if fid in self.known_seen:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        cov = {"states": TLC.distinct, "transitions": TLC.states, "traces_validated_against_impl": self.traces,
               "samples": self.samples, "tlc_runs": TLC.runs}
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
              "assumptions": self.assumptions}
        write_json(os.path.join(VERIF, "evidence", self.prop + ".json"), ev)
        seen = set()
        for what, p in self.violations[:20]:
            key = what[:60]
            if key in seen:
                continue
            seen.add(key)
            print(f"VIOLATION property={self.prop} replay={p}")
            print("  " + what[:600])
        log(f"[{self.prop} {self.tier}: {len(self.violations)} violations, {self.traces} traces, "
            f"{TLC.distinct} states, {time.time()-self.t0:.1f}s]")
        return 1 if self.violations else 0
