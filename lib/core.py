"""Shared plumbing: building from /repo, running the real code, running TLC, reporting."""
import atexit, concurrent.futures as cf, fcntl, hashlib, json, os, re, resource, selectors, shutil
import subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(ROOT, "target"))
SPEC = os.path.join(ROOT, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()


class ToolError(Exception):
    """Something of ours (or of the toolchain) broke: exit 2, never a verdict."""


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="xdvdfs-verif-")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_n = 0


def tmp(suffix=""):
    global _n
    _n += 1
    return os.path.join(scratch(), "f%d%s" % (_n, suffix))


def drop(*paths):
    for p in paths:
        try:
            os.unlink(p)
        except OSError:
            pass


# ---------------------------------------------------------------- building

def _cargo(args, tdir, what):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tdir,
               CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0")
    env.pop("RUSTFLAGS", None)
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, ".verif-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "-q"] + args, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("building %s failed:\n%s" % (what, p.stderr[-4000:]))


def _manifest():
    """The harness crate, with its dependency pointing at REPO, and REPO's lock file versions."""
    src = os.path.join(ROOT, "harness")
    if REPO == "/repo":
        return os.path.join(src, "Cargo.toml")
    d = os.path.join(TARGET, "harness-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])
    shutil.copytree(src, d, dirs_exist_ok=True)
    t = open(os.path.join(d, "Cargo.toml")).read().replace("/repo/xdvdfs-core", REPO + "/xdvdfs-core")
    open(os.path.join(d, "Cargo.toml"), "w").write(t)
    return os.path.join(d, "Cargo.toml")


def build_harness():
    tdir = os.path.join(TARGET, "h")
    _cargo(["--manifest-path", _manifest()], tdir, "harness")
    return os.path.join(tdir, "debug", "xh")


def build_harness_sync():
    tdir = os.path.join(TARGET, "hs")
    _cargo(["--manifest-path", _manifest(), "--features", "sync"], tdir, "sync harness")
    return os.path.join(tdir, "debug", "xh")


def build_cli():
    tdir = os.path.join(TARGET, "cli")
    _cargo(["--manifest-path", REPO + "/Cargo.toml", "-p", "xdvdfs-cli"], tdir, "xdvdfs-cli")
    return os.path.join(tdir, "debug", "xdvdfs")


def build_fsd():
    tdir = os.path.join(TARGET, "fsd")
    _cargo(["--manifest-path", REPO + "/Cargo.toml", "-p", "xdvdfs-fsd"], tdir, "xdvdfs-fsd")
    return os.path.join(tdir, "debug", "xdvdfsd")


def build_shim(name):
    """An LD_PRELOAD library of ours, from shim/<name>.c."""
    os.makedirs(TARGET, exist_ok=True)
    so = os.path.join(TARGET, name + ".so")
    t = so + ".%d" % os.getpid()
    p = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-o", t, os.path.join(ROOT, "shim", name + ".c"), "-ldl"],
                       capture_output=True, text=True)
    if p.returncode:
        raise ToolError(p.stderr)
    os.rename(t, so)
    return so


BUILDERS = dict(harness=build_harness, sync=build_harness_sync, cli=build_cli, fsd=build_fsd,
                fault=lambda: build_shim("fault"), fuse=lambda: build_shim("fuse"))
BIN = {}


def build(*what):
    lock = os.path.join(REPO, "Cargo.lock")
    before = open(lock, "rb").read() if os.path.exists(lock) else None
    with cf.ThreadPoolExecutor() as ex:
        fs = {w: ex.submit(BUILDERS[w]) for w in what if w not in BIN}
        for w, f in fs.items():
            BIN[w] = f.result()
    if before is not None and open(lock, "rb").read() != before:
        open(lock, "wb").write(before)
    log("built", " ".join(what))


# ---------------------------------------------------------------- the worker process

SLOW = []       # how long each call took that never came back, or died late


def limit(t):
    """How long to wait for an answer.  Once enough calls have hung (the check fails then, whatever else happens), less,
    so that a change that makes everything hang is still reported in time."""
    return t if len(SLOW) < 8 else min(t, 3) if len(SLOW) < 60 else 0


class Worker:
    """Drives one harness process; hangs and aborts of the code under test are answers, not errors."""

    def __init__(self, which="harness", mem=12 << 30, env=None):
        self.env = dict(os.environ, **env) if env else None
        self.bin = BIN[which]
        self.mem = mem
        self.p = None

    def _start(self):
        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (self.mem, self.mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.err = open(os.path.join(scratch(), "worker.%d.err" % id(self)), "wb")
        self.p = subprocess.Popen([self.bin], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  preexec_fn=lim, env=self.env)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def ask(self, req, timeout=60):
        if not limit(timeout):      # not even asked
            return {"hang": True}
        if self.p is None:
            self._start()
        try:
            self.p.stdin.write(json.dumps(req).encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            self.close()
            raise ToolError("harness went away")
        t0 = time.time()
        end = t0 + limit(timeout)
        sel = selectors.DefaultSelector()
        sel.register(self.p.stdout, selectors.EVENT_READ)
        try:
            while b"\n" not in self.buf:
                left = end - time.time()
                if left <= 0:
                    self.close()
                    SLOW.append(time.time() - t0)
                    return {"hang": True}
                if not sel.select(left):
                    continue
                d = self.p.stdout.read(1 << 20)
                if d is None:
                    continue
                if d == b"":
                    rc = self.p.wait()
                    self.close()
                    if time.time() - t0 > 2:
                        SLOW.append(time.time() - t0)
                    return {"abort": rc}
                self.buf += d
        finally:
            sel.close()
        line, self.buf = self.buf.split(b"\n", 1)
        r = json.loads(line)
        if "harness_error" in r:
            raise ToolError("harness: %s on %s" % (r["harness_error"], json.dumps(req)[:300]))
        return r


def outcome(r):
    """Projects an answer to ok / err / panic / hang / abort."""
    for k in ("panic", "hang", "abort"):
        if k in r:
            return k
    return "err" if "err" in r else "ok"


def parallel(fn, items, n=8, which="harness", mem=12 << 30):
    """fn(worker, item) for every item, on n worker processes, results in order."""
    items = list(items)
    out = [None] * len(items)
    import queue, threading
    q = queue.Queue()
    for i, it in enumerate(items):
        q.put((i, it))
    errs = []

    def run():
        w = Worker(which, mem)
        try:
            while not errs:
                try:
                    i, it = q.get_nowait()
                except queue.Empty:
                    break
                out[i] = fn(w, it)
        except BaseException as e:  # noqa
            errs.append(e)
        finally:
            w.close()
    ts = [threading.Thread(target=run) for _ in range(min(n, max(1, len(items))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return out


# ---------------------------------------------------------------- TLC

class TLCResult:
    pass


def tlc(module, cfg=None, env=None, workers=1, timeout=800, heap="3g", stack="64m", extra=(), cwd=None):
    """Runs TLC on spec/<module>.tla; returns its output and counters.  Raises ToolError on TLC errors
    other than a property violation (reported in .violated)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss" + stack,
           "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg or (module + ".cfg")] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TLCResult()
    r.out = p.stdout
    r.rc = p.returncode
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", p.stdout)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.violated = bool(re.search(r"is violated|Deadlock reached|Temporal properties were violated", p.stdout))
    if p.returncode != 0 and not r.violated:
        raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, (p.stdout + p.stderr)[-3500:]))
    return r


_BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)
TLC_STATS = dict(states=0, transitions=0)


def judge(module, events, shards=None, cfg=None):
    """Lets the specification judge a recorded trace.  Returns {event index: set of broken conjuncts}."""
    check_ints(events)
    if not events:
        return {}
    size = sum(len(json.dumps(e)) for e in events)
    if shards is None:
        shards = max(1, min(7, len(events), size // 150000 + 1))
    # longest events first, dealt to the shortest shard
    order = sorted(range(len(events)), key=lambda i: -len(json.dumps(events[i])))
    parts = [[] for _ in range(shards)]
    load = [0] * shards
    for i in order:
        k = load.index(min(load))
        parts[k].append(i)
        load[k] += len(json.dumps(events[i])) + 2000
    for p in parts:
        p.sort()
    return _judge_parts(module, events, parts, cfg)


def judge_seq(module, traces, cfg=None):
    """As judge, for traces (lists of events) whose events depend on each other: the first event of each
    trace must be one that resets the specification's state."""
    flat, parts, owner = [], [], []
    for t in traces:
        check_ints(t)
    shards = max(1, min(7, len(traces), sum(len(json.dumps(t)) for t in traces) // 150000 + 1))
    load = [0] * shards
    parts = [[] for _ in range(shards)]
    for ti in sorted(range(len(traces)), key=lambda j: -len(json.dumps(traces[j]))):
        t = traces[ti]
        k = load.index(min(load))
        load[k] += len(json.dumps(t))
        for e in t:
            flat.append(e)
            owner.append(ti)
            parts[k].append(len(flat) - 1)
    return flat, _judge_parts(module, flat, parts, cfg), owner


def _judge_parts(module, events, parts, cfg):
    def one(part):
        f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=scratch(), delete=False)
        for i in part:
            f.write(json.dumps(events[i]) + "\n")
        f.close()
        r = tlc(module, cfg=cfg or "Judge.cfg", env={"TRACE": f.name}, stack="512m")
        os.unlink(f.name)
        if r.violated or r.distinct != len(part) + 1:
            raise ToolError("%s consumed %d of %d events\n%s" % (module, r.distinct - 1, len(part), r.out[-3000:]))
        TLC_STATS["states"] += r.distinct
        TLC_STATS["transitions"] += r.generated
        bad = {}
        n = 0
        for m in _BAD.finditer(r.out):
            bad[part[int(m.group(1)) - 1]] = set(re.findall(r'"([^"]+)"', m.group(2)))
            n += 1
        if n != r.out.count('"BAD"'):
            raise ToolError("unreadable verdicts from %s:\n%s" % (module, r.out[-2000:]))
        return bad
    out = {}
    with cf.ThreadPoolExecutor(max_workers=7) as ex:
        for b in ex.map(one, [p for p in parts if p]):
            out.update(b)
    return out


def check_ints(x, path=""):
    """TLC's integers are 32 bit and wrap silently; nothing outside may reach it."""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        if x is None:
            raise ToolError("null in event at " + path)
        return
    if isinstance(x, int):
        if not -(1 << 30) <= x < (1 << 30):
            raise ToolError("integer out of range in event at %s: %d" % (path, x))
    elif isinstance(x, dict):
        for k, v in x.items():
            check_ints(v, path + "." + k)
    elif isinstance(x, (list, tuple)):
        for v in x:
            check_ints(v, path)
    else:
        raise ToolError("bad value in event at %s: %r" % (path, x))


def model_check(module, cfg=None, workers=4, **kw):
    """Exhaustive check of a small-bound model; a violation is an error of the specification."""
    r = tlc(module, cfg=cfg, workers=workers, **kw)
    if r.violated:
        raise ToolError("the specification %s violates its own property:\n%s" % (module, r.out[-4000:]))
    TLC_STATS["states"] += r.distinct
    TLC_STATS["transitions"] += r.generated
    return r


def threads(fn, items, n=8):
    """fn(item) for every item on n threads (each mostly waits for processes of its own), in order."""
    with cf.ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(fn, items))


def scenarios(r):
    """The scenarios a model printed."""
    sc = [json.loads(json.loads(x)[5:]) for x in re.findall(r'^"SCEN .*"$', r.out, re.M)]
    if len(sc) != r.out.count("SCEN ") or not sc:
        raise ToolError("unreadable scenarios:\n" + r.out[-2000:])
    return sc


def refute(module, cfg, **kw):
    """A deliberately broken variant of a model, in which TLC must find the violation."""
    r = tlc(module, cfg=cfg, workers=4, **kw)
    if not r.violated:
        raise ToolError("TLC does not refute the broken model %s/%s" % (module, cfg))
    TLC_STATS["states"] += r.distinct
    TLC_STATS["transitions"] += r.generated
    return r


_public = {}
_public_lock = __import__("threading").Lock()


def public(which):
    """A copy of a built program that an unprivileged user can reach."""
    with _public_lock:
        if which not in _public:
            os.chmod(scratch(), 0o711)
            p = os.path.join(scratch(), "bin-" + which)
            shutil.copy(BIN[which], p)
            os.chmod(p, 0o755)
            _public[which] = p
        return _public[which]
