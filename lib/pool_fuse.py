"""Sessions with the real mount daemon, judged by spec/JFuse.tla."""
import json, os, re
import core, fuse, gen, mkimg, obs, rawimg, pool_foreign
from rawimg import SEC, pair, cps

MAXIO = 100000


class Session:
    """Talks to a daemon, records every request and answer."""

    def __init__(self, img_path, base=0, img=None):
        self.img = img or rawimg.parse(img_path, base)
        ln = max(0, os.path.getsize(img_path) - base)
        self.img = dict(self.img, len=[ln // SEC, ln % SEC])
        self.path, self.base = img_path, base
        self.raw = open(img_path, "rb")
        self.d = fuse.Daemon(img_path)
        self.ev = [dict(op="start", img=self.img, up=self.d.up)]
        self.inos = {1: 1}          # real inode -> small number
        self.cook = {}              # (ino, real cookie) -> small number
        self.know = {(): 1}         # path (raw names) -> real inode, as learned
        self.listed = {}
        self.alive = self.d.up
        self.files = [(k, j, s) for k, t in enumerate(self.img["tabs"], 1) for j, s in enumerate(t["slots"], 1)
                      if not s["attr"] & 16]

    def small(self, ino):
        return self.inos.setdefault(ino, len(self.inos) + 1) if ino != 0 else 0

    def ck(self, ino, c):
        if c == 0:
            return 0
        k = (ino, c)
        if k not in self.cook:
            self.cook[k] = sum(1 for x in self.cook if x[0] == ino) + 1
        return self.cook[k]

    def _do(self, f):
        if not self.alive:
            return None
        try:
            return f()
        except fuse.Dead as e:
            self.alive = False
            self.ev.append(dict(op="dead", how=e.how, rc=e.rc))
            return None

    def lookup(self, ino, name, known_path=None):
        r = self._do(lambda: self.d.lookup(ino, name.encode("utf-8")))
        if r is None:
            return None
        e, a = r
        z = dict(op="lookup", ino=self.small(ino), name=cps(name), err=e, rino=0, aino=0, sz=[0, 0], kind="")
        if not e:
            z.update(rino=self.small(a[0]), aino=self.small(a[1]), sz=pair(a[2]), kind=a[3])
        self.ev.append(z)
        return None if e else a[0]

    def getattr(self, ino):
        r = self._do(lambda: self.d.getattr(ino))
        if r is None:
            return
        e, a = r
        z = dict(op="getattr", ino=self.small(ino), err=e, aino=0, sz=[0, 0], kind="")
        if not e:
            z.update(aino=self.small(a[0]), sz=pair(a[1]), kind=a[2])
        self.ev.append(z)

    def readdir(self, ino, off, size):
        r = self._do(lambda: self.d.readdir(ino, off, size))
        if r is None:
            return []
        e, l = r
        out = []
        for i, o, n, k in l:
            try:
                nm = cps(n.decode("utf-8"))
            except UnicodeDecodeError:
                nm = [-1]
            dots = n in (b".", b"..")
            out.append(dict(ino=0 if dots else self.small(i), off=self.ck(ino, o), n=nm, kind=k))
        self.ev.append(dict(op="readdir", ino=self.small(ino), off=self.ck(ino, off), err=e, l=out))
        return l

    def bytes_at(self, s, off, n):
        self.raw.seek(self.base + s["sec"] * SEC + off)
        return self.raw.read(n)

    def read(self, ino, off, size):
        r = self._do(lambda: self.d.read(ino, off, size))
        if r is None:
            return
        e, d = r
        m = []
        if not e and d:
            for k, j, s in self.files:
                sz = s["sz"][0] * rawimg.MIB + s["sz"][1]
                if off + len(d) <= sz and self.bytes_at(s, off, len(d)) == d:
                    m.append([k, j])
        o = pair(min(off, 1 << 49))
        self.ev.append(dict(op="read", ino=self.small(ino), off=o, size=size, err=e, n=len(d), m=m))

    def open(self, ino, flags, op=fuse.OPEN):
        r = self._do(lambda: self.d.open(ino, flags, op))
        if r is None:
            return
        self.ev.append(dict(op="open", wr=bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)), err=r))

    def close(self):
        self.d.close()
        self.raw.close()
        return self.ev


# ---------------------------------------------------------------- behaviours of the specification

def spec_image():
    t = gen.Tree()
    t.add((), "b", False, 3, off=100)
    t.add((), "a", False, 5, off=200)
    t.add((), "D", True)
    t.add(("D",), "e", False, 0)
    t.add(("D",), "F", True)
    r = gen.rng("fusespec")
    path, _ = pool_foreign.make(r, t, dict(shape="balanced", place="linear"), attrs=False)
    return path


PATHS = {(0, 0): (), (1, 1): ("b",), (1, 2): ("a",), (1, 3): ("D",), (2, 1): ("D", "e"), (2, 2): ("D", "F")}


def replay(path, img, hist):
    s = Session(path, img=img)
    know = {(): 1}
    pos = {}            # path -> {model position: real cookie}

    def sweep():
        for p, ino in list(know.items()):
            s.getattr(ino)
            if p and p[-1] in "abe":
                s.read(ino, 0, 10)
                s.read(ino, 1, 3)
    for h in hist:
        d = PATHS[tuple(h["d"])]
        ino = know.get(d)
        if ino is None:
            break       # the daemon never showed it: an earlier answer was already wrong
        if h["op"] == "lookup":
            nm = "".join(map(chr, h["n"]))
            a = s.lookup(ino, nm)
            if a is not None:
                for q in PATHS.values():
                    if q[:-1] == d and q and q[-1].lower() == nm.lower():
                        know.setdefault(q, a)
        else:
            ps = pos.setdefault(d, {0: 0})
            if h["c"] not in ps:
                break
            l = s.readdir(ino, ps[h["c"]], 32 if h["one"] else 4096)
            for m, (i, o, n, k) in enumerate(l):
                ps[h["c"] + m + 1] = o
                if n not in (b".", b".."):
                    know.setdefault(d + (n.decode("utf-8", "replace"),), i)
        sweep()
    s.getattr(987654)
    s.read(987654, 0, 4)
    s.read(1, 0, 4)
    return s.close()


def histories(depth):
    cfg = core.tmp(".cfg")
    t = open(os.path.join(core.SPEC, "MC_Fuse.cfg")).read().replace("Depth = 3", "Depth = %d" % depth)
    open(cfg, "w").write(t)
    r = core.model_check("MC_Fuse", cfg=cfg)
    hs = [json.loads(json.loads(x)[5:]) for x in re.findall(r'^"HIST .*"$', r.out, re.M)]
    if len(hs) != r.out.count("HIST "):
        raise core.ToolError("cannot read histories")
    return hs, r


# ---------------------------------------------------------------- random sessions

def random_session(k, thorough):
    r = gen.rng("fuse", k)
    fam = "session"
    if k % 12 == 5:
        t = gen.Tree()
        nn = r.choice([60, 120, 250])
        for j in range(nn):
            isd = r.random() < 0.2
            t.add((), pool_foreign.some_name(r) if r.random() < 0.5 else "%03d%s" % (j, "n" * r.randrange(60)), isd,
                  0 if isd else gen.size(r, True), r=r)
        fam = "session-wide"
    elif k % 12 == 7:
        t = gen.Tree()
        for j, sz in enumerate([(1 << 32) - 1, (1 << 31) + 7, 5 << 20]):
            if sz >= rawimg.BIG:
                t.add((), "h%d" % j, False, sz, off=0, mark=r.randbytes(16).hex())
            else:
                t.add((), "h%d" % j, False, sz % (3 << 20), r=r)
        fam = "session-huge"
    else:
        t = pool_foreign.some_tree(r, k)
    opt = pool_foreign.some_options(r)
    base = r.choice([0, 0] + pool_foreign.OFFSETS)
    path, where = pool_foreign.make(r, t, opt, base)
    img = rawimg.parse(path, base)
    if img["bad"]:
        raise core.ToolError("our own image is malformed: " + img["bad"])
    if r.random() < 0.2 and t.files():
        fam += "-truncated"
        last = max([33] + [x["sec"] + (x["size"] + SEC - 1) // SEC for x in img["tabs"]]) * SEC
        ends = [where[p][0] * SEC + d for p, e in t.files() for d in (0, 1, e["len"] - 1, e["len"])]
        ends = [x for x in ends if x >= last]
        if ends:
            os.truncate(path, base + r.choice(ends))
    s = Session(path, base, img)
    know = {(): 1}
    dirs = {tuple(obs.dec(c) for c in tb["p"]): tb for tb in img["tabs"]}
    sizes = {}
    for p, tb in dirs.items():
        for sl in tb["slots"]:
            sizes[p + (obs.dec(sl["n"]),)] = None if sl["attr"] & 16 else sl["sz"][0] * rawimg.MIB + sl["sz"][1]
    cookies = {}
    for _ in range(60 if not thorough else 150):
        if not s.alive:
            break
        x = r.random()
        kd = [p for p in know if p in dirs]
        kf = [p for p in know if p not in dirs]
        if x < 0.3:
            p = r.choice(kd)
            names = [obs.dec(sl["n"]) for sl in dirs[p]["slots"]]
            nm = r.choice(names) if names and r.random() < 0.8 else r.choice(["nope", "a", "Z", "\u65e5", "~"])
            if r.random() < 0.15 and names:
                nm = nm[:-1] + chr((ord(nm[-1]) ^ 0x20) or 1) if ord(nm[-1]) != 0x2f ^ 0x20 else nm
            a = s.lookup(know[p], obs.rcase(r, nm))
            if a is not None:
                for q in names:
                    if mkimg.fold(q) == mkimg.fold(nm):
                        know.setdefault(p + (q,), a)
        elif x < 0.5:
            p = r.choice(kd)
            cs = cookies.setdefault(p, [0])
            l = s.readdir(know[p], r.choice([0, cs[-1], r.choice(cs)]), r.choice([1024, 1024, 1100, 1500, 4096, 8192, 65536]))
            for i, o, n, kd_ in l:
                cs.append(o)
                if n not in (b".", b".."):
                    q = p + (n.decode("utf-8", "replace"),)
                    if q in sizes:
                        know.setdefault(q, i)
        elif x < 0.6:
            s.getattr(know[r.choice(list(know))])
        elif x < 0.63:
            bad = r.choice([0, 999999, 1 << 40, 77777])
            r.choice([lambda: s.getattr(bad), lambda: s.lookup(bad, "a"), lambda: s.read(bad, 0, 10),
                      lambda: s.readdir(bad, 0, 4096), lambda: s.read(1, 0, 4)])()
        elif x < 0.67:
            p = r.choice(list(know))
            s.open(know[p], r.choice([0, 0, os.O_WRONLY, os.O_RDWR, os.O_RDONLY | os.O_TRUNC, os.O_RDONLY | os.O_CREAT, 0x8000]),
                   fuse.OPENDIR if p in dirs else fuse.OPEN)
        elif kf:
            p = r.choice(kf)
            if x > 0.97:
                s.readdir(know[p], 0, 4096) if r.random() < 0.5 else s.lookup(know[p], "x")
                continue
            n = sizes[p]
            off = r.choice([0, 0, 1, n - 1, n, n + 1, n // 2, max(0, n - 16), 2048, 2047, 1 << 32, r.randrange(n + 1)])
            off = max(0, off)
            size = r.choice([1, 16, 512, 2047, 2048, 4096, 65536, MAXIO, max(1, min(MAXIO, n - off)), max(1, min(MAXIO, n - off + 1))])
            s.read(know[p], off, size)
    # finish with complete listings, so that everything shown is compared with everything there is
    for p in [q for q in know if q in dirs][:8]:
        off, seen = 0, 0
        size = r.choice([1024, 2000, 65536])
        while s.alive and seen < 3000:
            l = s.readdir(know[p], off, size)
            if not l:
                break
            off = l[-1][1]
            seen += len(l)
    ev = s.close()
    core.drop(path)
    return fam, ev


def run(rep, thorough):
    depth = 3 if not thorough else 4
    hs, r = histories(depth)
    rep.model("MC_Fuse", r, "every history of %d lookups and listings on a 5 entry image" % depth)
    path = spec_image()
    img = rawimg.parse(path)
    traces, tags = [], []
    for ev in core.threads(lambda h: replay(path, img, h), hs):
        traces.append(ev)
        tags.append("spec-history")
    core.log("replayed", len(hs))
    n = 150 if not thorough else 1500
    for fam, ev in core.threads(lambda k: random_session(k, thorough), range(n)):
        traces.append(ev)
        tags.append(fam)
    core.log("sessions", n)
    rep.sessions("JFuse", traces, tags)
    core.log("judged")
    rep.rules.append("behaviours of MC_Fuse and random request sequences sent to the real daemon over the FUSE protocol; "
                     "a session is distinct by its requests and answers")
