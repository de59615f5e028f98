"""Images of which a part cannot be read: library, command line and daemon give the right answer or fail."""
import hashlib, os, re, shutil, struct
import cli, core, cso, fuse, gen, obs, pool_foreign, rawimg
from rawimg import SEC

NOCUT = [1 << 29, 0]
NAMES = [c for c in gen.SAFE if "!" <= c <= "~" and c not in "/\\"]


# ---------------------------------------------------------------- the image of the specification

def model(img, first=0):
    """im of spec/XDamage.tla, and (path -> table number), (path -> file number)."""
    tabs, files, tno, fno = [], [], {}, {}
    for k, t in enumerate(img["tabs"]):
        p = tuple(obs.dec(c) for c in t["p"])
        tno[p] = k + 1
        tabs.append(dict(up=tno[p[:-1]] if p else 0, secs=[first + t["sec"] + j for j in range((t["size"] + SEC - 1) // SEC)]))
    for t in img["tabs"]:
        p = tuple(obs.dec(c) for c in t["p"])
        for s in t["slots"]:
            if not s["attr"] & 16:
                n = s["sz"][0] * (1 << 20) + s["sz"][1]
                q = p + (obs.dec(s["n"]),)
                files.append(dict(tab=tno[p], secs=[first + s["sec"] + j for j in range((n + SEC - 1) // SEC)],
                                  used=n - (n - 1) // SEC * SEC if n else 0))
                fno[q] = (len(files), n)
    return dict(desc=first + 32, tabs=tabs, files=files), tno, fno


def op(k, t=0, f=0, lo=0, hi=0):
    return dict(k=k, t=t, f=f, lo=lo, hi=hi)


def readop(tno, fno, p, off, size):
    f, n = fno[p]
    a, b = min(off, n), min(off + size, n)
    return op("read", tno[p[:-1]], f, a // SEC + 1, (b + SEC - 1) // SEC) if b > a else op("look", tno[p[:-1]])


def objects(im):
    """Sectors that hold something."""
    return sorted({im["desc"]} | {s for x in im["tabs"] + im["files"] for s in x["secs"]})


def cutjob(c):
    return dict(bad=[], cut=[c // SEC, c % SEC], how="lasting")


# ---------------------------------------------------------------- the library

def lib_questions(r, tno, fno, most=60):
    """[(question for the harness, op)]"""
    out = [(dict(list=True), op("tree", 1)), (dict(checksum=True), op("all", 1)), (dict(rootdirent=True), op("list", 1)),
           (dict(repack=True), op("all", 1))]
    more = []
    for p, k in tno.items():
        s = "/".join(p)
        more.append((dict(walk=[s]), op("list", k)))
        more.append((dict(scan=[s]), op("list", k)))
        if p:
            more.append((dict(lookups=[s]), op("look", tno[p[:-1]])))
        more.append((dict(lookups=[s + "/no-such-entry"]), op("look", k)))
    for p, (f, n) in fno.items():
        s = "/".join(p)
        more.append((dict(lookups=[s]), op("look", tno[p[:-1]])))
        more.append((dict(reads=[dict(p=s, how="all")]), readop(tno, fno, p, 0, n)))
        for off, size in r.sample([(0, 1), (n // 2, SEC), (max(0, n - 1), 10), (0, SEC), (SEC, SEC), (SEC - 1, 2), (n // 3, n)], 2):
            more.append((dict(reads=[dict(p=s, how="at", off=off, size=size)]), readop(tno, fno, p, off, size)))
        if n:
            z = r.choice([1, n // 2, n])
            more.append((dict(reads=[dict(p=s, how="buf", size=z)]), readop(tno, fno, p, 0, z)))
    return out + (more if len(more) <= most else r.sample(more, most))


def ask(w, path, im, qs, jobs, tag, pick=None):
    """Runs jobs [dict(bad, cut, how, nth, which)]; returns an event."""
    n = os.path.getsize(path)
    reqs = []
    for j in jobs:
        bad = [[s * SEC, (s + 1) * SEC] for s in j["bad"]]
        if j["cut"] != NOCUT:
            bad.append([j["cut"][0] * SEC + j["cut"][1], 1 << 40])
        reqs.append(dict(bad=bad, nth=j.get("nth", 0), which=j.get("which")))
    a = w.ask(dict(op="damage", img=path, qs=[q for q, _ in qs], jobs=reqs), timeout=200)
    out = []
    for k, j in enumerate(jobs):
        rs = ["-"] * len(qs)
        if core.outcome(a) != "ok":
            rs = ["panic"] * len(qs)
        else:
            for x, z in zip(j["which"] if j.get("which") is not None else range(len(qs)), a["jobs"][k]):
                rs[x] = z
        out.append(dict(bad=j["bad"], cut=j["cut"], how=j["how"], rs=rs))
    return dict(who="lib", im=im, ops=[o for _, o in qs], jobs=out), a


def counts(w, path, qs):
    a = w.ask(dict(op="damage", img=path, qs=[q for q, _ in qs], jobs=[]), timeout=100)
    return a.get("counts", [0] * len(qs)), a.get("base", [])


def library(w, item):
    tag, k, t, opt, deep = item
    r = gen.rng("damagelib", tag, k)
    path, _ = pool_foreign.make(r, t, opt)
    img = rawimg.parse(path)
    if img["bad"]:
        raise core.ToolError("our own image is malformed: " + img["bad"])
    im, tno, fno = model(img)
    qs = lib_questions(r, tno, fno, 60 if not deep else 300)
    secs = objects(im)
    jobs = [dict(bad=[s], cut=NOCUT, how="lasting") for s in (secs if len(secs) < 60 else r.sample(secs, 60))]
    for _ in range(30 if not deep else 200):
        jobs.append(dict(bad=sorted(r.sample(secs, min(len(secs), r.choice([2, 2, 3, 5, len(secs) - 1])))), cut=NOCUT, how="lasting"))
    # ends: at every sector, and within
    n = os.path.getsize(path)
    ends = sorted({s * SEC + d for s in secs for d in (0, 1, 13, 14, 15, 40, r.randrange(SEC), SEC - 1, SEC)})
    for c in (ends if len(ends) < 80 else r.sample(ends, 80 if not deep else min(len(ends), 500))):
        jobs.append(cutjob(min(c, n)))
    cnt, base = counts(w, path, qs)
    qs, cnt = [q for q, b in zip(qs, base) if b in ("ok", "none")], [c for c, b in zip(cnt, base) if b in ("ok", "none")]
    nth = [(x, q) for q, c in enumerate(cnt) for x in range(1, c + 1)]
    for x, q in (nth if len(nth) < 400 else r.sample(nth, 400 if not deep else min(len(nth), 4000))):
        jobs.append(dict(bad=[], cut=NOCUT, how="once", nth=x, which=[q]))
    e, _ = ask(w, path, im, qs, jobs, tag)
    core.drop(path)
    return e


def some_tree(r):
    """Trees with few entries but tables of several sectors."""
    t = gen.Tree()
    ps = [()]
    for _ in range(r.choice([1, 3, 6, 12])):
        p = r.choice(ps)
        nm = gen.name(r, alphabet=r.choice([list("abAB_"), NAMES]))
        isd = r.random() < 0.5 and len(p) < 4
        if t.add(p, nm, isd, 0 if isd else r.choice([0, 1, 5, 100, SEC - 1, SEC, SEC + 1, 3 * SEC, 9000]), r=r) and isd:
            ps.append(p + (nm,))
    for p in r.sample(ps, min(len(ps), 3)):
        for j in range(r.choice([0, 0, 9, 14, 30])):
            t.add(p, "%s%03d" % (r.choice("amz") * r.choice([90, 150, 200]), j), r.random() < 0.1, 0, r=r)
    return t


def modelled(w, item):
    """Every set of bad sectors the model enumerates, on an image with the objects of the model."""
    k, sets = item
    r = gen.rng("damagemodel", k)
    t = gen.Tree()
    t.add((), "a", False, SEC + 100, r=r)
    t.add((), "sub", True)
    t.add(("sub",), "b", False, SEC, r=r)
    t.add(("sub",), "in", True)
    t.add(("sub", "in"), "c", False, 1, r=r)
    for p in ((), ("sub",)):
        for j in range(10):
            t.add(p, "%s%d" % (r.choice("0mz") * 190, j), False, 0, r=r)
    opt = dict(pool_foreign.some_options(r), hi_sec=0, skip=0, gap=0, order=r.choice(["random", "sorted"]))
    path, _ = pool_foreign.make(r, t, opt)
    im, tno, fno = model(rawimg.parse(path))
    roles = [im["desc"]] + [s for p in ((), ("sub",), ("sub", "in")) for s in im["tabs"][tno[p] - 1]["secs"]]
    roles += [s for p in (("a",), ("sub", "b"), ("sub", "in", "c")) for s in im["files"][fno[p][0] - 1]["secs"]]
    if len(roles) != 10:
        raise core.ToolError("the model's image has %d sectors" % len(roles))
    qs = lib_questions(r, tno, {p: fno[p] for p in (("a",), ("sub", "b"), ("sub", "in", "c"))}, 100)
    _, base = counts(w, path, qs)
    qs = [q for q, b in zip(qs, base) if b in ("ok", "none")]       # other properties judge intact images
    jobs = [dict(bad=sorted(roles[s - 32] for s in x), cut=NOCUT, how="lasting") for x in sets]
    e, _ = ask(w, path, im, qs, jobs, "model")
    core.drop(path)
    return e


# ---------------------------------------------------------------- the command line

def strip(out):
    return re.sub(rb"( bytes in )[^\n]*\n$", rb"\1\n", out)


def digest(d):
    return sorted(cli.snap(d).items())


class Cmd:
    """One command: args with the image as IMG, what it produces, and the question it answers."""

    def __init__(self, args, op, out=None, argv0="xdvdfs"):
        self.args, self.op, self.out, self.argv0 = args, op, out, argv0

    def run(self, bx, img, fault=None):
        od = os.path.join(bx, "out")
        shutil.rmtree(od, ignore_errors=True)
        os.mkdir(od)
        a = [img if x == "IMG" else x for x in self.args]
        if self.out == "rewrite":
            # works on the image itself: a copy
            shutil.copyfile(img, os.path.join(od, "i.iso"))
            a = [os.path.join(od, "i.iso") if x == img else x for x in a]
        x = cli.run(a, od, argv0=self.argv0, fault=fault)
        if x.how != "ok":
            return x.how, None
        if self.out:
            s = dict(digest(od))
            if self.out == "rewrite":
                s = {q: v for q, v in s.items() if not q.endswith(".old")}
            return "ok", s
        return "ok", strip(x.out).replace(img.encode(), b"IMG")


def word(base, got):
    if got[0] in ("panic", "hang", "signal"):
        return "panic"
    if got[0] != "ok":
        return "err" if base[0] == "ok" else "same"
    return "same" if base[0] == "ok" and base[1] == got[1] else "diff"


def commands(r, tno, fno, cso=False, most=12):
    c = [Cmd(["ls", "IMG"], op("list", 1)), Cmd(["ls", "-s", "IMG"], op("list", 1)), Cmd(["tree", "IMG"], op("tree", 1)),
         Cmd(["md5", "IMG"], op("all", 1)), Cmd(["checksum", "IMG"], op("all", 1)), Cmd(["info", "IMG"], op("vol")),
         Cmd(["info", "IMG", "/"], op("list", 1)), Cmd(["unpack", "IMG", "u"], op("all", 1), out="dir"),
         Cmd(["pack", "IMG", "p.iso"], op("all", 1), out="dir")]
    if not cso:
        c += [Cmd(["-l", "IMG"], op("tree", 1), argv0="extract-xiso"),
              Cmd(["-r", "IMG"], op("all", 1), out="rewrite", argv0="extract-xiso"),
              Cmd(["IMG"], op("all", 1), out="dir", argv0="extract-xiso"),
              Cmd(["compress", "IMG", "c.cso"], op("all", 1), out="dir")]
    more = []
    for p, k in tno.items():
        if p:
            s = "/" + "/".join(p)
            more += [Cmd(["ls", "IMG", s], op("list", k)), Cmd(["ls", "-s", "IMG", s], op("list", k)),
                     Cmd(["md5", "IMG", s], op("all", k)), Cmd(["info", "IMG", s], op("list", k)),
                     Cmd(["copy-out", "IMG", s, "o"], op("all", k), out="dir")]
    for p, (f, n) in fno.items():
        s = "/" + "/".join(p)
        whole = readop(tno, fno, p, 0, n)
        more += [Cmd(["md5", "IMG", s], whole), Cmd(["info", "IMG", s], op("look", tno[p[:-1]])),
                 Cmd(["copy-out", "IMG", s, "o"], whole, out="dir")]
    return c + r.sample(more, min(most, len(more)))


def copyof(bx, src, n):
    f = os.path.join(bx, "i.iso")
    core.drop(f)
    with open(src, "rb") as a, open(f, "wb") as b:
        b.write(a.read(n))
    return f


def cuts(r, im, n, most):
    secs = objects(im)
    c = sorted({min(n, max(0, s * SEC + d)) for s in secs for d in (0, 0, 14, 16, SEC // 2, SEC - 1, SEC)} | {n - 1, 33 * SEC, 32 * SEC})
    return c if len(c) <= most else r.sample(c, most)


def tool(item):
    tag, k, t, opt, base, deep = item
    r = gen.rng("damagecli", tag, k)
    bx = cli.box()
    path, _ = pool_foreign.make(r, t, opt, base)
    src = os.path.join(bx, "src")
    os.rename(path, src)
    im, tno, fno = model(rawimg.parse(src, base), base // SEC)
    n = os.path.getsize(src)
    cs = commands(r, tno, fno)
    if not deep:
        cs = r.sample(cs, min(len(cs), 10))
    f = copyof(bx, src, n)
    want = [c.run(bx, f) for c in cs]
    jobs = []
    e = dict(who="cli", im=im, ops=[c.op for c in cs], jobs=jobs)
    if tag == "cut":
        for c in cuts(r, im, n, 6 if not deep else 30):
            f = copyof(bx, src, c)
            jobs.append(dict(cutjob(c), rs=[word(b, x.run(bx, f)) for b, x in zip(want, cs)]))
    else:
        # one read that fails, stops early, or gives less
        d = os.path.join(bx, "in")
        os.mkdir(d)
        f = os.path.join(d, "i.iso")
        shutil.copyfile(src, f)
        log = os.path.join(bx, "log")
        for q, c in enumerate(cs):
            if c.out == "rewrite":
                continue
            core.drop(log)
            c.run(bx, f, fault=dict(VF_DIR=d, VF_KIND="r", VF_MODE="count", VF_LOG=log))
            ops = [x.split() for x in open(log).read().splitlines()] if os.path.exists(log) else []
            todo = [(int(x[0]), m) for x in ops for m in (["err:5", "eof", "short", "err:5"] if x[1] in ("read", "pread") else ["err:5"])]
            for at, m in r.sample(todo, min(len(todo), 6 if not deep else 40)):
                got = word(want[q], c.run(bx, f, fault=dict(VF_DIR=d, VF_KIND="r", VF_MODE=m, VF_AT=str(at))))
                rs = ["-"] * len(cs)
                rs[q] = got
                jobs.append(dict(bad=[], cut=NOCUT, how="part" if m == "short" else "once", rs=rs))
    cli.wipe(bx)
    return e


def compressed(item):
    """A compressed image that ends early."""
    tag, k, t, deep = item
    r = gen.rng("damagecso", k)
    bx = cli.box()
    t.write_dir(os.path.join(bx, "s"))
    if cli.run(["compress", "s", "c.cso"], bx).how != "ok" or cli.run(["pack", "s", "p.iso"], bx).how != "ok":
        cli.wipe(bx)
        return None
    im, tno, fno = model(rawimg.parse(os.path.join(bx, "p.iso")))
    cs = r.sample(commands(r, tno, fno, cso=True), 8)
    f = os.path.join(bx, "c.1.cso")
    d = open(f, "rb").read()
    want = [c.run(bx, f) for c in cs]
    nb = struct.unpack("<Q", d[8:16])[0] // SEC
    idx = [x & 0x7fffffff for x in struct.unpack("<%dI" % (nb + 1), d[24:24 + 4 * (nb + 1)])]
    sh = d[21]
    e = dict(who="cli", im=im, ops=[c.op for c in cs], jobs=[])
    ends = sorted({x << sh for x in idx} | {(x << sh) + r.randrange(1, 40) for x in idx if r.random() < 0.5} | {0, 10, 23, 24, 40, len(d) - 1, len(d) - 5})
    for c in r.sample(ends, min(len(ends), 6 if not deep else 40)):
        if c < len(d):
            open(f, "wb").write(d[:c])
            # the decompressor (not of this repository) ends the process on some of these: that is no answer either
            rs = [word(b, x.run(bx, f)) for b, x in zip(want, cs)]
            e["jobs"].append(dict(bad=[], cut=NOCUT, how="once", rs=["err" if z == "panic" else z for z in rs]))
    cli.wipe(bx)
    return e


# ---------------------------------------------------------------- the daemon

ENOENT, ENODATA = 2, 61


class Session:
    def __init__(self, img):
        self.d = fuse.Daemon(img)

    def node(self, p):
        """(error, ino, size, kind); each component is looked up."""
        ino = 1
        x = (0, 1, 0, "dir")
        for c in p:
            e, z = self.d.lookup(ino, c.encode())
            if e:
                return e, 0, 0, ""
            ino = z[0]
            x = (0, ino, z[2], z[3])
        return x

    def answer(self, q):
        try:
            e, ino, size, kind = self.node(q[1])
            if e:
                return "err%d" % e
            if q[0] == "look":
                return (kind, size if kind == "file" else 0)
            if q[0] == "list":
                out, off = [], 0
                for _ in range(10000):
                    e, l = self.d.readdir(ino, off, q[2])
                    if e:
                        return "err%d" % e
                    if not l:
                        return sorted((n, k) for _, _, n, k in out)
                    out += l
                    off = l[-1][1]
                return "hang"
            e, b = self.d.read(ino, q[2], q[3])
            return "err%d" % e if e else hashlib.sha1(b).hexdigest()
        except fuse.Dead as x:
            return "dead " + x.how


def dword(base, got):
    if isinstance(got, str) and (got.startswith("dead") or got == "hang"):
        return "panic"
    if got == base:
        return "same"
    if isinstance(got, str) and got.startswith("err"):
        return "diff" if got == "err%d" % ENOENT else "err"
    return "diff"


def daemon(item):
    tag, k, t, opt, base, deep = item
    r = gen.rng("damaged", tag, k)
    bx = cli.box()
    path, _ = pool_foreign.make(r, t, opt, base)
    src = os.path.join(bx, "src")
    os.rename(path, src)
    im, tno, fno = model(rawimg.parse(src, base), base // SEC)
    n = os.path.getsize(src)
    qs = []
    for p, x in tno.items():
        qs.append((("list", p, r.choice([300, 700, 4096, 65536])), op("list", x)))
        if p:
            qs.append((("look", p), op("look", tno[p[:-1]])))
        qs.append((("look", p + ("no-such-entry",)), op("look", x)))
    for p, (f, z) in fno.items():
        qs.append((("look", p), op("look", tno[p[:-1]])))
        for off, size in r.sample([(0, z), (0, 1), (z // 2, SEC), (SEC, SEC), (SEC - 1, 2), (0, 131072)], 2):
            qs.append((("read", p, off, size), readop(tno, fno, p, off, size)))
    if len(qs) > 30:
        qs = r.sample(qs, 30)
    f = copyof(bx, src, n)
    s = Session(f)
    want = [s.answer(q) for q, _ in qs]
    s.d.close()
    e = dict(who="daemon", im=im, ops=[op("vol")] + [o for _, o in qs], jobs=[])
    for c in cuts(r, im, n, 6 if not deep else 40):
        live = tag == "live"
        f = copyof(bx, src, n if live else c)
        s = Session(f)
        if live:
            # the image shrinks under a daemon that has answered some questions
            for q, _ in r.sample(qs, r.choice([0, 1, len(qs) // 2])):
                s.answer(q)
            os.truncate(f, c)
        order = list(range(len(qs)))
        r.shuffle(order)
        up = s.d.up
        rs = ["-"] * len(qs)
        if up:
            for q in order:
                rs[q] = dword(want[q], s.answer(qs[q][0]))
        job = cutjob(c)
        # what a daemon that is running has already seen is no failure to report; otherwise as on a fresh one
        e["jobs"].append(dict(job, rs=[("same" if up else "panic" if s.d.dead.how == "hang" else "err") if not live else "-"] + rs))
        s.d.close()
    cli.wipe(bx)
    return e


def run(rep, thorough):
    m = core.model_check("MC_Damage")
    rep.model("MC_Damage", m, "every set of bad sectors of a 10 sector image, 14 questions, one transient failure")
    core.refute("MC_Damage", "MC_Damage_x.cfg")
    core.refute("MC_Damage", "MC_Damage_y.cfg")
    sets = core.scenarios(m)
    core.log("model checked", len(sets))
    ev, tags = [], []
    me = core.parallel(modelled, [(k, sets) for k in range(8 if not thorough else 60)])
    ev += me
    tags += ["model-sets"] * len(me)
    ls = []
    for k in range(64 if not thorough else 800):
        r = gen.rng("damagesc", k)
        ls.append(("lib", k, some_tree(r), dict(pool_foreign.some_options(r), hi_sec=0), thorough))
    le = core.parallel(library, ls)
    ev += le
    tags += [x[0] for x in ls]
    core.log("library asked", sum(len(j["rs"]) for e in ev for j in e["jobs"]))
    ts, ds, zs = [], [], []
    for k in range(56 if not thorough else 600):
        r = gen.rng("damageclisc", k)
        base = 0 if k % 4 else r.choice([0, 34078720])
        ts.append(("cut" if k % 2 else "fault", k, some_tree(r), dict(pool_foreign.some_options(r), hi_sec=0), base if k % 2 else 0, thorough))
    for k in range(16 if not thorough else 150):
        r = gen.rng("damagecsosc", k)
        zs.append(("cso", k, some_tree(r), thorough))
    for k in range(40 if not thorough else 500):
        r = gen.rng("damagedsc", k)
        ds.append(("live" if k % 2 else "mount", k, some_tree(r), dict(pool_foreign.some_options(r), hi_sec=0), 0, thorough))
    for fn, items in ((tool, ts), (compressed, zs), (daemon, ds)):
        es = core.threads(fn, items)
        ev += [e for e in es if e]
        tags += [fn.__name__ + "-" + x[0] for x, e in zip(items, es) if e]
        core.log(fn.__name__, "done")
    v = core.judge("JDamage", ev)
    core.log("judged", len(ev))

    def info(i):
        """The jobs that break it, for a reader."""
        e = ev[i]
        return [dict(j, rs={q: z for q, z in enumerate(j["rs"]) if z not in ("-", "same")}) for j in e["jobs"]][:200]
    rep.judged("JDamage", ev, v, tags, info=info)
    rep.extra["answers"] = sum(1 for e in ev for j in e["jobs"] for z in j["rs"] if z != "-")
    rep.extra["damages"] = sum(len(e["jobs"]) for e in ev)
    rep.rules.append("every set of bad sectors of the model's image; single and several bad sectors, ends at and within every "
                     "sector, and each single failing read of random images, asked through library, tool and daemon")
