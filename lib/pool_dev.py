"""Block devices: modelled and random operation sequences on each, and images packed to all of them by both builds."""
import hashlib, os
import cli, core, gen, mkimg, pool_foreign
from rawimg import pair

K = 300
BASES = [0, (1 << 32) - 120, 5 << 30, (1 << 64) - K]
FAR = [1 << 28, 0]
DEVS = ["slice", "box", "file", "buf", "dyn", "wfile"]


def rle(d):
    return [b for b, n in d for _ in range(n)]


_vol = None


def volume():
    """A small image inside a larger one, for the offset device."""
    global _vol
    if _vol is None:
        t = gen.Tree()
        t.add((), "f", False, 3000, off=77)
        p = core.tmp(".iso")
        mkimg.build(p, t.ents(), gen.rng("devvol"))
        _vol = open(p, "rb").read()
        core.drop(p)
    return _vol


def bases(dev):
    return BASES[:3] if dev == "wfile" else BASES


def ops_for(r, dev, cap):
    n = r.choice([2, 3, 5, 8, 12, 20])
    out = []
    for k in range(n):
        w = r.choice([0, 0, 0, 0, 0, 1, 2, 3])
        if w >= len(bases(dev)):
            w = 0
        size = r.choice([0, 1, 1, 2, 3, 7, 16, 17, 50, 100])
        if dev in ("slice", "box"):
            o = r.choice([0, 1, r.randrange(0, 200), max(0, cap - size), max(0, cap - size + 1), max(0, cap - size - 1), cap, cap + 1])
        else:
            o = r.choice([0, 1, 50, 99, 100, r.randrange(0, 200)])
        o = min(o, K - size)
        if w == 3:
            o = min(o, K - 1 - size)
        kinds = "wwwl" if dev == "buf" else "wwwrrl"
        kd = r.choice(kinds)
        if kd == "l":
            w, o, size = 0, 0, 0
        out.append(dict(k=kd, w=w + 1, o=o, n=size, b=k % 250 + 1))
    return out


def observe(w, item):
    tag, k, dev, cap, ops = item
    sc = core.tmp(".dev")
    off = 0
    init = [[0] * K for _ in bases(dev)]
    length = 0
    fixed = dev in ("slice", "box")
    if fixed:
        length = cap
    if dev == "wfile":
        off = gen.rng("wfile", tag, k).choice([0, 34078720, 265879552, 405798912])
        with open(sc, "wb") as f:
            f.seek(off)
            f.write(volume())
        length = len(volume())
        init[0] = list(volume()[:K])
    req = dict(op="dev", dev=dev, cap=cap, scratch=sc,
               ops=[dict(k=o["k"], at=bases(dev)[o["w"] - 1] + o["o"], n=o["n"], b=o["b"]) for o in ops])
    a = w.ask(req)
    res = core.outcome(a)
    rs = []
    for j, o in enumerate(ops):
        x = dict(res=res, data=[], len=[-1, 0])
        if res == "ok":
            y = a["results"][j]
            x["res"] = "err" if "err" in y else "ok"
            if x["res"] == "ok" and o["k"] == "r":
                x["data"] = rle(y["data"])
            if x["res"] == "ok" and o["k"] == "l":
                x["len"] = pair(min(y["len"], 1 << 48))
        rs.append(x)
    e = dict(kind="ops", dev=dict(fixed=fixed, len=pair(length), base=[pair(b) if b < 1 << 60 else FAR for b in bases(dev)], win=init),
             ops=ops, results=rs, hasend=not fixed and res == "ok", end=[], endlen=[0, 0], device=dev, cap=min(cap, 1 << 20))
    if e["hasend"]:
        with open(sc, "rb") as f:
            f.seek(0, 2)
            e["endlen"] = pair(f.tell() - off)
            for b in bases(dev):
                d = b""
                if b < 1 << 60:
                    f.seek(b + off)
                    d = f.read(K)
                e["end"].append(list(d.ljust(K, b"\0")))
    core.drop(sc)
    return e


def sectors(w, item):
    tag, k, ops = item
    a = w.ask(dict(op="dev", dev="linear", ops=[dict(k=o["k"], at=o["s"] * 2048, n=o["n"], b=o["b"]) for o in ops]))
    res = core.outcome(a)
    rs = []
    for j, o in enumerate(ops):
        x = dict(res=res, sec=[-1, 0], secs=-1)
        if res == "ok":
            y = a["results"][j]
            x["res"] = "err" if "err" in y else "ok"
            if x["res"] == "ok" and o["k"] == "r":
                d = y["data"]
                if len(d) == 1:
                    x["sec"] = d[0]
                elif len(d) == 2 and d[1][0] == 0 and d[0][1] + d[1][1] == 2048:
                    x["sec"] = d[0]
            if x["res"] == "ok" and o["k"] == "l":
                x["secs"] = y["len"] // 2048 if y["len"] % 2048 == 0 else -2
        rs.append(x)
    return dict(kind="sectors", ops=ops, results=rs)


def sector_ops(r):
    free = list(range(0, 60))
    used = set()
    out = []
    for k in range(r.choice([1, 3, 6, 10])):
        n = r.choice([0, 1, 5, 2047, 2048, 2049, 4096, 5000, 8191, 8192])
        span = (n + 2047) // 2048
        s = r.randrange(0, 50)
        if any(x in used for x in range(s, s + span)):
            continue
        used |= set(range(s, s + span))
        out.append(dict(k="w", s=s, n=n, b=k % 250 + 1))
        if r.random() < 0.4:
            out.append(dict(k="l", s=0, n=0, b=0))
    for s in range(0, 60):
        if s in used or r.random() < 0.1:
            out.append(dict(k="r", s=s, n=0, b=0))
    out.append(dict(k="l", s=0, n=0, b=0))
    return out


# ---------------------------------------------------------------- images

def digest(p, strip=True):
    """(sha of the contents without trailing zeros, length)"""
    with open(p, "rb") as f:
        d = f.read()
    return hashlib.sha3_256(d.rstrip(b"\0") if strip else d).hexdigest()[:24], pair(len(d))


def image_reqs(r, item):
    tag, k, src, n = item
    reqs = [dict(dev="file"), dict(dev="log"), dict(dev="linear")]
    reqs += [dict(dev="buf", bufcap=c) for c in r.sample([1, 13, 100, 2047, 2048, 2049, 5000, 65536, 1 << 20], 3)]
    reqs += [dict(dev="box", boxlen=(n // 65536 + r.choice([0, 1, 7])) * 65536)]
    if n > 65536 * 2:
        reqs += [dict(dev="box", boxlen=r.choice([n - 65536, (n // 131072) * 65536]), small=True)]
    reqs += [dict(dev="box", boxlen=32 * 2048, small=True)]
    return reqs


def pack(w, src, q, out):
    a = w.ask(dict(dict(op="pack", out=out, **src), **{k: v for k, v in q.items() if k != "small"}), timeout=120)
    res = core.outcome(a)
    x = dict(dev=q["dev"], res=res, small=q.get("small", False), fixed=q["dev"] == "box", hz="", len=[0, 0])
    if res == "ok":
        x["hz"], x["len"] = digest(out)
    core.drop(out)
    return x


def images(which):
    def f(w, item):
        tag, k, src, n = item
        r = gen.rng("devimg", tag, k)
        return [dict(pack(w, src, q, core.tmp(".img")), build=which) for q in image_reqs(r, item)]
    return f


def image_items(thorough):
    r = gen.rng("devimages")
    items = []
    trees = [("sizes", t) for _, t in gen.fam_sizes(r)[:4]] + [("names", t) for _, t in gen.fam_names()[:3]]
    trees += [("random", gen.random_tree(gen.rng("devtree", k))) for k in range(120 if thorough else 25)]
    trees += [("depth", t) for _, t in gen.fam_depth(r)[1:]] + [("boundary", t) for _, t in gen.fam_boundaries(r, 20 if thorough else 5)]
    for k, (tag, t) in enumerate(trees):
        items.append(("mem-" + tag, k, dict(src="mem", tree=t.harness())))
    for k in range(40 if thorough else 10):
        q = gen.rng("devstd", k)
        t = gen.random_tree(q, host=True, alphabet=list("abcdefgxyz0123.- _"))
        for j in range(3):
            t.add((), "big%d" % j, False, q.choice([65536, 65537, 200000, 1 << 20, (1 << 20) + 1, 2500000]), r=q)
        d = cli.box()
        t.write_dir(d)
        items.append(("std", k, dict(src="std", root=d)))
    for k in range(40 if thorough else 10):
        q = gen.rng("devimgsrc", k)
        t = gen.random_tree(q)
        p, _ = pool_foreign.make(q, t, {}, 0)
        items.append(("img", k, dict(src="img", img=p, copier=q.choice(["default", "odefault"]))))
    return items


def run(rep, thorough):
    m = core.model_check("MC_Dev", "MC_Dev_t.cfg" if thorough else None, workers=6)
    rep.model("MC_Dev", m, "every sequence of %d operations on a buffered file, buffers of 1, 2 and 4 bytes" % (5 if thorough else 3))
    core.refute("MC_Dev", "MC_Dev_x.cfg")
    core.refute("MC_Dev", "MC_Dev_y.cfg")
    sc = core.scenarios(m)
    r = gen.rng("dev")
    items = []
    pick = sc if len(sc) < 1500 else r.sample(sc, 20000 if thorough else 700)
    for k, s in enumerate(pick):
        ops = [dict(k=o["k"], w=1, o=o["o"], n=o["n"], b=j + 1) for j, o in enumerate(s["ops"])]
        items.append(("model", k, "buf", s["cap"], ops))
    for k in range(6000 if thorough else 900):
        q = gen.rng("devops", k)
        dev = DEVS[k % len(DEVS)]
        cap = q.choice([1, 2, 16, 100, 137, 200]) if dev != "buf" else q.choice([1, 2, 16, 50, 8192])
        items.append(("random-" + dev, k, dev, cap, ops_for(q, dev, cap)))
    for build in ("harness", "sync"):
        some = items if build == "harness" else items[::3]
        ev = core.parallel(observe, some, which=build)
        core.log(build, "devices", len(ev))
        rep.judged("JDev", ev, core.judge("JDev", ev), ["%s/%s" % (x[0], build) for x in some], info=lambda i: dict(device=some[i][2], cap=some[i][3]))
        sec = [("sectors", k, sector_ops(gen.rng("sectors", k))) for k in range(400 if thorough else 60)]
        ev = core.parallel(sectors, sec, which=build)
        rep.judged("JDev", ev, core.judge("JDev", ev), ["sectors/" + build for _ in sec])
    # images: how long they are is what the recording device says
    base = image_items(thorough)

    def size(w, it):
        out = core.tmp(".img")
        a = w.ask(dict(op="pack", out=out, dev="log", **it[2]), timeout=120)
        n = os.path.getsize(out) if core.outcome(a) == "ok" else 1 << 20
        core.drop(out)
        return it + (n,)
    base = core.parallel(size, base)
    a = core.parallel(images("async"), base)
    b = core.parallel(images("sync"), base, which="sync")
    # directories again, with the n-th read cut short
    std = [x for x in base if x[0] == "std"]

    def short(it):
        q = gen.rng("short", it[1])
        out = []
        for at in q.sample(range(2, 24), 6 if thorough else 3):
            d = it[2]["root"]
            w = core.Worker(env=dict(LD_PRELOAD=core.BIN["fault"], VF_DIR=d, VF_KIND="r", VF_MODE="short", VF_AT=str(at)))
            for dev in (["box", "file", "linear"] if thorough else [q.choice(["box", "box", "file", "linear"])]):
                out.append(dict(pack(w, it[2], dict(dev=dev, boxlen=it[3] // 65536 * 65536 + 65536), core.tmp(".img")), build="short"))
            w.close()
        return out
    c = dict(zip([x[1] for x in std], core.threads(short, std)))
    ev = []
    for it, x, y in zip(base, a, b):
        z = c.get(it[1], []) if it[0] == "std" else []
        ev.append(dict(kind="images", runs=x + y + z))
    core.log("images", len(ev), "runs", sum(len(e["runs"]) for e in ev))
    rep.judged("JDev", ev, core.judge("JDev", ev), ["images-" + x[0] for x in base],
               info=lambda i: dict(runs=[(x["dev"], x["build"], x["res"]) for x in ev[i]["runs"]]))
    rep.rules.append("an event is one operation sequence on one device with all results and the final contents, or one source packed to every device by both builds")
