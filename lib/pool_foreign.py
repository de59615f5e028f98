"""Well-formed images this packer would never write, read back through every reader and device."""
import os
import core, gen, mkimg, obs, rawimg
from rawimg import SEC, h

OFFSETS = [0, 405798912, 265879552, 34078720]
DEVS = ["file", "buf", "slice", "dyn", "offset"]
# names real images hold: no control characters, and bytes whose decoding nobody disputes
ALPHA = [c for c in gen.SAFE if ord(c) < 127 or ord(c) >= 0xa0] + ["€", "™", "œ"]
ALPHA_HOST = [c for c in ALPHA if c != "/"]


def long_name(r):
    """Close to the limit on disk, and well past 255 bytes in UTF-8."""
    return gen.name(r, ln=r.choice([86, 128, 200, 254, 255]), alphabet=r.choice([["é", "ü", "x"], ["€", "™"], ["ÿ", "a", "B", "œ"]]))


def some_name(r):
    return gen.name(r, alphabet=r.choice([list("abAB_"), [c for c in gen.TRICKY if c != "/"], ALPHA,
                                         list("abcdefghijklmnopqrstuvwxyz0123456789.")]))


def some_tree(r, k):
    n = r.choice([0, 1, 2, 3, 5, 8, 12, 20, 40, 80])
    longs = r.choice([0] * 9 + [0.5])
    t = gen.Tree()
    ps = [()]
    for _ in range(n):
        p = r.choice(ps) if r.random() < 0.6 else ()
        nm = long_name(r) if r.random() < longs else some_name(r)
        isd = r.random() < 0.3 and len(p) < 6
        if t.add(p, nm, isd, 0 if isd else gen.size(r, r.random() < 0.8), r=r) and isd:
            ps.append(p + (nm,))
    return t


def some_options(r):
    return dict(shape=r.choice(["random", "left", "right", "balanced"]), none=r.choice([0, 0, 0xffff]),
                fill=r.choice([0xff, 0xff, 0]), gap=r.choice([0, 0, 3, 40]), order=r.choice(["random", "sorted", "tight"]),
                round_dirs=r.random() < 0.6, empty=r.choice(["zero", "zero", "blank", "rootzero"]),
                place=r.choice(["shuffle", "shuffle", "linear"]), filetime=r.randrange(1 << 60),
                hi_sec=r.choice([0, 0, 0, 0, 0x100000, 0x200000, 3000000]), skip=r.choice([0, 0, 0.1, 0.5]))


def read_plan(r, files, count):
    """Reads of files: whole, ranges at every boundary, prefixes."""
    qs = []
    for p, e in files:
        n = e["len"]
        s = "/".join(obs.rcase(r, c) for c in p)
        qs.append(dict(p=s, how="all", key=p))
        cand = sorted({0, 1, n - 1, n, n + 1, n // 2, 2047, 2048, 2049, n - 2048, 1 << 32, (1 << 32) + 5, 1 << 63, (1 << 64) - 1} & set(range(0, n + 2)) |
                      {n, n + 1, n + 2048, 1 << 32, (1 << 63) + 7})
        for o in r.sample(cand, min(3, len(cand))):
            z = r.choice([0, 1, 2047, 2048, 2049, max(0, n - o), max(0, n - o) + 1, n, 1 << 20, (1 << 32) - 1, 1 << 40])
            qs.append(dict(p=s, how="at", off=o, size=z, key=p))
        qs.append(dict(p=s, how="buf", size=r.choice([n, n // 2, min(1, n)]), key=p))
    if len(qs) > count:
        qs = r.sample(qs, count)
    return qs


def clampi(v):
    return max(-(1 << 29), min(1 << 29, v))


def read_events(answers, qs, byp, where, imglen):
    out = []
    for a, q in zip(answers, qs):
        e = byp[q["key"]]
        n = e["len"]
        sec = where[q["key"]][0]
        avail = max(0, min(n, imglen - sec * SEC)) if n else 0
        off, size = q.get("off", 0), q.get("size", 0)
        z = dict(how=q["how"], off=0, size=clampi(size), fsz=clampi(n - off), avail=clampi(avail - off), res="ok", n=0, eq=False)
        if "err" in a or "lookup" in a:
            z["res"] = "err" if "err" in a else "nolookup"
        else:
            z["n"] = clampi(a["n"])
            want = gen.content(e)[off:off + a["n"]] if off <= n else b""
            z["eq"] = len(want) == a["n"] and h(want) == a["h"]
        out.append(z)
    return out


def make(r, t, opt, base=0, cut=None, attrs=True):
    path = core.tmp(".img")
    where = mkimg.build(path, t.ents(r, attrs=attrs), r, base=base, **opt)
    if cut is not None:
        os.truncate(path, cut(os.path.getsize(path)))
    return path, where


def observe(w, item):
    tag, seed, t, opt, base, dev, trunc = item
    r = gen.rng("foreign", tag, seed)
    path, where = make(r, t, opt, base)
    img = rawimg.parse(path, base)
    if img["bad"]:
        raise core.ToolError("our own image is malformed: " + img["bad"])
    where = {tuple(k): v for k, v in where.items()}
    byp = {p: e for p, e in t.nodes()}
    has, f = [], {}
    f["img"] = img
    if not trunc:
        n = sum(len(x["slots"]) for x in img["tabs"])
        g, has, _ = obs.read_image(w, path, img, r, dev=dev, looks=14 if n < 200 else 30)
        f.update(g)
    files = [(p, e) for p, e in t.files()]
    if trunc and files:
        # the image ends inside or just at the end of some file's data; tables stay intact
        last_tab = max([33] + [x["sec"] + (x["size"] + SEC - 1) // SEC for x in img["tabs"]]) * SEC
        ends = []
        for p, e in files:
            s = where[p][0] * SEC
            ends += [s, s + 1, s + e["len"] - 1, s + e["len"], s + e["len"] + 1]
        ends = [x for x in ends if x >= last_tab]
        if ends:
            os.truncate(path, base + r.choice(ends))
    imglen = os.path.getsize(path) - base
    qs = read_plan(r, files if len(files) <= 12 else r.sample(files, 12), 40)
    if qs:
        a = w.ask(dict(op="read", img=path, dev=dev, reads=[{k: v for k, v in q.items() if k != "key"} for q in qs]), timeout=120)
        if core.outcome(a) == "ok":
            f["reads"] = read_events(a["reads"], qs, byp, where, imglen)
        else:
            f["reads"] = [dict(how="all", off=0, size=0, fsz=0, avail=0, res=core.outcome(a), n=0, eq=False)]
        has.append("reads")
        if dev == "offset":
            ps = [(p, e) for p, e in files if e["len"]][:6]
            a = w.ask(dict(op="seek", img=path, paths=["/".join(p) for p, e in ps]))
            for (p, e), x in zip(ps, a.get("seeks", [{"err": 1}] * len(ps))):
                avail = max(0, min(e["len"], imglen - where[p][0] * SEC))
                f["reads"].append(dict(how="seek", off=0, size=0, fsz=e["len"], avail=avail, res="err" if "err" in x else "ok",
                                       n=x.get("n", 0), eq=x.get("h") == h(gen.content(e))))
    core.drop(path)
    return obs.event(has=has, **f)


def huge(w, k):
    """Files of up to 4 GiB, far behind in the image, with marks at the places where arithmetic goes wrong."""
    r = gen.rng("foreignhuge", k)
    t = gen.Tree()
    G = 1 << 30
    for j, n in enumerate(r.sample([4 * G - 1, 4 * G - 2048, 2 * G - 1, 2 * G, 2 * G + 1, 3 * G + 5, 4 * G - 100], r.choice([1, 2, 3]))):
        t.add((), "h%d" % j, False, n, off=0, mark=r.randbytes(16).hex())
    t.add((), "small", False, 5000, r=r)
    dev = r.choice(["file", "buf", "dyn", "offset"])
    base = r.choice(OFFSETS) if dev == "offset" else 0
    path, where = make(r, t, dict(some_options(r), hi_sec=r.choice([0, 0x100000, 0x200000, 0x280000])), base)
    img = rawimg.parse(path, base)
    where = {tuple(q): v for q, v in where.items()}
    qs = []
    cut = None
    with open(path, "r+b") as f:
        for p, e in t.files():
            n, pos = e["len"], base + where[p][0] * SEC
            offs = sorted({0, 1, 2047, 2048, n - 1, n - 2048, n - 3000, n, n // 2} | {x + d for x in (G, 2 * G, 3 * G, 1 << 32) for d in (-1, 0, 1, -2048, 7)})
            offs = [o for o in offs if o <= n]
            for o in offs:
                f.seek(pos + o)
                f.write(r.randbytes(min(5, n - o)))
            for o in r.sample(offs, min(8, len(offs))) + [n + 1, 1 << 32, (1 << 32) + 1]:
                qs.append((p, o, r.choice([1, 16, 2048, 5000, 70000, 1 << 20] + ([n - o, n - o + 1, (1 << 32) - 1, 1 << 40] if n - o < 1 << 20 else []))))
            qs.append((p, None, r.choice([1, 16, 3000])))
        if k % 4 == 3:
            # the image ends inside the last file
            p, e = max(t.files(), key=lambda x: where[x[0]][0])
            cut = base + where[p][0] * SEC + r.choice([1, e["len"] // 2, e["len"] - 1, min(e["len"], 2 * G + 3)])
            if cut > base + SEC * max([33] + [x["sec"] + (x["size"] + SEC - 1) // SEC for x in img["tabs"]]):
                f.truncate(cut)
        end = f.seek(0, 2)
        a = w.ask(dict(op="read", img=path, dev=dev, reads=[dict(p="/".join(p), how="buf", size=z) if o is None else
                                                            dict(p="/".join(p), how="at", off=o, size=z) for p, o, z in qs]), timeout=200)
        res = core.outcome(a)
        reads = []
        lens = {p: e["len"] for p, e in t.files()}
        for j, (p, o, z) in enumerate(qs):
            n, pos, off = lens[p], base + where[p][0] * SEC, o or 0
            ev = dict(how="at" if o is not None else "buf", off=0, size=clampi(z), fsz=clampi(n - off), avail=clampi(min(n, max(0, end - pos)) - off), res=res, n=0, eq=False)
            if res == "ok":
                x = a["reads"][j]
                if "err" in x or "lookup" in x:
                    ev["res"] = "err" if "err" in x else "nolookup"
                else:
                    f.seek(pos + off)
                    want = f.read(max(0, min(z, n - off)))
                    ev.update(n=clampi(x["n"]), eq=x["n"] == len(want) and x["h"] == h(want))
            reads.append(ev)
    core.drop(path)
    return obs.event(has=["reads"], reads=reads, img=dict(img, tabs=[]))


def scenarios(thorough, count=None):
    out = []
    n = count or (240 if not thorough else 4000)
    for k in range(n):
        r = gen.rng("foreignsc", k)
        opt = some_options(r)
        base = 0
        dev = r.choice(DEVS)
        if r.random() < 0.3:
            dev, base = "offset", r.choice(OFFSETS)
        if dev == "slice":
            opt["hi_sec"] = 0
        out.append(("foreign-%s" % dev, k, some_tree(r, k), opt, base, dev, r.random() < 0.25))
    # sectors filled to the last byte, by names of every length
    for k in range(24 if not thorough else 300):
        r = gen.rng("foreigntight", k)
        t = gen.Tree()
        for j in range(r.choice([60, 100, 160])):
            ln = r.choice([1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 10, 14, 18, 22, 30])
            t.add((), "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789_.") for _ in range(ln)), j % 20 == 3,
                  0 if j % 20 == 3 else j % 3, off=j)
        out.append(("foreign-tight", k, t, dict(some_options(r), order="tight", skip=0, hi_sec=0), 0, r.choice(DEVS), False))
    # few names, repeated at every level
    for k in range(24 if not thorough else 300):
        r = gen.rng("foreignsame", k)
        t = gen.Tree()
        ps = [()]
        names = r.choice([["a"], ["a", "A b"], ["a", "aa", "aaa"], ["x", "y"], ["data", "Data.x", "DATA_"]])
        for j in range(r.choice([8, 30])):
            p = r.choice(ps[-3:])
            nm = r.choice(names)
            isd = r.random() < 0.75 and len(p) < 12
            if t.add(p, nm, isd, 0 if isd else gen.size(r, True), r=r) and isd:
                ps.append(p + (nm,))
        out.append(("foreign-same", k, t, dict(some_options(r), hi_sec=0), 0, r.choice(DEVS), False))
    # chains as deep as a directory allows, in every shape
    for k, (shape, nn) in enumerate([("left", 300), ("right", 300), ("random", 900), ("balanced", 1500)]):
        r = gen.rng("foreignwide", k)
        t = gen.Tree()
        for j in range(nn):
            t.add((), "%04x%s" % (j, "w" * (j % 40)), j % 50 == 3, 0 if j % 50 == 3 else j % 3, off=j)
        t.shuffle(r)
        out.append(("foreign-wide-" + shape, k, t, dict(some_options(r), shape=shape, hi_sec=0, gap=0), 0, "buf", False))
    return out


def families(rep, thorough, count=None, hugefiles=False):
    items = scenarios(thorough, count)
    ev = core.parallel(observe, items)
    if hugefiles:
        n = 24 if not thorough else 200
        ev += core.parallel(huge, range(n))
        items += [("foreign-huge", k, gen.Tree(), {}, 0, "") for k in range(n)]
    core.log("foreign images read", len(ev))
    v = core.judge("JImage", ev)
    core.log("judged", len(ev))
    rep.judged("JImage", ev, v, [x[0] for x in items],
               info=lambda i: dict(family=items[i][0], seed=items[i][1], tree=items[i][2].harness(), options=items[i][3],
                                   base=items[i][4], dev=items[i][5]))
    rep.rules.append("well-formed images of random shape, placement, fill, attributes and partition offset, built by an "
                     "independent writer, read through every reader and device; expected values from the parsed bytes")
