"""Arbitrary pointer graphs and damaged images, given to every reader."""
import json, os, re, struct
import cli, core, fuse, gen, mkimg, pool_foreign, rawimg
from rawimg import MAGIC, SEC

NAMES = {2: b"bb", 4: b"dddd", 6: b"f", 8: b"hhhhhh"}      # names of ranks 2, 4, 6, 8
QUERY = {1: "a", 2: "BB", 3: "c", 4: "DddD", 5: "e", 6: "F", 7: "g", 8: "HHHhhh", 9: "i"}


def descriptor(sec, size):
    vd = bytearray(SEC)
    vd[:20] = MAGIC
    vd[20:28] = struct.pack("<II", sec, size)
    vd[-20:] = MAGIC
    return bytes(vd)


def dirent(l, r, sec, size, attr, name):
    return struct.pack("<HHIIBB", l & 0xffff, r & 0xffff, sec & 0xffffffff, size & 0xffffffff, attr, len(name)) + name


def entries_image(g, k):
    """Bytes of an image for an entry graph; k varies what the graph leaves open."""
    n = len(g["k"])
    offs, o = [], 0
    for s in range(n):
        offs.append(o)
        o += (14 + len(NAMES[g["k"][s]]) + 3) // 4 * 4
    size = SEC if k % 3 else (o + 16)
    none = 0xffff if k % 5 == 0 else 0

    def ptr(t):
        return none if t == 0 else 0xfffe if t == -1 else (o + 4) // 4 if t == -2 else offs[t - 1] // 4
    tab = b""
    for s in range(n):
        d = dirent(ptr(g["l"][s]), ptr(g["r"][s]), 34, 3, 0x20, NAMES[g["k"][s]])
        tab += d.ljust((len(d) + 3) // 4 * 4, b"\xff")
    tab = tab.ljust(SEC, b"\xff")
    puts = [[32 * SEC, descriptor(33, size).hex()], [33 * SEC, tab.hex()], [34 * SEC, b"xyz".hex()]]
    return dict(puts=puts, len=35 * SEC), offs


def single(v):
    if isinstance(v, dict):
        for k in ("panic", "hang", "abort"):
            if k in v:
                return k
        if "err" in v:
            return "err"
    return "ok"


def ask_batch(w, reqs):
    """Asks for many images at once; if that hangs or dies, one by one."""
    a = w.ask(dict(op="hostile", items=reqs), timeout=60)
    if "items" in a:
        return a["items"]
    out = []
    for q in reqs:
        b = w.ask(dict(op="hostile", items=[q]), timeout=10)
        out.append(b["items"][0] if "items" in b else {"all": core.outcome(b)})
    return out


def cyclic(g):
    def go(s, up):
        return any(t in up or go(t, up | {t}) for t in (g["l"][s - 1], g["r"][s - 1]) if t > 0)
    return go(1, {1})


def entries_batch(w, part):
    reqs, metas = [], []
    for k, g in part:
        im, offs = entries_image(g, k)
        qs = list(range(1, 2 * len(g["k"]) + 2))
        if cyclic(g):       # a search in a cycle takes a while to give up
            qs = [qs[k % len(qs)], qs[(k // 7) % len(qs)]] if k % 3 == 0 else []
        im.update(tree=True, checksum=True, walk=[""], scan=[""], lookups=[QUERY[q] for q in qs], repack=True, slice=k % 2 == 0)
        reqs.append(im)
        metas.append((g, offs, qs))
    out = []
    for a, (g, offs, qs) in zip(ask_batch(w, reqs), metas):
        pos = {33 * SEC + o: s + 1 for s, o in enumerate(offs)}

        def slots(v):
            return [pos.get(x["off"], 0) for x in v]
        e = dict(kind="entries", g=g)
        if "all" in a:
            e.update(wres=a["all"], ws=[], sres=a["all"], ss=[], tres=a["all"], ts=[], cres=a["all"], rres=a["all"], looks=[])
            out.append(e)
            continue
        wv, sv = a["walk"], a["scan"]
        wv = wv[0] if isinstance(wv, list) else wv
        sv = sv[0] if isinstance(sv, list) else sv
        tv = a["tree"]
        e.update(wres=single(wv), ws=slots(wv) if isinstance(wv, list) else [],
                 sres=single(sv), ss=slots(sv) if isinstance(sv, list) else [],
                 tres=single(tv), ts=slots(tv) if isinstance(tv, list) else [],
                 cres=single(a["checksum"]), rres=single(a["repack"]))
        lv = a["lookups"]
        if not isinstance(lv, list):
            lv = [lv] * len(qs)
        e["looks"] = [dict(q=q, res=single(x), s=pos.get(x["off"], 0) if single(x) == "ok" else 0) for q, x in zip(qs, lv)]
        out.append(e)
    return out


def dirs_image(G, k):
    puts = []
    sizes = [0 if not t and k % 2 else SEC for t in G]
    puts.append([32 * SEC, descriptor(33, SEC).hex()])
    names = [b"m", b"q"] if k % 3 else [b"m", b"Q-long"]
    for t, items in enumerate(G):
        tab = b""
        for j, it in enumerate(items):
            if it == "f":
                sec, size, attr = 40, 5, 0x20
            elif it == "e":
                sec, size, attr = 0, 0, 0x10
            elif it == "x":
                sec, size, attr = 0x7fffff + k, SEC, 0x10
            else:
                sec, size, attr = 33 + int(it) - 1, sizes[int(it) - 1], 0x10
                if size == 0:
                    sec = 0
            d = dirent(0, 5 if j == 0 and len(items) > 1 else 0, sec, size, attr, names[j])
            tab += d.ljust((len(d) + 3) // 4 * 4, b"\xff")
        if items:
            assert len(items) == 1 or len(dirent(0, 0, 0, 0, 0, names[0])) in range(13, 21)
        # the second entry starts at byte 16, so the right child offset is 4
        tab = bytearray(tab)
        if len(items) > 1:
            tab[2:4] = struct.pack("<H", 4)
        puts.append([(33 + t) * SEC, bytes(tab).ljust(SEC, b"\xff").hex()])
    puts.append([40 * SEC, b"hello".hex()])
    return dict(puts=puts, len=41 * SEC)


def save(im, path):
    with open(path, "wb") as f:
        f.truncate(im["len"])
        for o, hx in im["puts"]:
            f.seek(o)
            f.write(bytes.fromhex(hx))


def dirs_batch(w, part):
    reqs = []
    for k, G in part:
        im = dirs_image(G, k)
        im.update(tree=True, checksum=True, repack=True, slice=k % 2 == 1)
        reqs.append(im)
    out = []
    for a, (k, G), im in zip(ask_batch(w, reqs), part, reqs):
        e = dict(kind="dirs", d=G, n=0, cmds=[])
        if "all" in a:
            e.update(tres=a["all"], cres=a["all"], rres=a["all"])
        else:
            tv = a["tree"]
            e.update(tres=single(tv), n=len(tv) if isinstance(tv, list) else 0, cres=single(a["checksum"]), rres=single(a["repack"]))
        if "cli" in core.BIN and k % CLI_EVERY == 0:
            bx = cli.box()
            img = os.path.join(bx, "i.iso")
            save(im, img)
            r = gen.rng("dirscli", k)
            for c in r.sample(sorted(FULL), 3):
                e["cmds"].append(dict(c=c, res=run_cmd(bx, img, c, "/m")))
            cli.wipe(bx)
        out.append(e)
    return out


CLI_EVERY = 12

# commands that visit the whole image
FULL = {"tree": lambda i, o, p: ["tree", i], "md5": lambda i, o, p: ["md5", i], "checksum": lambda i, o, p: ["checksum", i],
        "unpack": lambda i, o, p: ["unpack", i, o], "copy-out": lambda i, o, p: ["copy-out", i, "/", o],
        "pack": lambda i, o, p: ["pack", i, o + ".iso"], "compress": lambda i, o, p: ["compress", i, o + ".cso"],
        "exx": lambda i, o, p: ["-d", o, "-x", i], "exr": lambda i, o, p: ["-r", i], "exl": lambda i, o, p: ["-l", i]}
PART = {"ls": lambda i, o, p: ["ls", i], "ls-s": lambda i, o, p: ["ls", "--scan", i], "lsp": lambda i, o, p: ["ls", i, p],
        "info": lambda i, o, p: ["info", i, "/"], "infop": lambda i, o, p: ["info", i, p], "info0": lambda i, o, p: ["info", i],
        "checksum-s": lambda i, o, p: ["checksum", "-s", i], "md5p": lambda i, o, p: ["md5", i, p],
        "copyp": lambda i, o, p: ["copy-out", i, p, o], "build": lambda i, o, p: ["build-image", i, o + ".iso", "-m", "*:/{0}"]}
ALL = dict(FULL, **PART)


def run_cmd(bx, img, c, p):
    o = os.path.join(bx, "o-" + c)
    x = cli.run(ALL[c](img, o, p), bx, argv0="extract-xiso" if c in ("exx", "exr", "exl") else "xdvdfs", timeout=20,
                fsize=64 << 20)
    if x.how == "ok" and len(x.out) > 4 << 20:
        return "flood"
    return x.how


# ---------------------------------------------------------------- anything

def hostile_bytes(r):
    """(bytes of an image, names to ask for)."""
    how = r.choice(["mutate", "mutate", "mutate", "graph", "graph", "noise", "fields"])
    names = []
    if how in ("mutate", "fields"):
        t = pool_foreign.some_tree(r, 0)
        opt = pool_foreign.some_options(r)
        opt["hi_sec"] = 0
        path, where = pool_foreign.make(r, t, opt)
        b = bytearray(open(path, "rb").read())
        core.drop(path)
        names = ["/".join(p) for p, e in t.nodes()]
        img_tabs = [(33, SEC)] + [(s, z) for s, z, d in where.values() if d and z]
        root = struct.unpack("<II", b[32 * SEC + 20:32 * SEC + 28])
        img_tabs.append(root)
        if how == "mutate":
            for _ in range(r.choice([1, 1, 2, 5, 20, 200])):
                s, z = r.choice(img_tabs)
                o = s * SEC + r.randrange(max(1, min(z, r.choice([16, 64, 256, 1 << 20]))))
                if o < len(b):
                    b[o] = r.choice([0, 1, 0xff, 0x10, 0x20, r.randrange(256)])
        else:
            # overwrite single fields of real entries with extreme values
            offs = []
            for s, z in img_tabs:
                o = s * SEC
                while o + 14 <= min(len(b), s * SEC + z) and b[o:o + 14] not in (b"\xff" * 14, b"\0" * 14) and len(offs) < 400:
                    offs.append((o, s))
                    o += (14 + b[o + 13] + 3) // 4 * 4
            for _ in range(r.choice([1, 2, 4])):
                if not offs:
                    break
                o, s = r.choice(offs)
                f = r.randrange(6)
                if f < 2:
                    tgt = r.choice(offs)
                    v = r.choice([(tgt[0] - s * SEC) // 4, 0xfffe, 1, 2, 0xffff, 0x7fff, 511, 512, 508])
                    struct.pack_into("<H", b, o + 2 * f, v & 0xffff)
                elif f == 2:
                    struct.pack_into("<I", b, o + 4, r.choice([0, 32, 33, 0xffffffff, 0x7fffffff, root[0], r.choice(img_tabs)[0], len(b) // SEC, 0x1fffff, 0x200000]))
                elif f == 3:
                    struct.pack_into("<I", b, o + 8, r.choice([0, 1, 13, 14, 15, 2047, 2049, 0xffffffff, 0x80000000, 0x7fffffff, 262144, 262145]))
                elif f == 4:
                    b[o + 12] = r.choice([0x10, 0x20, 0, 0xff, 0x30])
                else:
                    b[o + 13] = r.choice([0, 1, 254, 255, r.randrange(256)])
            if r.random() < 0.3:
                struct.pack_into("<I", b, 32 * SEC + r.choice([20, 24]), r.choice([0, 1, 32, 0xffffffff, 0x7fffffff, 13, 14, 15, len(b) // SEC, len(b) // SEC - 1]))
        if r.random() < 0.3:
            del b[r.randrange(33 * SEC, max(33 * SEC + 1, len(b))):]
        return bytes(b), names
    tabs = r.choice([1, 2, 3, 5])
    secs = r.choice([1, 1, 2, 4])
    b = bytearray(r.choice([b"\0", b"\xff"])) * ((33 + tabs * secs + 4) * SEC)
    b[32 * SEC:33 * SEC] = descriptor(33 + r.randrange(tabs) * secs, r.choice([secs * SEC, secs * SEC, SEC, 100, 1 << 18, 0xffffffff]))
    for t in range(tabs):
        base = (33 + t * secs) * SEC
        if how == "noise":
            k = r.choice([100, 2048, secs * SEC])
            b[base:base + k] = r.randbytes(k) if r.random() < 0.5 else bytes(r.choice([0, 1, 2, 3, 16, 32, 255]) for _ in range(k))
            continue
        o = 0
        offs = []
        ents = []
        while o < secs * SEC - 300 and len(offs) < r.choice([3, 10, 60]):
            nm = bytes(r.choice(b"abAB_\xe9/.") for _ in range(r.choice([0, 1, 1, 2, 3, 60, 255])))
            if o % SEC + 14 + len(nm) > SEC and r.random() < 0.9:
                o = (o + SEC - 1) // SEC * SEC
                continue
            offs.append(o)
            ents.append(nm)
            o += (14 + len(nm) + 3) // 4 * 4
        for j, (o, nm) in enumerate(zip(offs, ents)):
            # mostly forward pointers (so that something is reachable), some arbitrary
            def ptr():
                x = r.random()
                if x < 0.35:
                    return 0
                if x < 0.4:
                    return 0xffff
                if x < 0.9 and j + 1 < len(offs):
                    return r.choice(offs[j + 1:]) // 4
                return r.choice(offs) // 4 if x < 0.96 else r.randrange(1 << 16)
            isd = r.random() < 0.4
            sec = 33 + r.randrange(tabs) * secs + (r.randrange(secs) if r.random() < 0.1 else 0) if isd else r.randrange(len(b) // SEC + 2)
            size = r.choice([secs * SEC, SEC, 0]) if isd else r.choice([0, 1, 100, SEC, 5000])
            d = dirent(ptr(), ptr(), sec, size, 0x10 if isd else 0x20, nm)
            b[base + o:base + o + len(d)] = d
            names.append(nm.decode("cp1252x"))
    return bytes(b), names


def sound(b, l):
    for x in l:
        o = x["off"]
        if o + 14 > len(b):
            return False
        _, _, sec, size, attr, n = struct.unpack("<HHIIBB", b[o:o + 14])
        if (sec, size, attr) != (x["sector"], x["size"], x["attr"]) or bytes(x["raw"]) != b[o + 14:o + 14 + n]:
            return False
    return True


def any_image(w, k):
    r = gen.rng("hostile", k)
    b, names = hostile_bytes(r)
    path = core.tmp(".img")
    open(path, "wb").write(b)
    qs = [n.encode("utf-8", "surrogatepass").decode("utf-8", "replace") for n in r.sample(names, min(8, len(names)))]
    qs += ["a", "/", "//", "", "a/b/c", "zz", "a//b"]
    rq = [dict(p=q, how=h_, off=o, size=z) for q in qs[:4] for h_, o, z in (("all", 0, 0), ("at", 0, 10), ("at", 1 << 32, 5), ("buf", 0, 1))]
    q = dict(file=path, tree=True, checksum=True, walk=[""], scan=[""], lookups=qs, repack=True, rootdirent=True, reads=rq,
             slice=k % 2 == 0)
    a = w.ask(dict(op="hostile", items=[q]), timeout=20)
    e = dict(kind="any", sound=True, outs=[])
    if "items" not in a:
        e["outs"].append(dict(c="library", res=core.outcome(a)))
    else:
        a = a["items"][0]
        for c, v in a.items():
            e["outs"].append(dict(c=c, res=single(v)))
            if c in ("walk", "scan") and isinstance(v, list):
                v = v[0]
                e["outs"].append(dict(c=c, res=single(v)))
            if c in ("walk", "scan", "tree") and isinstance(v, list):
                e["sound"] = e["sound"] and sound(b, v)
    if "cli" in core.BIN and k % 4 == 0:
        bx = cli.box()
        img = os.path.join(bx, "i.iso")
        p = "/" + (r.choice(names) if names else "a").replace("\0", "x")
        for c in r.sample(sorted(ALL), 4):
            if not os.path.exists(img):
                os.link(path, img) if c != "exr" else open(img, "wb").write(b)
            e["outs"].append(dict(c=c, res=run_cmd(bx, img, c, p)))
            if c == "exr":
                break
        cli.wipe(bx)
    if "fsd" in core.BIN and k % 8 == 1:
        e["outs"].append(dict(c="daemon", res=daemon(path, r)))
    core.drop(path)
    return e


def daemon(path, r):
    d = fuse.Daemon(path, timeout=15)
    try:
        if not d.up:
            return "err" if d.dead.how == "exit" and d.dead.rc == 1 else "panic"
        try:
            todo, seen = [1], 0
            while todo and seen < 12:
                ino = todo.pop()
                seen += 1
                off, pages = 0, 0
                while pages < 50:
                    pages += 1
                    e, l = d.readdir(ino, off, 4096)
                    if e or not l:
                        break
                    off = l[-1][1]
                    for x in l[2:8]:
                        todo.append(x[0])
                        d.lookup(ino, x[2])
                d.getattr(ino)
                d.read(ino, 0, 100)
                d.lookup(ino, b"nothing")
            return "ok"
        except fuse.Dead:
            return "panic" if d.p.poll() is not None else "hang"
    finally:
        d.close()


def scen(r):
    sc = [json.loads(json.loads(x)[5:]) for x in re.findall(r'^"SCEN .*"$', r.out, re.M)]
    if len(sc) != r.out.count("SCEN ") or not sc:
        raise core.ToolError("cannot read scenarios")
    return sc


def tree_like(g):
    """Nothing reached twice, nothing outside."""
    seen, todo = set(), [1]
    while todo:
        s = todo.pop()
        if s in seen or s == -1:
            return False
        if s < 1:
            continue
        seen.add(s)
        todo += [t for t in (g["l"][s - 1], g["r"][s - 1]) if t]
    return True


def graphs(rep, thorough, keep=lambda g: True):
    """Every small pointer graph, as enumerated by TLC."""
    a = core.model_check("MC_Entries", workers=6)
    rep.model("MC_Entries", a, "3 entries, two key orders, all left (5) and right (4) targets, all searched keys")
    gs = [x for x in enumerate(scen(a)) if keep(x[1])]
    if thorough:
        b = core.model_check("MC_Entries", cfg="MC_Entries_t.cfg", workers=8, timeout=3000, heap="12g")
        rep.model("MC_Entries_t", b, "4 entries")
        r = gen.rng("entries4")
        for k in range(60000):
            n = r.choice([4, 4, 3])
            ks = r.sample([2, 4, 6, 8], n)
            gs.append((100000 + k, dict(k=ks, l=[r.choice([0, 0, 2, 3, n, -1, -2]) for _ in range(n)],
                                        r=[r.choice([0, 0, 2, 3, n, -1]) for _ in range(n)])))
        gs = [x for x in gs if keep(x[1])]
    parts = [gs[j:j + 100] for j in range(0, len(gs), 100)]
    ev = [e for p in core.parallel(entries_batch, parts, mem=6 << 30) for e in p]
    core.log("entry graphs read", len(ev))
    return ev, ["graph-entries"] * len(ev)


def shapes(rep, thorough):
    """Only the graphs that are trees: every reader has to agree on them (C04)."""
    ev, tags = graphs(rep, thorough, tree_like)
    rep.judged("JHostile", ev, core.judge("JHostile", ev, shards=7), tags)
    rep.rules.append("every tree-shaped pointer graph among three entries (enumerated by TLC)")


def run(rep, thorough):
    ev, tags = graphs(rep, thorough)
    d = core.model_check("MC_Dirs", cfg="MC_Dirs_t.cfg" if thorough else None, workers=6)
    rep.model("MC_Dirs", d, "three directories of up to two items each")
    ds = list(enumerate(scen(d)))
    parts = [ds[j:j + 60] for j in range(0, len(ds), 60)]
    de = [e for p in core.parallel(dirs_batch, parts, mem=6 << 30) for e in p]
    ev += de
    tags += ["graph-dirs"] * len(de)
    core.log("directory graphs read", len(de))
    n = 1200 if not thorough else 30000
    he = core.parallel(any_image, range(n), mem=6 << 30)
    ev += he
    tags += ["damaged"] * n
    core.log("damaged images read", n)
    v = core.judge("JHostile", ev, shards=7)
    core.log("judged", len(ev))
    rep.judged("JHostile", ev, v, tags)
    rep.rules.append("every pointer graph of three entries and of three directories (enumerated by TLC), random graphs, and "
                     "damaged well-formed images, given to every reader, the command line tool and the daemon")
