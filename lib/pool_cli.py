"""What the command line prints: reading commands against the image, packing progress against the result."""
import hashlib, os, re
import cli, core, cso, gen, mkimg, obs, pool_checksum, pool_foreign, rawimg
from rawimg import SEC, BIG, cps, pair

BLANK = dict(k="", whole=False, q=[], res="ok", names=[], lines=[], cnt=0, tot=[0, 0], vol=dict(valid=False, ft="", sec=0, sz=0),
             ent=[], kids=[], sums=[], n=0, bad=False)


class Garbled(Exception):
    pass


def text(b):
    try:
        s = b.decode("utf-8")
    except UnicodeDecodeError:
        raise Garbled("not UTF-8")
    if s and not s.endswith("\n"):
        raise Garbled("no end of line")
    return s.split("\n")[:-1]


def match(rx, line):
    m = re.fullmatch(rx, line, re.S)
    if not m:
        raise Garbled(line[:100])
    return m.groups()


def comps(s):
    return [cps(x) for x in s.split("/") if x]


def clampsec(s):
    return min(int(s), 1 << 29)


def p_ls(o, e):
    e["names"] = [cps(x) for x in text(o)]


def p_tree(o, e):
    ls = text(o)
    if not ls:
        raise Garbled("empty")
    for x in ls[:-1]:
        p, z = match(r"(.*) \((\d+) bytes\)", x)
        e["lines"].append(dict(p=comps(p), d=p.endswith("/"), sz=pair(int(z)), m=""))
    c, z, _ = match(r"(\d+) files, (\d+) bytes in (.*)", ls[-1])
    e["cnt"], e["tot"] = int(c), pair(int(z))


def p_md5(o, e):
    for x in text(o):
        m, p = match(r"([0-9a-f]{32})  (.*)", x)
        e["lines"].append(dict(p=comps(p), d=False, sz=[0, 0], m=m))


def labels(ls, names):
    if len(ls) < len(names):
        raise Garbled("too few lines")
    out = []
    for n, x in zip(names, ls):
        if not x.startswith(n + ":"):
            raise Garbled(x[:100])
        out.append(x[max(21, len(n) + 2):])
    return out


def p_vol(o, e):
    v, ft, root = labels(text(o), ["Valid", "Creation time", "Root Entry"])
    s, z = match(r"Sector (\d+) \((\d+) bytes\)", root)
    e["vol"] = dict(valid=v == "true", ft=ft.strip(), sec=clampsec(s), sz=clampsec(z))


def dirent(ls):
    n, off, l, r, loc, attr = labels(ls, ["Name", "Offset", "Left Child Offset", "Right Child Offset", "Data Location", "Attributes"])
    s, z = match(r"Sector (\d+) \((\d+) bytes\)", loc)

    def child(x):
        return -1 if x == "None" else int(match(r"(\d+) bytes", x)[0])
    off = int(match(r"(\d+)", off)[0])
    return dict(name=cps(n), pos=[min(off // SEC, 1 << 29), off % SEC], l=child(l), r=child(r), sec=clampsec(s), sz=pair(int(z)), attr=attr.split(), head=[])


def p_info(o, e, root=False):
    ls = text(o)
    if not root:
        e["ent"] = [dirent(ls[:6])]
        ls = ls[6:]
        if ls:
            if ls[0] != "":
                raise Garbled(ls[0])
            ls = ls[1:]
    if len(ls) % 8:
        raise Garbled("%d lines of children" % len(ls))
    for k in range(0, len(ls), 8):
        x = dirent(ls[k + 1:k + 7])
        x["head"] = cps(ls[k])
        if ls[k + 7] != "":
            raise Garbled(ls[k + 7])
        e["kids"].append(x)


def ask(bx, k, args, parse, argv0="xdvdfs", **kw):
    e = dict(BLANK, **{x: list(v) if isinstance(v, list) else v for x, v in BLANK.items()})
    e.update(k=k, **kw)
    x = cli.run(args, bx, argv0=argv0)
    e["res"] = x.how
    if x.how == "ok" and parse:
        try:
            parse(x.out, e)
        except Garbled as g:
            e["res"] = "garbled"
            e["why"] = str(g)
    return e


def md5s(path, base, img):
    raw = rawimg.Raw(path, base)
    for t in img["tabs"]:
        for s in t["slots"]:
            s["m"] = ""
            n = s["sz"][0] * (1 << 20) + s["sz"][1]
            if not s["attr"] & 16 and n < BIG and s["h"] != "TRUNCATED":
                s["m"] = hashlib.md5(raw.at(s["sec"] * SEC, n) if n else b"").hexdigest()
    raw.close()


def questions(r, bx, f, img, names, n, big, second):
    """Runs commands on image f."""
    out = []
    tags = []

    def add(tag, *a, **kw):
        out.append(ask(bx, *a, **kw))
    if r.random() < 0.85:
        add("tree", "tree", ["tree", f], p_tree)
    if r.random() < 0.2 and not f.endswith(".cso"):
        add("exiso", "tree", ["-l", f], p_tree, argv0="extract-xiso")
    add("ls", "ls", ["ls", f] + r.choice([[], ["/"]]), p_ls, whole=True)
    add("scan", "ls", ["ls", "-s", f], p_ls, whole=True)
    add("vol", "vol", ["info", f], p_vol)
    if r.random() < 0.6:
        add("info", "info", ["info", f, "/"], lambda o, e: p_info(o, e, True))
    if not big:
        if r.random() < 0.7:
            add("md5", "md5", ["md5", f], p_md5, whole=True)
        if r.random() < 0.7:
            how = r.choice([1, 1, 2, 3])
            imgs = [r.choice([f, second]) for _ in range(how)]
            bad = r.random() < 0.15

            def p_sum(o, e):
                for k, x in enumerate(text(o)):
                    s, p = match(r"([0-9a-f]{64})\t(.*)", x)
                    e["sums"].append([k + 1 if k < how and p == imgs[k] else 0, s])
            o = ["checksum"] + r.choice([[], ["-s"], ["--silent"]]) + imgs
            if bad:
                o.insert(r.randrange(len(o) - how, len(o) + 1), "no-such-image.iso")
            add("sum", "sum", o, p_sum, n=how, bad=bad)
    qs = obs.lookup_paths(r, img, n)
    if names:
        qs += [[obs.rcase(r, c) for c in q] for q in r.sample(names, min(3, len(names)))]
    for q in qs:
        s = obs.spell(r, q)
        if s.startswith("-") or any(c in (".", "..") for c in q):
            continue
        kw = dict(q=[cps(c) for c in q])
        x = r.random()
        if x < 0.35:
            add("ls", "ls", ["ls"] + r.choice([[], ["-s"]]) + [f, s], p_ls, **kw)
        elif x < 0.65 and not big:
            add("md5", "md5", ["md5", f, s], p_md5, **kw)
        else:
            add("info", "info", ["info", f, s], p_info, **kw)
    return out


def reading(item):
    tag, k, t, opt, base, kind = item
    r = gen.rng("cliread", tag, k)
    bx = cli.box()
    p, where = pool_foreign.make(r, t, opt, base)
    f = os.path.join(bx, r.choice(["i.iso", "image", "a b.xiso", "x.bin"]))
    os.rename(p, f)
    files = [(where[q][0] * SEC, e["len"]) for q, e in t.files() if e["len"]]
    if kind == "cut" and files:
        a, n = max(files)
        last = max([33] + [x[0] + (x[1] + SEC - 1) // SEC for x in where.values() if x[2]])
        root = rawimg.descriptor(f, base)
        last = max(last, root[0] + (root[1] + SEC - 1) // SEC)
        if a >= last * SEC:
            os.truncate(f, base + a + r.choice([0, n - 1, n // 2]))
    img = rawimg.parse(f, base)
    if img["bad"]:
        raise core.ToolError("our own image is malformed: " + img["bad"])
    md5s(f, base, img)
    big = os.path.getsize(f) > 1 << 30 or t.big()
    end = 0
    if kind == "tabcut":
        # the image ends within or before a directory: the answers of the whole image, or failure
        tabs = [x for x in img["tabs"] if x["size"]]
        x = r.choice(tabs) if tabs else None
        if x:
            y = x["sec"] * SEC + r.choice([0, SEC, SEC * (x["size"] // SEC), x["size"] - 1, r.randrange(x["size"]), max([0] + [s["off"] for s in x["slots"]]) + r.choice([0, 14, 15])])
            end = base + max(33 * SEC, y)
    cks = ""
    if not any(s["h"] == "TRUNCATED" for x in img["tabs"] for s in x["slots"]) and not big:
        cks = pool_checksum.Plain({q: None if e["d"] else bytes(gen.content(e)) for q, e in t.nodes()}).ref()
    e = dict(img=img, ft=str(rawimg.descriptor(f, base)[2]), cks=cks, cmds=[], part=bool(end))
    if end:
        os.truncate(f, min(end, os.path.getsize(f)))
    second = os.path.join(bx, "second.iso")
    os.link(f, second)
    dirs = [list(q) for q, x in t.nodes() if x["d"]]
    e["cmds"] = questions(r, bx, f, img, dirs, 7, big, second)
    # a file without a volume
    j = os.path.join(bx, "junk.iso")
    how = r.choice(["empty", "short", "magic", "missing", "cut"])
    if how != "missing":
        with open(f, "rb") as g:
            g.seek(base)
            d = bytearray(g.read(33 * SEC))
        if how == "empty":
            d = b""
        elif how == "short":
            d = d[:r.choice([1, 2048, 32 * SEC])]
        elif how == "cut":
            d = d[:33 * SEC - r.choice([1, 20, 2000])]
        else:
            x = 32 * SEC + r.choice([0, 5, 19, SEC - 20, SEC - 1])
            d[x] ^= r.choice([1, 0x20, 0xff])
        open(j, "wb").write(d)
    for a in r.sample([["ls", j], ["ls", "-s", j], ["tree", j], ["md5", j], ["checksum", j], ["info", j], ["info", j, "/"]], 2):
        e["cmds"].append(ask(bx, "none", a, None))
    cli.wipe(bx)
    return e


def packed(item):
    """Images of the tool itself, plain and compressed, read by the tool."""
    tag, k, t = item
    r = gen.rng("clipacked", tag, k)
    bx = cli.box()
    t.write_dir(os.path.join(bx, "s"))
    iso = os.path.join(bx, "o.iso")
    a = cli.run(["pack", "s", "o.iso"], bx)
    f = iso
    if a.how != "ok":
        cli.wipe(bx)
        return None     # other properties judge this
    if tag == "cso":
        b = cli.run(["compress", "s", "c.cso"], bx)
        f = os.path.join(bx, "c.1.cso")
        if b.how != "ok":
            cli.wipe(bx)
            return None
    img = rawimg.parse(iso)
    md5s(iso, 0, img)
    cks = pool_checksum.Plain({q: None if e["d"] else bytes(gen.content(e)) for q, e in t.nodes()}).ref()
    e = dict(img=img, ft=str(rawimg.descriptor(iso)[2]), cks=cks, cmds=[], part=False)
    dirs = [list(q) for q, x in t.nodes() if x["d"]]
    e["cmds"] = questions(r, bx, f, img, dirs, 6, False, iso)
    cli.wipe(bx)
    return e


# ---------------------------------------------------------------- progress of packing

UNESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", '"': '"', "'": "'"}


def undebug(s):
    """A Rust debug string literal, perhaps of another one, or plain text."""
    for _ in range(2):
        if len(s) > 1 and s[0] == '"' and s[-1] == '"':
            s = re.sub(r"\\(u\{([0-9a-fA-F]+)\}|.)", lambda m: chr(int(m.group(2), 16)) if m.group(2) else UNESC.get(m.group(1), m.group(1)), s[1:-1])
    return s


def lines(out, root, e):
    """Progress lines -> prog, nums, tots."""
    for x in re.split(r"[\r\n]", out.decode("utf-8", "replace")):
        m = re.fullmatch(r"(?:\[(\d+)/(\d+)\] )?Added (dir|file): (.*) at sector (\d+)", x)
        if not m:
            continue
        p = undebug(m.group(4))
        if root and (p + "/").startswith(root + "/"):
            p = p[len(root):]
        e["prog"].append(dict(k=m.group(3), p=comps(p), sec=clampsec(m.group(5))))
        if m.group(1):
            e["nums"].append(int(m.group(1)))
            e["tots"].append(int(m.group(2)))


def progress(item):
    tag, k, t = item
    r = gen.rng("cliprog", tag, k)
    bx = os.path.realpath(cli.box())
    src, root = os.path.join(bx, "s"), os.path.join(bx, "s")
    if tag in ("img", "cimg"):
        p, _ = pool_foreign.make(r, t, dict(pool_foreign.some_options(r), hi_sec=0))
        src, root = os.path.join(bx, "s.iso"), ""
        os.rename(p, src)
    else:
        t.write_dir(src)
    iso = os.path.join(bx, "o.iso")
    if tag in ("dir", "img"):
        x = cli.run(["pack", r.choice([src, os.path.basename(src)]), "o.iso"], bx)
    elif tag == "remap":
        x = cli.run(["build-image", "-m", "**:/{1}", src, iso], bx)
        root = ""
    elif tag == "repack":
        argv = cli.run(["pack", src, "m.iso"], bx)
        x = cli.run(["pack", "m.iso", "o.iso"], bx)
        root = ""
    elif tag == "rewrite":
        cli.run(["pack", src, "o.iso"], bx)
        x = cli.run(["-r", "o.iso"], bx, argv0="extract-xiso")
        root = ""
    else:
        x = cli.run(["compress", src, "o.cso"], bx)
        if x.how == "ok":
            d, bad = cso.decode(open(os.path.join(bx, "o.1.cso"), "rb").read())
            if bad:
                x.how = "bad container"
            open(iso, "wb").write(d)
    if x.how != "ok" or not os.path.exists(iso):
        cli.wipe(bx)
        return None
    e = obs.event(has=["cprog"], img=rawimg.parse(iso))
    e["tot"] = 0 if tag in ("cdir", "cimg") else 1
    e["prog"], e["nums"], e["tots"] = [], [], []
    lines(x.out, root, e)
    cli.wipe(bx)
    return e


def run(rep, thorough):
    import pool_pack
    # images other tools might have written
    sc = []
    for tag, k, t, opt, base, dev, cut in pool_foreign.scenarios(False, 110 if not thorough else 1500):
        if base:
            opt = dict(opt, hi_sec=0)
        sc.append((tag, k, t, opt, base, "cut" if cut else "tabcut" if k % 5 == 2 else ""))
    # totals beyond 4 GiB
    for k in range(4 if not thorough else 12):
        r = gen.rng("clibig", k)
        t = gen.Tree()
        t.add((), "d", True)
        for j in range(r.choice([2, 3, 5])):
            t.add(r.choice([(), ("d",)]), "f%d" % j, False, r.choice([0xffffffff, 3 << 30, (2 << 30) + 1, 1 << 30]), mark=r.randbytes(16).hex(), off=0)
        t.add((), "small", False, 100, r=r)
        sc.append(("huge", k, t, dict(pool_foreign.some_options(r), hi_sec=0), 0, ""))
    ev = core.threads(reading, sc)
    tags = [x[0] for x in sc]
    ps = []
    for k in range(40 if not thorough else 600):
        r = gen.rng("clipackedsc", k)
        ps.append(("cso" if k % 2 else "own", k, gen.random_tree(r, small=r.random() < 0.6, host=True, alphabet=pool_foreign.ALPHA_HOST)))
    pe = core.threads(packed, ps)
    ev += [e for e in pe if e]
    tags += [x[0] for x, e in zip(ps, pe) if e]
    n = sum(len(e["cmds"]) for e in ev)
    core.log("commands run", n)
    v = core.judge("JCli", ev)
    rep.judged("JCli", ev, v, tags, info=lambda i: sorted({(c["k"], c.get("why", c["res"])) for c in ev[i]["cmds"]}))
    rep.extra["commands"] = n
    rep.rules.append("every reading command on images of random shape, on the tool's own plain and compressed images, on cut off "
                     "images and files without volume; each line compared with the independently parsed image")
    # progress
    gs = []
    for k in range(70 if not thorough else 900):
        r = gen.rng("cliprogsc", k)
        t = gen.random_tree(r, small=r.random() < 0.7, host=True, alphabet=pool_foreign.ALPHA_HOST)
        gs.append((["dir", "img", "remap", "cdir", "cimg", "repack", "rewrite"][k % 7], k, t))
    ge = core.threads(progress, gs)
    gt = ["progress-" + x[0] for x, e in zip(gs, ge) if e]
    ge = [e for e in ge if e]
    core.log("progress recorded", len(ge))
    v = core.judge("JImage", ge)
    rep.judged("JImage", ge, v, gt)
    # progress of the library itself
    items = [x for x in pool_pack.families(thorough, big=False) if not x[0].startswith("reject")]
    if not thorough:
        items = gen.rng("cliprogpick").sample(items, min(len(items), 260))
    le = core.parallel(pool_pack.observe, [(a, b, dict(c, looks=0, dirs=False)) for a, b, c in items])
    for e in le:
        e["has"] = [x for x in e["has"] if x == "prog"]
        e["src"], e["tree"] = [], []
    v = core.judge("JImage", le)
    rep.judged("JImage", le, v, ["library-" + x[0] for x in items])
    rep.rules.append("progress of packing, through the tool and the library, compared with where the image really holds everything")
