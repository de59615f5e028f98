"""Extraction by the real tool, run as an unprivileged user in a scratch directory with canaries around the output."""
import os, random, shutil
import cli, core, gen, mkimg, obs, pool_foreign, rawimg
from rawimg import SEC, cps, pair

UID = 65534
HOST = [c for c in pool_foreign.ALPHA if c not in "/\\"]


def nodes(d):
    """[p, d, sz, h] of everything below d."""
    out = []
    if not os.path.isdir(d) or os.path.islink(d):
        return out
    for base, ds, fs in os.walk(d, followlinks=False):
        rel = os.path.relpath(base, d)
        pre = [] if rel == "." else rel.split("/")
        for n in ds + fs:
            p = os.path.join(base, n)
            x = dict(p=[cps(c) for c in pre + [n]], d=False, sz=[0, 0], h="")
            if os.path.islink(p) or not (os.path.isdir(p) or os.path.isfile(p)):
                x["h"] = "other"
            elif os.path.isdir(p):
                x["d"] = True
            else:
                x["sz"], x["h"] = pair(os.path.getsize(p)), cli.fid(p)
            out.append(x)
    return out


class Place:
    """box/n1/n2/n3/n4 (root's) / work (the user's): out is below work, everything else there is a canary."""

    def __init__(self):
        os.chmod(core.scratch(), 0o711)
        self.box = cli.box()
        os.chmod(self.box, 0o755)
        d = self.box
        for k in range(4):
            d = os.path.join(d, "n%d" % k)
            os.mkdir(d)
        self.work = os.path.join(d, "work")
        self.imgs = os.path.join(d, "img")
        os.mkdir(self.imgs)
        os.mkdir(self.work)
        for rel, text in (("e", "canary e"), ("passwd", "root"), ("sib/x", "y"), ("a", "canary a")):
            p = os.path.join(self.work, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(text)
        self.own(self.work)

    def own(self, d):
        for base, ds, fs in os.walk(d):
            os.chown(base, UID, UID)
            for f in fs:
                os.chown(os.path.join(base, f), UID, UID)

    def outside(self, out):
        s = cli.snap(self.box)
        rel = os.path.relpath(out, self.box)
        return {k: v for k, v in s.items() if k != rel and not k.startswith(rel + "/")}

    def close(self):
        cli.wipe(self.box)


def run_tool(pl, args, cwd, argv0="xdvdfs"):
    return cli.run(args, cwd, argv0=argv0, uid=UID, timeout=60, bin=core.public("cli"))


def observe(item):
    tag, k, t, opt, base, trunc = item
    r = gen.rng("extract", tag, k)
    pl = Place()
    p, where = pool_foreign.make(r, t, opt, base)
    img = os.path.join(pl.imgs, "disc.iso")
    os.rename(p, img)
    os.chmod(img, 0o644)
    model = rawimg.parse(img, base)
    if model["bad"]:
        raise core.ToolError("our own image is malformed: " + model["bad"])
    files = [(p, e) for p, e in t.files() if e["len"]]
    if trunc and files:
        last = max([33] + [x["sec"] + (x["size"] + SEC - 1) // SEC for x in model["tabs"]]) * SEC
        ends = []
        for p, e in files:
            s = where[p][0] * SEC
            ends += [s, s + 1, s + e["len"] - 1, s + e["len"], s + e["len"] // 2]
        ends = [x for x in ends if x >= last]
        if ends:
            os.truncate(img, base + r.choice(ends))
            model = rawimg.parse(img, base)
    evs = []
    allp = [p for p, e in t.nodes()]
    plans = [r.choice(["unpack", "unpack-rel", "unpack-default", "copyroot", "ex-d", "ex-default", "ex-plain"])]
    for _ in range(3):
        plans.append(r.choice(["copy", "copy", "copy", "missing", "unpack"]))
    for how in plans:
        out = os.path.join(pl.work, "out")
        sel, kind, cwd, argv0 = [], "all", pl.work, "xdvdfs"
        name = ()
        if how in ("copy", "missing") and not allp:
            how = "copyroot"
        if how == "copy":
            name = r.choice(allp)
            sel, kind = list(name), "path"
        elif how == "missing":
            name = r.choice(allp)
            name = r.choice([name + ("nope",), name[:-1] + (name[-1] + "zz",), ("zz-none",), name[:-1] + (name[-1][:-1] + "~",)])
            sel, kind = list(name), "path"
        isfile = kind == "path" and any(p == name and not e["d"] for p, e in t.nodes())
        spelled = ("/" if r.random() < 0.7 else "") + "/".join(obs.rcase(r, c) for c in name) + ("/" if r.random() < 0.15 and not isfile else "")
        spelled = "/" + spelled if spelled.startswith("-") else spelled
        new = r.random() < 0.3 and how not in ("unpack-default", "ex-default", "ex-plain")
        if new:
            out = os.path.join(pl.work, "fresh", "deep") if r.random() < 0.5 else os.path.join(pl.work, "fresh")
        isfile = kind == "path" and any(p == name and not e["d"] for p, e in t.nodes())
        if how in ("unpack-default", "ex-default", "ex-plain"):
            out = os.path.join(pl.work, "disc")
        elif isfile:
            out = os.path.join(pl.work, "single")
            if r.random() < 0.5:
                open(out, "wb").write(gen.blob()[1][:r.choice([3, 70000])])
        elif not new:
            os.makedirs(out)
            # leftovers, some with the name of a file to be extracted
            for q, e in t.files():
                rel = q[len(name):]
                if q[:len(name)] == name and len(rel) == 1 and r.random() < 0.4:
                    open(os.path.join(out, rel[0]), "wb").write(gen.blob()[1][5:5 + r.choice([0, 10, 100000])])
            if r.random() < 0.3 and not any(q[len(name):] == ("stays",) for q in allp):
                open(os.path.join(out, "stays"), "w").write("here")
        pl.own(pl.work)
        top = out
        if new and not isfile:
            top = os.path.join(pl.work, "fresh")
        pre = nodes(out)
        before = pl.outside(top)
        if how == "unpack":
            a = ["unpack", img, out]
        elif how == "unpack-rel":
            a = ["unpack", os.path.relpath(img, cwd), os.path.relpath(out, cwd)]
        elif how == "unpack-default":
            a = ["unpack", img]
        elif how == "copyroot":
            a = ["copy-out", img, "/", out]
        elif how == "ex-d":
            a, argv0 = ["-d", out, "-x", img], "extract-xiso"
        elif how == "ex-default":
            a, argv0 = ["-x", img], "extract-xiso"
        elif how == "ex-plain":
            a, argv0 = [img], "extract-xiso"
        else:
            a = ["copy-out", img, spelled, out]
        x = run_tool(pl, a, cwd, argv0)
        e = dict(kind=kind, sel=[cps(c) for c in sel], pre=pre, out=nodes(out), single=dict(sz=[0, 0], h=""), res=x.how,
                 outside=pl.outside(top) == before, cmd=" ".join(a), img=model)
        if os.path.isfile(out):
            e["single"] = dict(sz=pair(os.path.getsize(out)), h=cli.fid(out))
        evs.append(e)
        for d in (top, out):
            if os.path.isdir(d) and d != pl.work:
                shutil.rmtree(d)
            elif os.path.isfile(d):
                os.unlink(d)
    pl.close()
    return evs


def hostile(item):
    """A tree of hostile names: node paths of code points, as the model printed them."""
    tag, k, ns, opt = item
    r = gen.rng("extracthost", tag, k)
    pl = Place()
    sub = {"/w/e": os.path.join(pl.work, r.choice(["e", "newfile", "passwd"]))}
    byp = {(): []}
    for n in sorted(ns, key=lambda n: len(n["p"])):
        p = tuple("".join(map(chr, c)) for c in n["p"])
        nm = sub.get(p[-1], p[-1])
        ent = mkimg.Ent(nm, kids=[]) if n["d"] else mkimg.Ent(nm, data=b"owned %d" % k)
        byp[p[:-1]].append(ent)
        if n["d"]:
            byp[p] = ent.kids
    # something ordinary beside it, before or after in the order
    if r.random() < 0.5:
        for nm in r.sample(["!first", "zz", "m"], 2):
            if all(mkimg.fold(e.name) != mkimg.fold(nm) for e in byp[()]):
                byp[()].append(mkimg.Ent(nm, data=b"ordinary"))
    img = os.path.join(pl.imgs, "disc.iso")
    mkimg.build(img, byp[()], r, **opt)
    os.chmod(img, 0o644)
    model = rawimg.parse(img)
    if model["bad"]:
        raise core.ToolError("our own image is malformed: " + model["bad"])
    out = os.path.join(pl.work, "out")
    if r.random() < 0.7:
        os.makedirs(out)
        pl.own(pl.work)
    kind, sel = "all", []
    how = r.choice(["unpack", "unpack", "rel", "copyroot", "ex-d", "copydir"])
    dirs = [e.name for e in byp[()] if e.is_dir and "/" not in e.name and "\0" not in e.name]
    if how == "copydir" and not dirs:
        how = "unpack"
    argv0 = "xdvdfs"
    if how == "unpack":
        a = ["unpack", img, out]
    elif how == "rel":
        a = ["unpack", os.path.relpath(img, pl.work), "out"]
    elif how == "copyroot":
        a = ["copy-out", img, "/", out]
    elif how == "copydir":
        d = r.choice(dirs)
        kind, sel = "path", [cps(d)]
        a = ["copy-out", img, "/" + d, out]
    else:
        a, argv0 = ["-d", out, "-x", img], "extract-xiso"
    pre = nodes(out)
    before = pl.outside(out)
    x = run_tool(pl, a, pl.work, argv0)
    e = dict(kind=kind, sel=sel, pre=pre, out=nodes(out), single=dict(sz=[0, 0], h=""), res=x.how,
             outside=pl.outside(out) == before, cmd=" ".join(a), img=model)
    pl.close()
    return [e]


def host_tree(r, k):
    t = gen.Tree()
    ps = [()]
    for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12, 20, 40])):
        p = r.choice(ps) if r.random() < 0.6 else ()
        nm = gen.name(r, alphabet=r.choice([list("abAB_"), HOST, list("abcdefgh.0123 "), list(".a-")]))
        if nm in (".", "..") or len(nm.encode()) > 200:
            continue
        d = r.random() < 0.35 and len(p) < 6
        if t.add(p, nm, d, 0 if d else gen.size(r, r.random() < 0.6), r=r) and d:
            ps.append(p + (nm,))
    return t


def c15(thorough):
    items = []
    for k in range(110 if not thorough else 2500):
        r = gen.rng("extractsc", k)
        base = r.choice(pool_foreign.OFFSETS) if r.random() < 0.4 else 0
        items.append(("extract", k, host_tree(r, k), pool_foreign.some_options(r), base, k % 5 == 3))
    r = gen.rng("extractdeep")
    for tg, t in gen.fam_depth(r) + gen.fam_sizes(r):
        items.append(("extract-" + tg, 0, t, dict(pool_foreign.some_options(r), hi_sec=0), r.choice(pool_foreign.OFFSETS[:2]), False))
    for k in range(2):
        t = gen.Tree()
        for j in range(400):
            t.add((), "%03d%s" % (j, "n" * (j % 60)), j % 9 == 0, 0 if j % 9 == 0 else j * 11, r=r)
        items.append(("extract-wide", k, t, dict(pool_foreign.some_options(r), hi_sec=0), 0, False))
    return items


EXTRA = ["", "\0", "a\0/../e", "..", ".", "../e", "../../e", "..//e", "./../e", "a/../../e", "/", "//e", "a/", "/e", "..\\e", "\\e", "C:\\e",
         "..\\new", "..\\sib", "..\\..\\new", "a\\..\\..\\new", "..\\/new", "../new", "../../new", "....//new", "%2e%2e/new", "..%2fnew", "..:new", "..;/new",
         "..\n", "~", "$HOME", "../new/", "new/../../new2", "..\u00a0", "\u00a0..", "-r", "...", ".. ", " ..", "..\u2026", "../out/../e", "/w/e", "sib/x", "../sib/x"]


def c16(rep, thorough):
    m = core.model_check("MC_Extract", workers=4)
    rep.model("MC_Extract", m, "chains of three levels and pairs of siblings over 9 names, every order, a crash at every point")
    core.refute("MC_Extract", "MC_Extract_x.cfg")
    sc = [s["t"] for s in core.scenarios(m)]
    rnd = gen.rng("c16")
    simple = [s for s in sc if len(s) <= 2]
    deep = [s for s in sc if len(s) > 2]
    rnd.shuffle(deep)
    pick = simple + deep[:200 if not thorough else len(deep)]
    items = [("hostile-model", k, s, dict(shape=rnd.choice(["left", "right", "balanced"]), empty=rnd.choice(["zero", "blank"])))
             for k, s in enumerate(pick)]
    k = 0
    for nm in EXTRA:
        for d in (False, True):
            for lev in (0, 1, 2):
                ns = []
                p = []
                for q in range(lev):
                    p = p + [cps("d%d" % q)]
                    ns.append(dict(p=p, d=True))
                ns.append(dict(p=p + [cps(nm)], d=d))
                if d:
                    ns.append(dict(p=p + [cps(nm), cps("e")], d=False))
                if lev == 1:
                    ns.append(dict(p=[cps("aa")], d=False))
                items.append(("hostile-name", k, ns, dict(shape="random", empty="zero")))
                k += 1
    return items


def run(rep, thorough):
    if rep.pid == "C15":
        items = c15(thorough)
        res = core.threads(observe, items)
    else:
        items = c16(rep, thorough)
        res = core.threads(hostile, items)
        more = c15(thorough)[:20]
        items = items + more
        res = res + core.threads(observe, more)
    ev, tags, own = [], [], []
    for j, l in enumerate(res):
        for e in l:
            ev.append(e)
            tags.append(items[j][0])
            own.append(j)
    core.log("extracted", len(ev))
    v = core.judge("JExtract", ev)
    core.log("judged", len(ev))
    rep.judged("JExtract", ev, v, tags, info=lambda i: dict(seed=items[own[i]][1], cmd=ev[i]["cmd"]))
    rep.rules.append("images of an independent writer extracted by unpack, copy-out and extract-xiso -x as an unprivileged user; "
                     "the files below the destination and everything around it compared before and after")
