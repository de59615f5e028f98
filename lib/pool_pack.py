"""Packing from in-memory trees (and real directories) and reading the result back."""
import itertools, json, os, socket
import cli, core, gen, obs, rawimg


def can_be_vast():
    """Does the scratch directory take sparse files of 8 TiB?"""
    p = core.tmp(".vast")
    try:
        with open(p, "wb") as f:
            os.pwrite(f.fileno(), b"x", (8 << 40) + (1 << 30))
        return True
    except OSError:
        return False
    finally:
        core.drop(p)


def odd(o, r, t, d, bx):
    """Puts something into the source directory that is neither a file nor a directory."""
    kind, what = o
    at = os.path.join(d, *r.choice(list(t.dirs))).encode()
    p = at + b"/" + r.choice([b"zz odd", b"!odd", b"m.odd"])
    if what == "fifo":
        os.mkfifo(p)
    elif what == "socket":
        s = socket.socket(socket.AF_UNIX)
        c = os.getcwd()
        s.bind(b"s.tmp" if len(p) > 90 else p)
        if len(p) > 90:
            os.rename(c.encode() + b"/s.tmp", p)
        s.close()
    elif what == "name":        # not text
        open(at + b"/bad\xff\xfename", "wb").write(b"x")
    elif what == "name-dir":
        os.mkdir(at + b"/\xc3\x28")
    elif what == "dangling":
        os.symlink("nowhere/at/all", p)
    elif what == "loop":
        os.symlink(os.path.basename(p), p)
    elif what == "link":        # names what the tree records as a file of its own
        q, e = t.link
        f = os.path.join(d, *q)
        os.rename(f, bx + "/target")
        os.symlink(bx + "/target", f)


def observe(w, item):
    tag, t, opt = item
    r = gen.rng("packobs", tag, len(json.dumps(t.event())))
    host = opt.get("host")
    if host:
        bx = cli.box()
        d, out = bx + "/" + r.choice(["src", "my dir", "é.x", "a.b.c"]), bx + "/out.iso"
        t.write_dir(d)
        for o in opt.get("odd", []):
            odd(o, r, t, d, bx)
    else:
        out = core.tmp(".iso")
    if host == "cli":
        res = cli.run(["pack", d, out], bx).how
    elif host in ("compress", "build", "xiso"):         # whether it is accepted, and what becomes of it
        if host == "build":
            open(bx + "/s.toml", "w").write('[metadata]\noutput = "%s"\n[map_rules]\n"**" = "/{1}"\n' % out)
        a = dict(compress=["compress", d, bx + "/out.cso"], build=["build-image", "-f", bx + "/s.toml", d],
                 xiso=["-c", d, out])[host]
        res = cli.run(a, bx, argv0="extract-xiso" if host == "xiso" else "xdvdfs", timeout=120).how
        f, has = {}, ["src"]
        if res == "ok" and host != "compress":
            f["img"] = rawimg.parse(out)
            has.append("raw")
        cli.wipe(bx)
        return obs.event(has=has, src=t.event(), res=res, odd=[k for k, _ in opt.get("odd", [])], **f)
    else:
        dev = opt.get("dev") or ("file" if t.big() else "log")
        req = dict(op="pack", dev=dev, out=out, bufcap=r.choice([1, 100, 5000, 1 << 20]), boxlen=opt.get("boxlen", 0))
        req.update(dict(src="std", root=d) if host else dict(src="mem", tree=t.harness()))
        a = w.ask(req, timeout=120)
        res = core.outcome(a)
    f = dict(src=t.event(), res=res, odd=[k for k, _ in opt.get("odd", [])])
    has = ["src"]
    if res == "ok":
        img = rawimg.parse(out)
        if opt.get("vast"):         # sector numbers out of TLC's range: where things lie is left to the marks
            img["len"][0] = min(img["len"][0], 1 << 29)
        f["img"] = img
        f["own"] = True
        has += ["raw", "api"] + ([] if opt.get("vast") else ["own"])
        if not host:
            has.append("prog")
            f.update(obs.progress(a["progress"]))
        n = sum(len(x["slots"]) for x in img["tabs"])
        looks = opt.get("looks", 12 if n < 300 else 40)
        g, h2, _ = obs.read_image(w, out, img, r, looks=looks, dirs=opt.get("dirs", n < 3000), tree=opt.get("tree", True))
        f.update(g)
        has += h2
    if host:
        cli.wipe(bx)
    else:
        core.drop(out)
    return obs.event(has=has, **f)


def from_avl(hists):
    """Trees whose directories are filled in the orders the model chose, many directories to a tree."""
    out = []
    for at in range(0, len(hists), 60):
        t = gen.Tree()
        for j, hist in enumerate(hists[at:at + 60]):
            d = "%03d" % j
            t.add((), d, True)
            line = []
            for k, g in enumerate(hist):
                line.insert(g, k)
            rank = {k: x for x, k in enumerate(line)}
            for k in range(len(hist)):
                x = rank[k]
                t.add((d,), "AbCdEfGhIjKlMnOpQr"[x] + ("x" * (x % 3)), x % 7 == 3, 0 if x % 7 == 3 else k % 3, off=k)
        out.append(("spec-avl", t, dict(looks=60, dirs=False)))
    return out


def from_writer(scens):
    out = []
    for at in range(0, len(scens), 8):
        t = gen.Tree()
        for j, src in enumerate(scens[at:at + 8]):
            t.add((), "s%d" % j, True)
            for lst in src:
                p = ("s%d" % j,) + tuple("".join(map(chr, c)) for c in lst["p"])
                for e in lst["l"]:
                    t.add(p, "".join(map(chr, e["n"])), e["d"], (e["sz"][0] << 20) + e["sz"][1], off=e["n"][0])
        out.append(("spec-writer", t, dict(looks=30, dirs=False)))
    return out


def models(rep, thorough):
    """The writer's decisions checked on their own; returns the scenarios to replay."""
    jobs = [("MC_Avl", "MC_Avl_t.cfg" if not thorough else "MC_Avl_tt.cfg", True), ("MC_Writer", None, True)]
    jobs += [("MC_Avl", "MC_Avl_x.cfg", False)] + [("MC_Writer", "MC_Writer_%s.cfg" % v, False) for v in ("x", "y", "y2", "z", "z2")]
    if thorough:
        jobs.append(("MC_Writer", "MC_Writer_t.cfg", True))

    def one(j):
        m, cfg, good = j
        f = core.model_check if good else core.refute
        return f(m, cfg=cfg, stack="256m", **(dict(workers=3) if good else {}))
    rs = core.threads(one, jobs, 3)
    for (m, cfg, good), r in zip(jobs, rs):
        rep.model("%s/%s" % (m, cfg or m + ".cfg"), r, "holds" if good else "broken variant, refuted")
    hists = core.scenarios(rs[0])
    wr = core.scenarios(rs[1])
    r = gen.rng("specwriter")
    r.shuffle(wr)
    perms = list(itertools.permutations(range(7 if thorough else 6)))
    # a permutation as gaps: where among the earlier ones
    hists += [[sum(q < p[k] for q in p[:k]) for k in range(len(p))] for p in perms]
    for ln in (15, 18):
        for _ in range(200 if thorough else 40):
            hists.append([r.randrange(k + 1) for k in range(ln)])
    return from_avl(hists) + from_writer(wr[:3000 if thorough else 240])


def families(thorough, big=True):
    r = gen.rng("pack")
    sc = []
    sc += gen.fam_orders(5, ["b", "D", "a_", "c", "É"])
    if thorough:
        sc += gen.fam_orders(7, ["b", "D", "a_", "c", "É", "ab", "~"])
    sc += gen.fam_names()
    sc += gen.fam_boundaries(r, 60 if not thorough else 600)
    sc += gen.fam_exact(r)
    sc += gen.fam_depth(r)
    sc += gen.fam_sizes(r)
    sc += gen.fam_wide(r, thorough)
    if big:
        sc += gen.fam_huge(r)
    sc += gen.fam_reject(r)
    vast = [(a, b, dict(vast=True, dev="file")) for a, b in gen.fam_vast(r, thorough)] if big and can_be_vast() else []
    for k in range(150 if not thorough else 2500):
        rr = gen.rng("packrand", k)
        t = gen.random_tree(rr, small=rr.random() < 0.7)
        if rr.random() < 0.5:
            t.shuffle(rr)
        sc.append(("random", t))
    for k in range(12 if not thorough else 100):
        rr = gen.rng("packrand2", k)
        t = gen.random_tree(rr, n=rr.choice([100, 200, 400]), depth=8, small=True)
        sc.append(("random-large", t))
    out = vast + [(a, b, {}) for a, b in sc]
    # real directories, through the library and the tool
    for k in range(70 if not thorough else 1000):
        rr = gen.rng("packhost", k)
        t = gen.random_tree(rr, n=rr.choice([0, 1, 3, 8, 20, 60]), small=rr.random() < 0.6, host=True)
        if k % 10 == 0:
            t.add((), "big", False, rr.choice([1 << 20, (1 << 20) + 1, (5 << 20) + 7, (9 << 20) - 3]), off=3)
        how = "cli" if k % 3 == 0 else "lib"
        out.append(("host-" + how, t, dict(host=how, dev=rr.choice(["log", "file", "buf", "buf"]))))
    # what a directory can hold and an image cannot, through every way in
    ways = ["cli", "lib", "compress", "build", "xiso"]
    k = 0
    for what in ("fifo", "socket", "name", "name-dir", "dangling", "loop", "link"):
        for how in ways * (4 if thorough else 1):
            k += 1
            rr = gen.rng("packodd", what, how, k)
            t = gen.random_tree(rr, n=rr.choice([1, 3, 8, 20]), small=True, host=True)
            t.add((), "file", False, 10, r=rr)
            t.link = rr.choice(t.files())
            out.append(("odd-" + what + "-" + how, t, dict(host=how, odd=[("link" if what == "link" else "no", what)], dev="log")))
    rej = [(a, b) for a, b in gen.fam_reject(gen.rng("packreject"))
           if not a.startswith(("long2", "long5", "long3", "long6", "utf8-256", "wide", "dup-exact", "size-max")) or a.startswith("long255")]
    for j, (a, b) in enumerate(rej):
        if a.startswith("full") and a in [x for x, _ in rej[:j]]:
            continue
        for how in (ways if thorough else [ways[2 + j % 3]] if a.startswith("full") else ["cli", ways[1 + j % 4]]):
            if how == "build" and a.startswith("dup"):      # the rules decide what becomes of these
                continue
            out.append(("host-" + a + "-" + how, b, dict(host=how, dev="log", looks=4, dirs=False)))
    return out


def run(rep, thorough):
    items = models(rep, thorough) + families(thorough)
    ev = core.parallel(observe, items)
    core.log("packed", len(ev))
    v = core.judge("JImage", ev)
    core.log("judged", len(ev))
    rep.judged("JImage", ev, v, [x[0] for x in items], info=lambda i: dict(family=items[i][0], tree=items[i][1].harness()))
    rep.rules.append("trees packed by the real library, image parsed independently, every reader asked")
