"""Packing from images: every copier, device and partition offset, the command line tool, chains."""
import os
import cli, core, gen, obs, pool_foreign, rawimg
from rawimg import SEC, BIG

COPIERS = ["default", "odefault", "stdio", "ostdio"]
EMPTY = obs.EMPTY["img"]


def digest(p):
    if os.path.getsize(p) > 1 << 30:
        st = os.stat(p)
        return (st.st_size, st.st_mtime_ns, cli.fid(p))
    with open(p, "rb") as f:
        return rawimg.h(f.read())


def lib(w, src, out, r, offset):
    cp = r.choice([c for c in COPIERS if c[0] == "o"] if offset else COPIERS)
    dev = r.choice(["log", "file", "buf"] if "stdio" in cp else ["log", "file", "buf", "linear", "box"])
    if os.path.getsize(src) > 200 << 20:
        dev = "file"
    req = dict(op="pack", src="img", img=src, copier=cp, dev=dev, out=out, bufcap=r.choice([1, 100, 2048, 5000, 1 << 20]),
               boxlen=(os.path.getsize(src) + (1 << 20)) // 65536 * 65536)
    a = w.ask(req, timeout=120)
    return core.outcome(a), "%s/%s" % (cp, dev)


def tool(w, src, out, r, offset):
    how = r.choice(["pack", "pack", "build", "exr"])
    cwd = os.path.dirname(src)
    if how == "pack":
        x = cli.run(["pack", src, out], cwd)
    elif how == "build":
        how = "pack-default"
        x = cli.run(["pack", os.path.basename(src)], cwd)
        d = os.path.join(cwd, os.path.splitext(os.path.basename(src))[0] + ".xiso.iso")
        if x.how == "ok" and os.path.exists(d):
            os.rename(d, out)
    else:
        how = "pack-rel"
        x = cli.run(["pack", os.path.basename(src), os.path.relpath(out, cwd)], cwd)
    return x.how, "cli-" + how


def observe(w, item):
    tag, k, t, opt, base, trunc, steps = item
    r = gen.rng("repack", tag, k)
    bx = cli.box()
    src = os.path.join(bx, "source.iso")
    p, where = pool_foreign.make(r, t, opt, base)
    os.rename(p, src)
    img = rawimg.parse(src, base)
    if img["bad"]:
        raise core.ToolError("our own image is malformed: " + img["bad"])
    files = [(p, e) for p, e in t.files() if e["len"]]
    if trunc and files:
        last = max([33] + [x["sec"] + (x["size"] + SEC - 1) // SEC for x in img["tabs"]]) * SEC
        ends = []
        for p, e in files:
            s = where[p][0] * SEC
            ends += [s, s + 1, s + e["len"] - 1, s + e["len"], s + e["len"] // 2]
        ends = [x for x in ends if x >= last]
        if ends:
            n = r.choice(ends)
            os.truncate(src, base + n)
            img["len"] = [n // SEC, n % SEC]
    out = []
    for step in range(steps):
        dst = os.path.join(bx, "out%d.iso" % step)
        before = digest(src)
        res, via = (tool if "cli" in core.BIN and r.random() < 0.35 else lib)(w, src, dst, r, base != 0)
        e = dict(src=img, res=res, same=digest(src) == before, via=via, out=EMPTY)
        if res == "ok":
            e["out"] = rawimg.parse(dst) if os.path.exists(dst) else dict(EMPTY, bad="no output")
        out.append(e)
        if res != "ok" or e["out"]["bad"]:
            break
        core.drop(src)
        src, img, base = dst, e["out"], 0
    cli.wipe(bx)
    return out


def huge(k):
    r = gen.rng("repackhuge", k)
    t = gen.fam_huge(r)[k % 3][1]
    return ("repack-huge", k, t, dict(shape="random", place="linear", filetime=5), r.choice(pool_foreign.OFFSETS), False, 1)


def scenarios(thorough):
    out = []
    for k in range(170 if not thorough else 3000):
        r = gen.rng("repacksc", k)
        opt = pool_foreign.some_options(r)
        base = r.choice(pool_foreign.OFFSETS) if r.random() < 0.4 else 0
        t = pool_foreign.some_tree(r, k)
        if k % 6 == 0:
            names = r.choice([["a", "ab", "a b", "A_", "abc", "b", "ba"], ["é", "€uro", "™", "œuf", "a™b", "ÿ", "Žx"],
                              ["x.y", "x", "x.", "X-y", "x/y".replace("/", "\\"), "x y"]])
            t = gen.Tree()
            ps = [()]
            for nm in names * 3:
                p = r.choice(ps)
                d = r.random() < 0.5 and len(p) < 4
                if t.add(p, nm, d, 0 if d else gen.size(r, True), r=r) and d:
                    ps.append(p + (nm,))
        out.append(("repack", k, t, opt, base, k % 4 == 3, r.choice([1, 2, 2, 3])))
    # directories of several sectors, deep nesting
    for k, nn in enumerate([200, 900]):
        r = gen.rng("repackwide", k)
        t = gen.Tree()
        for j in range(nn):
            t.add((), "%04x%s" % (j, "w" * (j % 40)), j % 50 == 3, 0 if j % 50 == 3 else j % 3000, off=j)
        out.append(("repack-wide", k, t, dict(pool_foreign.some_options(r), hi_sec=0), 0, False, 2))
    r = gen.rng("repackdeep")
    for tg, t in gen.fam_depth(r):
        out.append(("repack-" + tg, 0, t, pool_foreign.some_options(r), r.choice(pool_foreign.OFFSETS), False, 2))
    mib, mib9 = [t for g, t in gen.fam_sizes(gen.rng("repackmib")) if g.startswith("mib")]
    for k in range(8):
        r = gen.rng("repackmib", k)
        out.append(("repack-mib", k, mib, dict(pool_foreign.some_options(r), hi_sec=0), r.choice([0, 0, 34078720]), k % 4 == 3, 2))
    for k in range(6):
        r = gen.rng("repackmib9", k)
        out.append(("repack-mib9", k, mib9, dict(pool_foreign.some_options(r), hi_sec=0), r.choice([0, 0, 34078720]), k == 3, 2))
    out += [huge(k) for k in range(2 if not thorough else 9)]
    return out


def run(rep, thorough):
    items = scenarios(thorough)
    res = core.parallel(observe, items)
    ev, tags, own = [], [], []
    for j, l in enumerate(res):
        for e in l:
            ev.append(e)
            tags.append(items[j][0] + ("-cli" if e["via"].startswith("cli") else ""))
            own.append(j)
    core.log("repacked", len(ev))
    v = core.judge("JRepack", ev)
    core.log("judged", len(ev))
    rep.judged("JRepack", ev, v, tags, info=lambda i: dict(seed=items[own[i]][1], via=ev[i]["via"], base=items[own[i]][4],
                                                          tree=items[own[i]][2].harness(), options=items[own[i]][3]))
    rep.rules.append("images of an independent writer packed again (chains of up to three) through every copier, device and "
                     "partition offset and the command line tool, complete and cut off")
