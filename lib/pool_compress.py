"""Compressed images: bytes, and the answers of every reading command on them."""
import os, re
import cli, core, cso, gen, obs, pool_foreign, rawimg
from rawimg import SEC

EMPTY = obs.EMPTY["img"]


def host_tree(r, k):
    t = gen.random_tree(r, n=r.choice([0, 1, 3, 6, 12, 25]), depth=4, small=r.random() < 0.5, host=True,
                        alphabet=r.choice([list("abAB_"), [c for c in gen.TRICKY if c != "/"], list("abcdefgh0123.")]))
    return t


def split(r, c, to):
    """The container in two parts, as the tool writes them beyond 4 GiB: every byte at its own position in the part that holds it."""
    b = open(c, "rb").read()
    n = int.from_bytes(b[8:16], "little") // SEC
    at = r.choice([24, 24 + 4 * (n + 1), len(b) - 1, len(b) // 2, r.randrange(1, len(b)), r.randrange(1, len(b))])
    with open(to + ".1.cso", "wb") as f:
        f.write(b[:at])
    with open(to + ".2.cso", "wb") as f:
        f.seek(at)
        f.write(b[at:])
    return to + ".1.cso"


def same_output(a, b, pa, pb):
    return a.replace(pa.encode(), b"@") == b.replace(pb.encode(), b"@")


def observe(item):
    tag, k, src = item
    r = gen.rng("compress", tag, k)
    bx = cli.box()
    trunc = False
    if src[0] == "dir":
        s = os.path.join(bx, "src")
        src[1].write_dir(s)
        names = [p for p, e in src[1].nodes()]
    else:
        t, opt, base, trunc = src[1:]
        p, where = pool_foreign.make(r, t, opt, base)
        s = os.path.join(bx, "source.iso")
        os.rename(p, s)
        names = [p for p, e in t.nodes()]
        files = [(where[p][0] * SEC, e["len"]) for p, e in t.files() if e["len"]]
        if trunc and files:
            a, n = max(files)
            last = max([33] + [x[0] + (x[1] + SEC - 1) // SEC for x in where.values() if x[2]])
            root = rawimg.descriptor(s, base)
            last = max(last, root[0] + (root[1] + SEC - 1) // SEC)
            if a >= last * SEC:
                os.truncate(s, base + a + r.choice([0, n - 1, n // 2]))
    iso, c = os.path.join(bx, "p.iso"), os.path.join(bx, "c.1.cso")
    how = r.choice(["abs", "rel", "default"])
    p = cli.run(["pack", s, iso], bx)
    if how == "abs":
        x = cli.run(["compress", s, os.path.join(bx, "c.cso")], bx)
    elif how == "rel":
        x = cli.run(["compress", os.path.basename(s), "c.cso"], bx)
    else:
        x = cli.run(["compress", s], bx)
        d = os.path.join(bx, ("src" if src[0] == "dir" else "source") + ".1.cso")
        if os.path.exists(d):
            os.rename(d, c)
    e = dict(pres=p.how, cres=x.how, plain=EMPTY, img=EMPTY, n=0, diffs=[], cont="", cmds=[])
    if p.how == "ok" and x.how == "ok":
        e["plain"] = rawimg.parse(iso)
        if not os.path.exists(c):
            e["cont"] = "no output"
        else:
            out, e["cont"] = cso.decode(open(c, "rb").read())
            e["n"] = len(out) // SEC
            pb = open(iso, "rb").read()
            for q in range(max(len(out), len(pb)) // SEC):
                if out[q * SEC:q * SEC + SEC] != pb[q * SEC:q * SEC + SEC]:
                    e["diffs"].append(q)
                    if len(e["diffs"]) > 5:
                        break
            dp = os.path.join(bx, "d.iso")
            open(dp, "wb").write(out)
            if not e["cont"]:
                e["img"] = rawimg.parse(dp)
            # the same container under a name without part number
            c2 = os.path.join(bx, "whole.cso")
            os.link(c, c2)
            cs = [c, c2]
            if len(out) and not e["cont"]:
                cs.append(split(r, c, os.path.join(bx, "s")))
            cmds = [["ls"], ["ls", "-s"], ["tree"], ["md5"], ["checksum", "-s"], ["info"], ["info", "/"]]
            pick = r.sample(range(len(cmds)), 3)
            todo = [cmds[q] + ["@"] if cmds[q][-1] != "/" else ["info", "@", "/"] for q in pick]
            for nm in r.sample(names, min(3, len(names))):
                ps = "/" + "/".join(nm)
                todo.append(r.choice([["ls", "@", ps], ["md5", "@", ps], ["info", "@", ps]]))
            todo.append(["md5", "@", "/no/such/path"])
            for a in todo:
                f = r.choice(cs)
                u = cli.run([iso if y == "@" else y for y in a], bx)
                v = cli.run([f if y == "@" else y for y in a], bx)
                e["cmds"].append(dict(c=" ".join(a), a=u.how, b=v.how, same=same_output(u.out, v.out, iso, f)))
    cli.wipe(bx)
    return e


def linear(w, item):
    """The library: the sector-addressed device against a plain one."""
    tag, t = item
    a, b = core.tmp(".a"), core.tmp(".b")
    p = w.ask(dict(op="pack", src="mem", tree=t.harness(), dev="log", out=a), timeout=120)
    x = w.ask(dict(op="pack", src="mem", tree=t.harness(), dev="linear", out=b), timeout=120)
    e = dict(pres=core.outcome(p), cres=core.outcome(x), plain=EMPTY, img=EMPTY, n=0, diffs=[], cont="", cmds=[])
    if e["pres"] == "ok" and e["cres"] == "ok":
        e["plain"], e["img"] = rawimg.parse(a), rawimg.parse(b)
        pa, pb = open(a, "rb").read(), open(b, "rb").read()
        e["n"] = len(pb) // SEC
        for q in range(max(len(pa), len(pb)) // SEC):
            if pa[q * SEC:q * SEC + SEC] != pb[q * SEC:q * SEC + SEC]:
                e["diffs"].append(q)
                if len(e["diffs"]) > 5:
                    break
    core.drop(a, b)
    return e


def scenarios(thorough):
    out = []
    for k in range(50 if not thorough else 800):
        r = gen.rng("compresssc", k)
        if k % 2 == 0:
            out.append(("dir", k, ("dir", host_tree(r, k))))
        else:
            opt = dict(pool_foreign.some_options(r), hi_sec=0)
            base = r.choice([0, 0, 0, 34078720])
            out.append(("image", k, ("img", pool_foreign.some_tree(r, k), opt, base, k % 8 == 3)))
    t = gen.Tree()
    for j, s in enumerate(gen.SIZES + [1 << 20, (1 << 20) + 7]):
        t.add((), "s%d" % s, False, s, off=j * 777)
    out.append(("sizes", 0, ("dir", t)))
    # contents from trivially to not at all compressible around the thresholds
    z = gen.Tree()
    z.add((), "zero", False, 0)
    out.append(("tiny", 0, ("dir", z)))
    w = gen.Tree()
    r = gen.rng("compresswide")
    for j in range(300):
        w.add((), "%03d%s" % (j, "n" * (j % 60)), j % 9 == 0, 0 if j % 9 == 0 else j, r=r)
    out.append(("wide", 0, ("dir", w)))
    out.append(("wide", 1, ("img", w, dict(pool_foreign.some_options(r), hi_sec=0), 0, False)))
    return out


def run(rep, thorough):
    items = scenarios(thorough)
    ev = core.threads(observe, items)
    tags = ["cli-" + x[0] for x in items]
    core.log("compressed", len(ev))
    r = gen.rng("linear")
    sc = gen.fam_sizes(r) + gen.fam_depth(r) + gen.fam_boundaries(r, 20) + gen.fam_reject(r)
    sc = [(a, t) for a, t in sc if t.total() < 64 << 20]
    for k in range(40 if not thorough else 800):
        rr = gen.rng("linearrand", k)
        sc.append(("random", gen.random_tree(rr, small=False)))
    le = core.parallel(linear, sc)
    ev += le
    tags += ["library-" + x[0] for x in sc]
    core.log("library devices", len(le))
    v = core.judge("JCompress", ev)
    rep.judged("JCompress", ev, v, tags)
    rep.rules.append("directories and images compressed by the tool; the container decoded by an independent decoder, compared "
                     "sector by sector with the packed image, and every reading command run on both")
