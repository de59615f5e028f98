"""Packing commands and what they do to the files around them."""
import os, shutil
import cli, core, gen, rawimg

FS0 = [("w", "d"), ("w/src", "d"), ("w/src/sub", "d"), ("w/src/f", "f"), ("w/src/sub/g", "f"), ("w/src.d", "d"), ("w/src.d/h", "f"),
       ("w/srcx", "d"), ("w/img.iso", "i"), ("w/o", "d"), ("w/ls", "l", False, "src"), ("w/li.iso", "l", False, "img.iso"),
       ("w/o/lsub", "l", False, "../src/sub"), ("w/o/lw", "l", True, "w"), ("w/o/old.iso", "f")]
_iso = []


def iso():
    if not _iso:
        bx = cli.box()
        t = gen.Tree()
        t.add((), "x", False, 3000, off=5)
        t.add((), "d", True)
        t.add(("d",), "y", False, 10, off=50)
        t.write_dir(bx + "/t")
        x = cli.run(["pack", "t", "t.iso"], bx)
        if x.how != "ok":
            # the packer itself is broken; an independent image will do
            import mkimg
            mkimg.build(bx + "/t.iso", t.ents(), gen.rng("guardiso"))
        _iso.append(open(bx + "/t.iso", "rb").read())
        cli.wipe(bx)
    return _iso[0]


def create(root, fs):
    for f in fs:
        p = os.path.join(root, f[0])
        if f[1] == "d":
            os.makedirs(p)
        elif f[1] == "f":
            open(p, "wb").write(b"contents of " + f[0].encode() * 50)
        elif f[1] == "i":
            open(p, "wb").write(iso())
        else:
            os.symlink(os.path.join(root, f[3]) if f[2] else f[3], p)


def fs_event(fs):
    return [dict(p=f[0].split("/"), t="f" if f[1] == "i" else f[1],
                 to=dict(abs=len(f) > 2 and f[2], c=f[3].split("/") if len(f) > 2 else [])) for f in fs]


def spell(root, s):
    return os.path.join(root, *s["c"]) if s["abs"] else "/".join(s["c"])


def ext(name, e):
    return os.path.splitext(name)[0] + e


def observe(item):
    tag, k, fs, cwd, src, out, cmd, valid = item
    bx = cli.box()
    create(bx, fs)
    before = cli.snap(bx)
    d = os.path.join(bx, *cwd)
    s, o = spell(bx, src), spell(bx, out) if out else None
    tgt = out
    guarded = True
    argv0 = "xdvdfs"
    real = os.path.relpath(os.path.realpath(os.path.join(d, s)), os.path.realpath(bx)).split("/")
    isdir = os.path.isdir(os.path.join(d, s))
    if cmd == "pack":
        a = ["pack", s] + ([o] if o else [])
        if not o:
            n = real[-1] + ".iso" if isdir else ext(real[-1], ".iso")
            if cwd + [n] == real:
                n = ext(real[-1], ".xiso.iso")
            out = tgt = dict(abs=False, c=[n])
    elif cmd == "compress":
        a = ["compress", s] + ([o] if o else [])
        if not o:
            out = dict(abs=False, c=[real[-1] + ".cso" if isdir else ext(real[-1], ".cso")])
        tgt = dict(abs=out["abs"], c=out["c"][:-1] + [ext(out["c"][-1], ".1.cso")])
    elif cmd == "create":
        argv0 = "extract-xiso"
        a = ["-c", s] + ([o] if o else [])
        if not o:
            out = tgt = dict(abs=True, c=real[:-1] + [ext(real[-1], ".iso")])
    else:
        guarded = False
        a = ["build-image", "-m", "**:/{1}", s, o]
    x = cli.run(a, d, argv0=argv0)
    after = cli.snap(bx)
    ch = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
    cli.wipe(bx)
    return dict(fs=fs_event(fs), cwd=cwd, src=src, out=out, tgt=tgt, guarded=guarded, valid=valid, res=x.how,
                changed=[p.split("/") for p in ch], cmd=" ".join(a))


def usable(cmd, sc):
    if cmd in ("compress",) and sc["out"]["c"][-1] in (".", ".."):
        return False
    image = sc["src"]["c"][-1] in ("img.iso", "li.iso")
    return not (cmd in ("create", "build") and image)


def run(rep, thorough):
    m = core.model_check("MC_Guard", cfg="MC_Guard_t.cfg" if thorough else None)
    rep.model("MC_Guard", m, "15 file system objects, 3 working directories, up to 15 spellings of the source, all spellings of the "
              "output of up to %d components" % (3 if thorough else 2))
    core.refute("MC_Guard", "MC_Guard_x.cfg")
    sc = core.scenarios(m)
    r = gen.rng("guard")
    r.shuffle(sc)
    items = []
    for k, s in enumerate(sc[:900] if not thorough else sc):
        cmd = r.choice([c for c in ["pack", "pack", "compress", "create", "build"] if usable(c, s)])
        items.append(("spelling-" + cmd, k, FS0, s["cwd"], s["src"], s["out"], cmd, True))
    seen = set()
    for s in sc:
        for cmd in ("pack", "compress", "create"):
            key = (tuple(s["cwd"]), str(s["src"]), cmd)
            if key in seen or not usable(cmd, dict(src=s["src"], out=dict(c=["x"]))):
                continue
            seen.add(key)
            items.append(("default-" + cmd, len(items), FS0, s["cwd"], s["src"], None, cmd, True))
    rel = lambda *c: dict(abs=False, c=list(c))
    # an image named like the output of its own compression
    fs = FS0 + [("w/x.1.cso", "i"), ("w/x.xiso.iso", "i"), ("w/n", "i")]
    for o in (rel("x.cso"), rel("x.iso"), rel("o", "..", "x.y"), rel("o", "lw", "x"), rel("ls", "..", "x.cso"), rel("x.2.cso"), rel("y.cso"),
              rel("x.1.cso"), rel("o", "x.cso")):
        items.append(("parts", 0, fs, ["w"], rel("x.1.cso"), o, "compress", True))
    for n in ("x.1.cso", "x.xiso.iso", "n"):
        for cmd in ("pack", "compress"):
            items.append(("default-named", 0, fs, ["w"], rel(n), None, cmd, True))
            items.append(("default-named", 0, fs, ["w", "o"], rel("..", n), None, cmd, True))
    # sources that cannot be packed: only the output may suffer
    bad = [FS0 + [("w/src/\u65e5\u672c", "f")], FS0 + [("w/src/F", "f")], [f for f in FS0 if f[0] != "w/img.iso"] + [("w/img.iso", "f")],
           FS0 + [("w/src/sub/dangling", "l", False, "nowhere")], FS0 + [("w/src/" + "n" * 130, "d"), ("w/src/sub/" + "\u00e9" * 127, "f")],
           FS0 + [("w/src/sub/up", "l", False, "../sub2")]]
    for q, fs in enumerate(bad):
        for n in (["src"], ["ls"], ["img.iso"], ["li.iso"]):
            for o in (rel("new.iso"), rel("o", "old.iso"), rel("src", "sub", "g"), rel("src", "new"), rel("img.iso"), rel("li.iso"), rel("o", "lsub", "g"),
                      rel("src.d", "h")):
                for cmd in ("pack", "compress", "create"):
                    if n[-1] in ("img.iso", "li.iso") and (cmd == "create" or q != 2):
                        continue
                    items.append(("unpackable-" + cmd, q, fs, ["w"], rel(*n), o, cmd, False))
    ev = core.threads(observe, items)
    core.log("commands run", len(ev))
    v = core.judge("JGuard", ev)
    core.log("judged", len(ev))
    rep.judged("JGuard", ev, v, [x[0] for x in items], info=lambda i: ev[i]["cmd"])
    rep.rules.append("spellings of source and output enumerated by the model, default outputs, unpackable sources; every object of the "
                     "scratch file system compared before and after the real command")
