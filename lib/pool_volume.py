"""Where volumes are found: every combination of candidate partitions, intact, damaged and cut off."""
import json, os, re, signal, socket, struct, subprocess
import cli, core, fuse, gen
from rawimg import MAGIC, SEC

OFFSETS = [0, 405798912, 265879552, 34078720]


def partition(r, c):
    """A small volume holding one file 'p<c>' with content 'c': its sector 32, and what is elsewhere."""
    rs, size, fs = r.choice([(33, SEC, 34), (33, 16, 34), (33, 2 * SEC, 35), (0, SEC, 1), (5, 16, 0), (31, SEC, 33), (40, SEC, 33), (900, 3 * SEC, 40)])
    vd = bytearray(r.randbytes(SEC))
    vd[:20] = MAGIC
    vd[20:28] = struct.pack("<II", rs, size)
    vd[-20:] = MAGIC
    nm = b"p%d" % c
    tab = (struct.pack("<HHIIBB", 0, 0, fs, 3, r.choice([0x20, 0, 0x80, 1, 7]), len(nm)) + nm).ljust(SEC, b"\xff")
    return vd, {rs: tab[:size].ljust(size, b"\xff"), fs: b"P%dx" % c}


def damage(r, vd, which, pos=None):
    k = (0 if which == "m0" else SEC - 20) + (r.randrange(20) if pos is None else pos)
    vd[k] ^= r.choice([1, 2, 4, 8, 16, 32, 64, 128, 0xff])


def write(path, cand, r, pos=None):
    end = None
    with open(path, "wb") as f:
        for c, s in enumerate(cand, 1):
            o = OFFSETS[c - 1]
            vd, rest = partition(r, c)
            if s in ("m0", "m1"):
                damage(r, vd, s, pos)
            if s == "none" and r.random() < 0.5:
                vd = bytearray(SEC)     # an empty sector; otherwise nothing is written
            elif s == "none":
                continue
            if s == "cut":
                end = o + 32 * SEC + r.choice([0, 1, 20, 1000, SEC - 20, SEC - 1])
            f.seek(o + 32 * SEC)
            f.write(vd)
            for q, d in rest.items():
                f.seek(o + q * SEC)
                f.write(d)
        if end is not None:
            f.truncate(end)
    if r.random() < 0.3 and end is None:
        os.truncate(path, os.path.getsize(path) + r.randrange(5000))


READ_CMDS = ["ls", "tree", "md5", "checksum", "info", "unpack", "copy-out", "pack", "compress", "exl", "exx", "exr"]


def cli_answer(img, cmd, box):
    """Runs one command; which partition did it show?"""
    out = os.path.join(box, "out")
    argv0 = "xdvdfs"
    a = {"ls": ["ls", img], "tree": ["tree", img], "md5": ["md5", img], "checksum": ["checksum", img], "info": ["info", img, "/"],
         "unpack": ["unpack", img, out], "copy-out": ["copy-out", img, "/", out], "pack": ["pack", img, out + ".iso"],
         "compress": ["compress", img, out + ".cso"]}.get(cmd)
    if cmd in ("exl", "exx", "exr"):
        argv0 = "extract-xiso"
        a = {"exl": ["-l", img], "exx": ["-d", out, "-x", img], "exr": ["-r", img]}[cmd]
    x = cli.run(a, box, argv0=argv0)
    if x.how == "err":
        return 0
    if x.how != "ok":
        return -1
    if cmd in ("unpack", "copy-out", "exx"):
        s = cli.snap(out)
        if len(s) != 1:
            return -1
        n = next(iter(s))
        c = int(n[1:]) if re.fullmatch(r"p[1-4]", n) else -1
        return c if c > 0 and open(os.path.join(out, n), "rb").read() == b"P%dx" % c else -1
    if cmd in ("pack", "exr", "compress", "checksum"):
        if cmd == "checksum":
            return None
        y = cli.run(["md5", {"pack": out + ".iso", "exr": img, "compress": out + ".1.cso"}[cmd]], box)
        if cmd == "compress" and y.how != "ok":
            return -1
        text = y.out
    else:
        text = x.out
    m = set(re.findall(rb"\bp([1-4])\b", text))
    return int(m.pop()) if len(m) == 1 else -1


def daemon_answer(img):
    d = fuse.Daemon(img, timeout=15)
    try:
        if not d.up:
            return 0 if d.dead.how == "exit" and d.dead.rc == 1 else -1
        try:
            e, l = d.readdir(1, 0, 4096)
            n = [x[2] for x in l if x[2] not in (b".", b"..")]
            if e or len(n) != 1 or not re.fullmatch(rb"p[1-4]", n[0]):
                return -1
            e, b = d.read(l[-1][0], 0, 100)
            c = int(n[0][1:])
            return c if not e and b == b"P%dx" % c else -1
        except fuse.Dead:
            return -1
    finally:
        d.close()


def fork_answer(img):
    """The forking daemon: exit status of the parent, and the mounted contents of the child."""
    a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
    mp = cli.box("mp")
    env = dict(os.environ, LD_PRELOAD=core.BIN["fuse"], VERIF_FUSE_FD=str(b.fileno()), TOKIO_WORKER_THREADS="1")
    p = subprocess.Popen([core.BIN["fsd"], img, mp], env=env, pass_fds=[b.fileno()], start_new_session=True,
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    b.close()
    try:
        try:
            rc = p.wait(timeout=15)
        except subprocess.TimeoutExpired:
            return -1
        if rc == 1:
            return 0
        if rc != 0:
            return -1
        d = fuse.Daemon.__new__(fuse.Daemon)
        d.a, d.u, d.timeout, d.p = a, 1, 15, p
        try:
            d.req(fuse.INIT, 0, struct.pack("<IIII", 7, 31, 65536, 0))
            e, l = d.readdir(1, 0, 4096)
        except fuse.Dead:
            return -1
        n = [x[2] for x in l if x[2] not in (b".", b"..")]
        return int(n[0][1:]) if len(n) == 1 and re.fullmatch(rb"p[1-4]", n[0]) else -1
    finally:
        a.close()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.rmdir(mp)


def ask_lib(w, img, dev):
    a = w.ask(dict(op="read", img=img, dev=dev, tree=True))
    o = core.outcome(a)
    if o == "err":
        return 0, 0
    if o != "ok":
        return -1, -1
    t = a["tree"]
    off = OFFSETS.index(a["offset"]) + 1 if a.get("offset") in OFFSETS else -1 if "offset" in a else 0
    if not isinstance(t, list) or len(t) != 1 or not re.fullmatch(r"p[1-4]", t[0]["name"] or ""):
        return -1, off
    c = int(t[0]["name"][1:])
    return (c if t[0].get("h") == core_hash(b"P%dx" % c) else -1), off


def core_hash(b):
    import rawimg
    return rawimg.h(b)


def observe(w, item):
    tag, k, cand, pos = item
    r = gen.rng("volume", tag, k)
    bx = cli.box()
    img = os.path.join(bx, "image.iso")
    write(img, cand, r, pos)
    e = dict(cand=cand)
    e["lib"], e["off"] = ask_lib(w, img, "offset")
    e["raw"] = ask_lib(w, img, r.choice(["file", "buf", "dyn"]))[0]
    e["cli"] = []
    full = "full" in cand
    cmds = ["ls"] + r.sample([c for c in READ_CMDS if c not in ("exr", "ls")], 1 if full else 2)
    e["fsd"] = daemon_answer(img)
    e["fork"] = fork_answer(img) if k % 3 == 0 else -2
    if k % 5 == 0 or not full:
        cmds.append("exr")
    for c in cmds:
        a = cli_answer(img, c, bx)
        if a is not None:
            e["cli"].append(dict(cmd=c, ans=a))
        cli.wipe(os.path.join(bx, "out"))
        if c == "exr":
            break
    cli.wipe(bx)
    return e


def odd(thorough):
    """Images that are not about the candidates: descriptors in wrong places, short files."""
    out = []
    for k in range(40):
        out.append(("damage-each-byte", 1000 + k, ["m0" if k < 20 else "m1", "none", "none", "none"], k % 20))
        if thorough or k % 4 == 1:
            for c in (1, 2, 3):
                cand = ["none"] * 4
                cand[c] = "m0" if k < 20 else "m1"
                out.append(("damage-each-byte", 1100 + 4 * k + c, cand, k % 20))
    return out


def misplaced(w, k):
    """A complete volume at a place where none may be: everything must reject it."""
    r = gen.rng("misplaced", k)
    bx = cli.box()
    img = os.path.join(bx, "image.iso")
    base = r.choice(OFFSETS) + r.choice([SEC, -SEC, 1, -1, 32 * SEC, -32 * SEC, 0x10000, 512, 4096, 123456])
    base = max(base, 1)
    with open(img, "wb") as f:
        if k % 4 == 0:
            f.write(r.randbytes(r.choice([0, 1, 20, 2048, 65536, 67583])))
        else:
            vd, rest = partition(r, 1)
            rest[32] = vd
            for q, d in rest.items():
                f.seek(base + q * SEC)
                f.write(d)
    none = ["none"] * 4
    e = dict(cand=none)
    e["lib"], e["off"] = ask_lib(w, img, "offset")
    e["raw"] = ask_lib(w, img, "file")[0]
    e["cli"] = [dict(cmd=c, ans=cli_answer(img, c, bx) or 0) for c in ("ls", r.choice(READ_CMDS[1:-1]))]
    e["fsd"] = daemon_answer(img)
    e["fork"] = -2
    cli.wipe(bx)
    return e


def run(rep, thorough):
    r = core.model_check("MC_Volume")
    rep.model("MC_Volume", r, "all states of the four candidates")
    sc = [json.loads(json.loads(x)[5:]) for x in re.findall(r'^"SCEN .*"$', r.out, re.M)]
    if len(sc) != r.out.count("SCEN ") or not sc:
        raise core.ToolError("cannot read scenarios")
    items = [("candidates", k, c, None) for k, c in enumerate(sc)] + odd(thorough)
    ev = core.parallel(observe, items)
    n = 40 if not thorough else 300
    ev += core.parallel(misplaced, range(n))
    tags = [x[0] for x in items] + ["misplaced"] * n
    core.log("images asked", len(ev))
    v = core.judge("JVolume", ev)
    rep.judged("JVolume", ev, v, tags)
    rep.rules.append("every combination of intact, damaged, absent and cut-off descriptors at the four partition offsets "
                     "(enumerated by TLC), given to the library, the command line tool and the daemon")
