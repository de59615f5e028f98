"""Checksums of one tree in many layouts, and of trees that differ a little."""
import copy, hashlib, os, re
import cli, core, gen, pool_foreign
from rawimg import SEC, cps
from pool_foreign import OFFSETS, DEVS


class Plain:
    """A tree whose file contents are explicit bytes: {path tuple: bytes or None for a directory}."""

    def __init__(self, nodes):
        self.nodes = nodes

    def ents(self, p=()):
        out = []
        for q, c in self.nodes.items():
            if q[:-1] == p:
                out.append(gen.Ent(q[-1], kids=self.ents(q)) if c is None else gen.Ent(q[-1], data=c))
        return out

    def ref(self):
        """SHA3-256 of the full paths in byte order, each followed by the bytes of the file."""
        hh = hashlib.sha3_256()
        for q in sorted(self.nodes, key=lambda q: ("/" + "/".join(q)).encode()):
            hh.update(("/" + "/".join(q)).encode())
            hh.update(self.nodes[q] or b"")
        return hh.hexdigest()

    def order(self):
        ks = list(self.nodes)
        return [j + 1 for j in sorted(range(len(ks)), key=lambda j: ("/" + "/".join(ks[j])).encode())]

    def event(self, tokens):
        out = []
        for q, c in self.nodes.items():
            if c is not None and len(c) > 12:
                t = [tokens.setdefault(c, 1000 + len(tokens))]
            else:
                t = list(c or b"")
            out.append(dict(p=[cps(x) for x in q], d=c is None, c=t))
        return out


def some_plain(r):
    t = pool_foreign.some_tree(r, 0)
    return Plain({p: None if e["d"] else bytes(gen.content(e)) for p, e in t.nodes() if p})


def perturb(r, t):
    """A tree that differs from t in one respect."""
    n = dict(t.nodes)
    files = [p for p, c in n.items() if c is not None]
    dirs = [p for p, c in n.items() if c is None]
    full = [p for p in files if n[p]]
    how = r.choice(["byte", "byte", "byte", "grow", "shrink", "addfile", "adddir", "remove", "rename", "case", "swap", "move", "renamedir"])
    used = {p[:-1] + (tuple(gen.key(p[-1])),) for p in n}

    def rn(p, q):
        if q[:-1] + (tuple(gen.key(q[-1])),) in used - {p[:-1] + (tuple(gen.key(p[-1])),)}:
            return False
        for x in [x for x in n if x[:len(p)] == p]:
            n[q + x[len(p):]] = n.pop(x)
        return True
    if how == "byte" and full:
        p = r.choice(full)
        b = bytearray(n[p])
        k = r.choice([0, len(b) - 1, len(b) // 2, min(2047, len(b) - 1), min(2048, len(b) - 1), r.randrange(len(b))])
        b[k] ^= r.choice([1, 0x80, 0xff])
        n[p] = bytes(b)
    elif how == "grow" and files:
        p = r.choice(files)
        n[p] += r.choice([b"\0", b"x"])
    elif how == "shrink" and full:
        p = r.choice(full)
        n[p] = n[p][:-1]
    elif how in ("addfile", "adddir"):
        p = r.choice([()] + dirs) + (pool_foreign.some_name(r),)
        if p[:-1] + (tuple(gen.key(p[-1])),) in used:
            return None
        n[p] = None if how == "adddir" else r.choice([b"", b"", b"q"])
    elif how == "remove" and n:
        p = r.choice(sorted(n))
        n = {x: c for x, c in n.items() if x[:len(p)] != p}
    elif how in ("rename", "renamedir") and n:
        p = r.choice(dirs if how == "renamedir" and dirs else sorted(n))
        nm = p[-1]
        k = r.randrange(len(nm))
        q = p[:-1] + (nm[:k] + r.choice("xyz09_") + nm[k + r.choice([0, 1]):],)
        if q == p or q[-1] in (".", "..") or not rn(p, q):
            return None
    elif how == "case" and n:
        p = r.choice(sorted(n))
        q = p[:-1] + (p[-1].swapcase() if p[-1].isascii() else p[-1],)
        if q == p or not rn(p, q):
            return None
    elif how == "swap" and len(files) > 1:
        a, b = r.sample(files, 2)
        n[a], n[b] = n[b], n[a]
        if n[a] == n[b]:
            return None
    elif how == "move" and files and dirs:
        p = r.choice(files)
        q = r.choice([()] + dirs) + (p[-1],)
        if q == p or q[:-1] + (tuple(gen.key(q[-1])),) in used:
            return None
        n[q] = n.pop(p)
    else:
        return None
    return Plain(n)


def build(r, t, offset=False):
    opt = pool_foreign.some_options(r)
    if opt["hi_sec"]:
        opt["hi_sec"] = r.choice([0, 0, 0x200000])
    base = r.choice(OFFSETS) if offset else 0
    path = core.tmp(".img")
    import mkimg
    where = mkimg.build(path, t.ents(), r, base=base, **opt)
    return path, base, where, opt


def host_ok(t):
    return all(x not in (".", "..") and "\0" not in x and "/" not in x and len(x.encode()) < 200 for p in t.nodes for x in p)


def cli_sum(img):
    x = cli.run(["checksum", "-s", img], os.path.dirname(img))
    if x.how != "ok":
        return x.how, ""
    m = re.match(rb"([0-9a-f]{64})\t", x.out)
    return ("ok", m.group(1).decode()) if m else ("garbled", "")


def observe(w, k):
    r = gen.rng("checksum", k)
    t0 = some_plain(r)
    trees = [t0]
    while len(trees) < 5:
        x = None
        for _ in range(20):
            x = perturb(r, r.choice(trees[:2]))
            if x:
                break
        if not x:
            break
        trees.append(x)
    tokens = {}
    e = dict(trees=[t.event(tokens) for t in trees], refs=[dict(ord=t.order(), sum=t.ref()) for t in trees], obs=[])

    def add(t, res, s, via, cut=False):
        e["obs"].append(dict(t=t + 1, res=res, sum=s, via=via, cut=cut))

    def lib(path, dev, t, via, cut=False):
        a = w.ask(dict(op="read", img=path, dev=dev, checksum=True))
        s = a.get("checksum")
        if isinstance(s, str):
            add(t, "ok", s, via, cut)
        else:
            add(t, core.outcome(a) if core.outcome(a) != "ok" else core.outcome(s), "", via, cut)
    for j, t in enumerate(trees):
        reps = 4 if j == 0 else 1
        for c in range(reps):
            off = r.random() < 0.3
            path, base, where, opt = build(r, t, off)
            big = os.path.getsize(path) > 1 << 28
            dev = "offset" if base else r.choice([d for d in DEVS if d != "slice" or not big])
            lib(path, dev, j, "foreign")
            if "cli" in core.BIN and (c == 1 or r.random() < 0.15):
                res, s = cli_sum(path)
                add(j, res, s, "cli")
            if c in (0, 1):     # packed again, compressed
                o = path + ".re"
                a = w.ask(dict(op="pack", src="img", img=path, copier="odefault", dev="file", out=o))
                if core.outcome(a) == "ok":
                    lib(o, "buf", j, "repack")
                core.drop(o)
                if c == 1 and "cli" in core.BIN:
                    x = cli.run(["compress", path, o + ".cso"], os.path.dirname(path))
                    if x.how == "ok":
                        res, s = cli_sum(o + ".1.cso")
                        add(j, res, s, "cso")
                    core.drop(o + ".1.cso", o + ".2.cso", o + ".cso")
            if c == 2 and host_ok(t):    # from a host directory
                d = cli.box()
                for q, data in t.nodes.items():
                    os.makedirs(os.path.join(d, *q[:-1]), exist_ok=True)
                    if data is None:
                        os.makedirs(os.path.join(d, *q), exist_ok=True)
                    else:
                        open(os.path.join(d, *q), "wb").write(data)
                o = path + ".st"
                a = w.ask(dict(op="pack", src="std", root=d, dev="file", out=o))
                if core.outcome(a) == "ok":
                    lib(o, "file", j, "host")
                core.drop(o)
                cli.wipe(d)
            if c == 3:      # data missing at the end
                last = None
                for p, data in t.nodes.items():
                    if data:
                        z = where[p][0] * SEC + len(data)
                        if last is None or z > last:
                            last = z
                tabs = max([33 * SEC] + [(s * SEC + z) for s, z, d in where.values() if d])
                if last and last > tabs:
                    root_end = root_table_end(path, base)
                    if last > root_end:
                        os.truncate(path, base + last - 1)
                        lib(path, "offset", j, "cut", True)
            core.drop(path)
    return e


def root_table_end(path, base):
    import rawimg
    d = rawimg.descriptor(path, base)
    return d[0] * SEC + (d[1] + SEC - 1) // SEC * SEC


def special(w, k):
    """Pairs the order of hashing could confuse."""
    P = [
        [{("a",): b"1", ("b",): b"2"}, {("a",): b"2", ("b",): b"1"}],
        [{("a",): None, ("a", "b"): b"x", ("a b",): b"y"}, {("a",): None, ("a", "b"): b"y", ("a b",): b"x"}],
        [{("a",): None, ("a", "x"): b"1", ("a.b",): b"2", ("a-",): b"3"}, {("a",): None, ("a", "x"): b"3", ("a.b",): b"2", ("a-",): b"1"}],
        [{("A",): b"1", ("b",): b"1"}, {("a",): b"1", ("B",): b"1"}, {("a",): b"1", ("b",): b"1"}, {("A",): b"1", ("B",): b"1"}],
        [{("é",): b"1"}, {("É",): b"1"}, {("e",): b"1"}],
        [{("d",): None}, {("d",): None, ("d", "e"): None}, {}, {("e",): None}],
        [{("x",): b"\0" * 2048}, {("x",): b"\0" * 2047}, {("x",): b"\0" * 2049}, {("x",): b""}],
        [{("d",): None, ("e",): None, ("d", "f"): b"z"}, {("d",): None, ("e",): None, ("e", "f"): b"z"}],
        [{("f",): b"a" * 5000}, {("f",): b"a" * 4999 + b"b"}, {("f",): b"b" + b"a" * 4999}, {("f",): b"a" * 2500 + b"b" + b"a" * 2499}],
        [{("f",): b"a" * 70000}, {("f",): b"a" * 69999 + b"b"}, {("f",): b"b" + b"a" * 69999}],
        [{("f",): b"a" * 1500000}, {("f",): b"a" * 1499999 + b"b"}, {("f",): b"a" * 1048576 + b"b" + b"a" * (1500000 - 1048577)}],
        [{(c,): b"1" for c in "abcdefgh"}, {(c,): b"1" for c in "abcdefg"}, {(c,): b"1" for c in "abcdefgi"}],
        [{("Z",): b"1", ("a",): b"2", ("_",): b"3"}, {("Z",): b"2", ("a",): b"1", ("_",): b"3"}],
        [{("€",): b"1", ("é",): b"2", ("z",): b"3"}, {("€",): b"2", ("é",): b"1", ("z",): b"3"}],
    ]
    r = gen.rng("checksumspecial", k)
    trees = [Plain(n) for n in P[k % len(P)]]
    tokens = {}
    e = dict(trees=[t.event(tokens) for t in trees], refs=[dict(ord=t.order(), sum=t.ref()) for t in trees], obs=[])
    for j, t in enumerate(trees):
        for c in range(3):
            path, base, where, opt = build(r, t)
            a = w.ask(dict(op="read", img=path, dev="buf", checksum=True))
            s = a.get("checksum")
            e["obs"].append(dict(t=j + 1, res="ok" if isinstance(s, str) else "err", sum=s if isinstance(s, str) else "", via="foreign", cut=False))
            core.drop(path)
    return e


SPECIAL = 14


def run(rep, thorough):
    n = 160 if not thorough else 1500
    ev = core.parallel(observe, range(n))
    m = SPECIAL * (1 if not thorough else 5)
    ev += core.parallel(special, range(m))
    core.log("checksums taken", sum(len(e["obs"]) for e in ev))
    v = core.judge("JChecksum", ev)
    rep.judged("JChecksum", ev, v, ["variants"] * n + ["special"] * m)
    rep.extra["checksums"] = sum(len(e["obs"]) for e in ev)
    rep.rules.append("families of trees differing in one respect, each in several layouts, offsets, devices, repacked, "
                     "compressed and from host directories; all pairs of checksums compared")
