"""Packing with a failing or interrupted operation: library (source, device) and tool (system calls)."""
import os
import cli, core, cso, gen, obs, pool_foreign, rawimg
from rawimg import SEC, pair, cps


def want_tree(t):
    return [dict(p=[cps(c) for c in p], d=e["d"], sz=[0, 0] if e["d"] else pair(e["len"]), h=t.cid(e)) for p, e in t.nodes()]


def got_tree(m):
    """Nodes of a parsed image; whole: nothing is missing."""
    out = []
    for t in m["tabs"]:
        for s in t["slots"]:
            d = bool(s["attr"] & 16)
            out.append(dict(p=[cps(obs.dec(c)) for c in t["p"] + [s["n"]]], d=d, sz=[0, 0] if d else s["sz"], h=s["h"]))
    return out, not m["bad"] and all(n["h"] != "TRUNCATED" for n in out)


def api_nodes(tree):
    res, ns = obs.tree_nodes(tree)
    return [dict(p=n["p"], d=n["d"], sz=[0, 0] if n["d"] else n["sz"], h=n["h"]) for n in ns], res == "ok" and all(n["h"] != "ERR" for n in ns)


def ev(kind, want, res="ok", hit=False, acc=False, got=(), whole=False, note=""):
    return dict(kind=kind, want=want, res=res, hit=hit, acc=acc, got=list(got), whole=whole, note=note)


# ---------------------------------------------------------------- library

def library(w, item):
    tag, k, t, img = item
    r = gen.rng("faultlib", tag, k)
    want = want_tree(t)
    out = []
    o = core.tmp(".img")
    src = None
    if img:
        src, _ = pool_foreign.make(r, t, dict(pool_foreign.some_options(r), hi_sec=0))
        req = dict(op="pack", src="img", img=src, copier="default", dev="log", out=o)
    else:
        req = dict(op="pack", src="mem", tree=t.harness(), dev="log", out=o)
    a = w.ask(dict(req, crash=True), timeout=120)
    if core.outcome(a) != "ok":
        out.append(ev("fault", want, core.outcome(a), note="no fault"))
        core.drop(o)
        return out
    n = a["ops"]
    # crash points
    seen = set()
    for c in a["crash"]:
        if not c["accepted"]:
            if "no" in seen:
                continue
            seen.add("no")
            out.append(ev("crash", want, acc=False))
            continue
        g, whole = api_nodes(c["tree"])
        out.append(ev("crash", want, acc=True, got=g, whole=whole, note="op %d cut %d" % (c["op"], c["cut"])))
    lists = len(t.dirs)
    copies = len(t.files())
    todo = [("fail_dev", q) for q in range(1, n + 2)]
    if not img:
        todo += [("fail_list", q) for q in range(1, lists + 2)] + [("fail_copy", q) for q in range(1, copies + 2)]
    if len(todo) > 60:
        todo = r.sample(todo, 60)
    for what, q in todo:
        z = dict(req)
        if what == "fail_dev":
            z["fail_dev"] = q
        else:
            z["tree"] = dict(req["tree"], **{what: q})
        a = w.ask(z, timeout=60)
        res = core.outcome(a)
        hit = q <= dict(fail_dev=n, fail_list=lists, fail_copy=copies)[what]
        e = ev("fault", want, res, hit, note="%s %d" % (what, q))
        if res == "ok":
            m = rawimg.parse(o)
            g, whole = got_tree(m)
            e.update(acc=rawimg.descriptor(o) is not None, got=g, whole=whole)
        out.append(e)
    core.drop(o)
    if src:
        core.drop(src)
    return out


# ---------------------------------------------------------------- the tool

CMDS = ["pack-dir", "pack-img", "compress-dir", "compress-img", "build", "create"]


class Case:
    def __init__(self, k, r, cmd):
        self.cmd = cmd
        t = gen.random_tree(r, n=r.choice([1, 3, 6, 10]), depth=3, small=True, host=True, alphabet=list("abcdefgh.01"))
        big = r.choice([70000, 1 << 20, (1 << 20) + 777, 2500000]) if "compress" not in cmd else r.choice([3000, 20000, 1 << 20])
        t.add((), "zbig", False, big, r=r)
        self.t = t
        self.want = want_tree(t)
        self.src = None
        self.existing = r.random() < 0.4
        if cmd.endswith("img"):
            self.src, _ = pool_foreign.make(r, t, dict(pool_foreign.some_options(r), hi_sec=0), r.choice([0, 34078720]))

    def run(self, fault=None):
        bx = cli.box()
        s, od = os.path.join(bx, "s"), os.path.join(bx, "o")
        os.mkdir(od)
        if self.src:
            os.mkdir(s)
            source = os.path.join(s, "in.iso")
            os.link(self.src, source)
        else:
            source = s
            self.t.write_dir(s)
        out = os.path.join(od, "out.cso" if "compress" in self.cmd else "out.iso")
        real = os.path.join(od, "out.1.cso") if "compress" in self.cmd else out
        if self.existing:
            # an older, longer output of an unrelated source
            open(real, "wb").write(gen.blob()[1][:1 << 20])
        argv0 = "xdvdfs"
        if self.cmd.startswith("pack"):
            a = ["pack", source, out]
        elif self.cmd.startswith("compress"):
            a = ["compress", source, out]
        elif self.cmd == "build":
            a = ["build-image", "-m", "**:/{1}", source, out]
        else:
            argv0, a = "extract-xiso", ["-c", source, out]
        env = None
        log = core.tmp(".log")
        if fault is not None:
            env = dict(fault, VF_DIR=od if fault["VF_KIND"] == "w" else s, VF_LOG=log)
        x = cli.run(a, bx, argv0=argv0, fault=env)
        ops = []
        if os.path.exists(log):
            ops = open(log).read().splitlines()
            core.drop(log)
        got, whole, acc = [], False, False
        if os.path.isfile(real):
            p = real
            if "compress" in self.cmd:
                b, why = cso.decode(open(real, "rb").read())
                y = cli.run(["ls", real], bx)
                acc = y.how == "ok"
                p = core.tmp(".iso")
                open(p, "wb").write(b)
                if why:
                    open(p, "wb").close()
            else:
                acc = rawimg.descriptor(real) is not None
            got, whole = got_tree(rawimg.parse(p))
            if p != real:
                core.drop(p)
        cli.wipe(bx)
        return x, ops, got, whole, acc

    def close(self):
        if self.src:
            core.drop(self.src)


def pick(r, n, per):
    """Operation numbers: the first ones, the last ones, and some between."""
    if n <= per:
        return list(range(1, n + 1))
    return sorted(set(list(range(1, per // 3 + 1)) + list(range(n - per // 3 + 1, n + 1)) + r.sample(range(1, n + 1), per // 3)))


def tool(item):
    cmd, k, per = item
    r = gen.rng("faultcli", cmd, k)
    c = Case(k, r, cmd)
    evs = []
    x, ops, got, whole, acc = c.run()
    evs.append(ev("fault", c.want, x.how, False, acc, got, whole, note="no fault"))
    if x.how != "ok":
        return evs
    for kind in "wr":
        x, ops, got, whole, acc = c.run(dict(VF_KIND=kind, VF_MODE="count"))
        n = len(ops)
        if n == 0:
            raise core.ToolError("the fault shim sees no operations of " + cmd)
        for a in pick(r, n, per):
            op = ops[a - 1].split()[1]
            modes = ["kill", "torn", "err:28", "err:5", "short"] if kind == "w" else ["err:5", "short", "eof"]
            if op in ("open", "opendir"):
                modes = ["kill", "err:5", "err:13"] if kind == "w" else ["err:5", "err:13"]
            if op == "readdir":
                modes = ["err:5"]
            if "compress" in cmd:
                # the container format writes its index last: the crash clause is about plain images
                modes = [m for m in modes if m not in ("kill", "torn")]
            for m in modes if len(ops) < 40 else [r.choice(modes)]:
                if m == "eof" and "compress" in cmd:
                    continue
                x, o2, got, whole, acc = c.run(dict(VF_KIND=kind, VF_MODE=m, VF_AT=str(a)))
                note = "%s %s %s %s" % (cmd, kind, ops[a - 1][:60], m)
                hit = len(o2) >= a
                killed = x.how == "signal" and x.rc == -9
                if killed:
                    evs.append(ev("crash", c.want, "killed", hit, acc, got, whole, note))
                elif m.startswith("err") and not (kind == "r" and c.src):
                    evs.append(ev("fault", c.want, x.how, hit, acc, got, whole, note))
                else:
                    evs.append(ev("soft", c.want, x.how, hit, acc, got, whole, note))
    c.close()
    return evs


def limits(item):
    """The file system is full: every write beyond a size fails."""
    cmd, k = item
    r = gen.rng("faultfull", cmd, k)
    c = Case(k, r, cmd)
    evs = []
    bx = cli.box()
    s = os.path.join(bx, "s")
    source = s
    if c.src:
        os.mkdir(s)
        source = os.path.join(s, "in.iso")
        os.link(c.src, source)
    else:
        c.t.write_dir(s)
    out = os.path.join(bx, "out.cso" if "compress" in cmd else "out.iso")
    real = os.path.join(bx, "out.1.cso") if "compress" in cmd else out
    a = [dict(p="pack", c="compress")[cmd[0]], source, out]
    x = cli.run(a, bx)
    if x.how == "ok":
        full = os.path.getsize(real)
        for n in sorted({full - 1, full - 2048, 32 * SEC, 33 * SEC, 34 * SEC, full // 2, 1, r.randrange(1, full)}):
            if not 0 < n < full:
                continue
            core.drop(real)
            x = cli.run(a, bx, fsize=n)
            e = ev("fault", c.want, x.how, True, note="%s limited to %d of %d" % (cmd, n, full))
            evs.append(e)
    cli.wipe(bx)
    c.close()
    return evs


def run(rep, thorough):
    m = core.model_check("XPack")
    rep.model("XPack", m, "all trees of 3 directories of up to 2 files, a fault or crash (torn or not) at every operation")
    core.refute("XPack", "XPack_x.cfg")
    sc = []
    for k in range(36 if not thorough else 600):
        r = gen.rng("faultsc", k)
        t = gen.random_tree(r, n=r.choice([0, 1, 2, 4, 8, 14]), depth=3, small=r.random() < 0.7)
        sc.append(("library", k, t, k % 4 == 3))
    r = gen.rng("faultfam")
    for tg, t in gen.fam_depth(r)[-4:] + gen.fam_boundaries(r, 3):
        sc.append(("library-" + tg, 0, t, False))
    out = core.parallel(library, sc)
    evs, tags = [], []
    for it, l in zip(sc, out):
        for e in l:
            evs.append(e)
            tags.append(it[0] + "-" + e["kind"])
    core.log("library runs", len(evs))
    items = [(cmd, k, 12 if not thorough else 60) for k in range(3 if not thorough else 20) for cmd in CMDS]
    for it, l in zip(items, core.threads(tool, items)):
        for e in l:
            evs.append(e)
            tags.append(it[0] + "-" + e["kind"])
    lim = [(cmd, k) for k in range(3 if not thorough else 15) for cmd in ("pack-dir", "pack-img", "compress-dir", "compress-img")]
    for it, l in zip(lim, core.threads(limits, lim)):
        for e in l:
            evs.append(e)
            tags.append(it[0] + "-full")
    core.log("all runs", len(evs))
    v = core.judge("JFault", evs)
    core.log("judged", len(evs))
    rep.judged("JFault", evs, v, tags, info=lambda i: evs[i]["note"])
    rep.rules.append("every single listing, copy and device operation failed and every prefix of the device writes (also torn) taken as a crash, at "
                     "library level; system calls of the tool failed, cut short or killed; the reported result and the output judged")
