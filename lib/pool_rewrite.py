"""extract-xiso -r, ended normally, failed at every file operation, and killed at every file operation."""
import os
import cli, core, gen, pool_foreign, rawimg
from rawimg import SEC

EMPTY = dict(len=[0, 0], root=dict(sec=0, size=0), tabs=[], bad="absent")


class Case:
    """One command line on one set of images, built afresh for every run.  sc: a run of the model."""

    def __init__(self, k, r, sc=None):
        self.k = k
        self.rel = r.random() < 0.5
        self.up = r.random() < 0.5
        self.ext = r.choice(["iso", "iso", "xiso", "img"])
        self.link = r.random() < 0.15
        self.left = []
        if sc:
            self.delete = sc["delete"]
            self.place = [(d, "%s.%s" % (s, x)) for d, s, x in sc["list"]]
            self.dest = sc["dir"]
            self.left = [(d, "%s.%s" % (s, x)) for d, s, x in sc["left"]]
            self.free = sc["res"] == "ok"
            self.bad = self.trunc = False
        else:
            self.delete = r.random() < 0.5
            n = r.choice([1, 1, 1, 2, 3])
            self.place = [("in", "game%d.%s" % (j, self.ext)) for j in range(n)]
            self.dest = "" if r.random() < 0.55 else "in" if r.random() < 0.2 else "out"
            self.free = True
            self.bad = r.random() < 0.1
            self.trunc = r.random() < 0.1
        self.uniq = sorted(set(self.place), key=self.place.index)
        self.data = []
        for j in range(len(self.uniq)):
            t = gen.random_tree(r, n=r.choice([0, 2, 4, 7]), depth=3, small=True, host=True, alphabet=list("abcdefgh.01"))
            t.add((), "zmark%d" % j, False, 700 + j, r=r)
            if r.random() < 0.5 and not sc:
                t.add((), "zbig", False, r.choice([(1 << 20) + 5, 1500000, 300000]), r=r)
            base = r.choice([0, 0, 0, 34078720]) if not sc else 0
            p, where = pool_foreign.make(r, t, dict(pool_foreign.some_options(r), hi_sec=0), base)
            if self.trunc and j == 0:
                last = max([34] + [x["sec"] + (x["size"] + SEC - 1) // SEC for x in rawimg.parse(p, base)["tabs"]])
                ends = [base + where[q][0] * SEC + e["len"] - 1 for q, e in t.files() if e["len"] and where[q][0] >= last]
                if ends:
                    os.truncate(p, max(ends))
            if self.bad and j == len(self.uniq) - 1:
                # not an image, or not even a file
                b = r.choice([b"not an image" * 1000, b"", None])
                core.drop(p)
                self.data.append((None, b, 0))
            else:
                self.data.append((rawimg.parse(p, base), p, base))

    def clean(self):
        for m, p, b in self.data:
            if m is not None:
                core.drop(p)

    def run(self, fault=None):
        bx = cli.box()
        w = os.path.join(bx, "w")
        for d in {"in", "out", self.dest or "in"} | {d for d, n in self.place + self.left}:
            os.makedirs(os.path.join(w, d))
        orig = {}
        for (m, p, b), (d, n) in zip(self.data, self.uniq):
            f = os.path.join(w, d, n)
            if m is None and p is None:
                os.makedirs(f + "/sub")
                open(f + "/sub/file", "w").write("content")
            elif m is None:
                open(f, "wb").write(p)
            else:
                core_copy(p, f)
            orig[d, n] = digest(f)
        strangers = [w + "/in/bystander", w + "/out/bystander.iso"] + [os.path.join(w, d, n) for d, n in self.left]
        for f in strangers:
            open(f, "w").write(f)
        args = []
        if self.delete:
            args.append("-D")
        cwd = w if self.up else w + "/in"
        if self.dest:
            d = os.path.join(w, self.dest)
            args += ["-d", os.path.relpath(d, cwd) if self.rel else d]
        given = []
        for d, n in self.place:
            f = os.path.join(w, d, n)
            given.append(os.path.relpath(f, cwd) if self.rel else f)
        env = dict(fault or {})
        log = core.tmp(".log")
        if fault is not None:
            env.update(VF_DIR=w, VF_LOG=log)
        x = cli.run(args + ["-r"] + given, cwd, argv0="extract-xiso", fault=env if fault is not None else None)
        ops = 0
        if os.path.exists(log):
            ops = open(log).read().count("\n")
            core.drop(log)
        imgs = []
        for j, (d, n) in enumerate(self.uniq):
            m, p, b = self.data[j]
            a = os.path.join(w, d, n)
            # an .old file that was there before is somebody else's
            olds = [q for q in (os.path.splitext(a)[0] + ".old", a + ".old") if os.path.exists(q) and q not in strangers]
            out = os.path.join(w, self.dest or d, n)
            same = lambda q: os.path.exists(q) and digest(q) == orig[d, n]
            imgs.append(dict(orig=m or EMPTY, valid=m is not None and not (self.trunc and j == 0) and self.free, name=same(a),
                             old=any(same(q) for q in olds), gone=not olds, out=self.parse(out, b),
                             again=self.place.count((d, n)) > 1, outs=[self.parse(q, b) for q in olds + [a]] if self.place.count((d, n)) > 1 else []))
        ok = all(os.path.exists(f) and open(f, "rb").read() == f.encode() for f in strangers)
        cli.wipe(bx)
        mode = (fault or {}).get("VF_MODE", "")
        hit = fault is not None and "VF_AT" in fault and ops >= int(fault["VF_AT"])
        res = "killed" if x.how == "signal" and x.rc == -9 else x.how
        return dict(delete=self.delete, res=res, imgs=imgs, others=ok, cmd=" ".join(args + ["-r"] + given), why=mode,
                    fault="err" if hit and mode.startswith("err") else "none" if not hit else "soft"), ops

    def parse(self, p, base):
        if not os.path.isfile(p):
            return EMPTY
        m = rawimg.parse(p)
        if m["bad"] and base and rawimg.descriptor(p, base):
            m = rawimg.parse(p, base)
        return m


def core_copy(a, b):
    """Copies a file keeping its holes."""
    import subprocess
    subprocess.run(["cp", "--sparse=always", a, b], check=True)


def digest(p):
    import hashlib
    h = hashlib.sha256()
    if os.path.isdir(p):
        return repr(sorted((k, v) for k, v in cli.snap(p).items()))
    n = os.path.getsize(p)
    with open(p, "rb") as f:
        # holes of images at an offset are skipped
        if n > 40 << 20:
            h.update(b"%d" % n)
            f.seek(34078720)
        for c in iter(lambda: f.read(1 << 20), b""):
            h.update(c)
    return h.hexdigest()


def case(item):
    k, per, sc = item
    r = gen.rng("rewrite", "model" if sc else "", k)
    c = Case(k, r, sc)
    evs = [c.run()[0]]
    if not per:
        c.clean()
        return evs
    for kind in "wr":
        e, n = c.run(dict(VF_KIND=kind, VF_MODE="count"))
        if n == 0 and (e["res"] != "ok" or not c.place):
            continue
        if n == 0:
            raise core.ToolError("the fault shim sees no operations")
        modes = ["kill", "torn", "err:28", "err:5"] if kind == "w" else ["err:5", "err:13", "kill", "short", "eof"]
        todo = [(a, m) for a in range(1, n + 1) for m in modes]
        if len(todo) > per:
            todo = r.sample(todo, per)
        for a, m in todo:
            evs.append(c.run(dict(VF_KIND=kind, VF_MODE=m, VF_AT=str(a)))[0])
    c.clean()
    return evs


def run(rep, thorough):
    m = core.model_check("MC_Rewrite")
    rep.model("MC_Rewrite", m, "lists of up to three of four images whose .old names and destinations clash, .old files left from before, "
              "every option, a fault or a crash at every step")
    for x in "xyz":
        core.refute("MC_Rewrite", "MC_Rewrite_%s.cfg" % x)
    sc = core.scenarios(m)
    r = gen.rng("rewritesc")
    r.shuffle(sc)
    n = 260 if not thorough else len(sc)
    items = [(k, 20 if not thorough else 400, None) for k in range(26 if not thorough else 150)]
    items += [(k, 0 if k % 20 else 6 if not thorough else 12, s) for k, s in enumerate(sc[:n])]
    res = core.threads(case, items)
    ev, tags = [], []
    for it, l in zip(items, res):
        ev += l
        tags += [("model-" if it[2] else "") + "%s%s" % (e["res"], "-" + e["why"].split(":")[0] if e["why"] else "") for e in l]
    core.log("rewrites run", len(ev))
    v = core.judge("JRewrite", ev)
    rep.judged("JRewrite", ev, v, tags, info=lambda i: ev[i]["cmd"])
    rep.rules.append("command lines of one to three images (valid, truncated, invalid, directories; raw and with partition offset; model lists with "
                     "clashing names), run normally and with every kind of failure or kill at file operations; the surviving files judged")
