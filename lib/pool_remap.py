"""Map rules: overlays from the library and the command line tool, over modelled and random rules."""
import os, re
import cli, core, gen, rawimg, mkimg
from rawimg import cps
from obs import dec

# the universe of MC_Remap: (path, is directory), in listing order; its globs and rewrites as text and as tokens
UNI = [("a", 1), ("b", 0), ("c", 1), ("a/b", 1), ("a/x", 0), ("a/b/x", 0), ("c/b", 0), ("c/x", 0)]


def lit(s):
    return dict(k="lit", s=cps(s))


STAR, ONE, DIRS, REST, ALL = (dict(k=k) for k in ("star", "one", "dirs", "rest", "all"))
GLOBS = [("a", [lit("a")]), ("c", [lit("c")]), ("*", [STAR]), ("**/x", [DIRS, lit("x")]), ("a/*", [lit("a/"), STAR]),
         ("**/*/b", [DIRS, STAR, lit("/b")]), ("**", [ALL]), ("a/**", [lit("a"), REST])]
REWS = ["/", "b", "{1}", "{0}", "b/{1}", "x/{0}"]


def rewrite(s):
    out = []
    for x in re.split(r"(\{\d+\})", s):
        if re.fullmatch(r"\{\d+\}", x):
            out.append(dict(k="sub", n=int(x[1:-1])))
        elif x:
            out.append(lit(x))
    return out


def esc(s):
    return "".join("\\" + c if c in "?*$:<>()[]{},\\" else c for c in s)


def glob_for(r, path):
    """A glob that matches the path, as text and tokens."""
    x = r.random()
    if x < 0.05:
        return r.choice([("**", [ALL]), ("/**", [ALL])])
    comps = path.split("/")
    text, toks = "", []

    def add(t, k):
        nonlocal text
        text += t
        if k["k"] == "lit" and toks and toks[-1]["k"] == "lit":
            toks[-1] = dict(k="lit", s=toks[-1]["s"] + k["s"])
        else:
            toks.append(k)
    n = len(comps)
    cut = r.randrange(n) if n > 1 and r.random() < 0.35 else 0     # components replaced by a leading **/
    tail = r.random() < 0.15 and n - cut > 1
    if cut or r.random() < 0.15:
        add("**/", DIRS)
    rest = comps[cut:]
    if tail:
        rest = rest[:r.randrange(1, len(rest))]
    mid = None
    if len(rest) > 2 and r.random() < 0.2:
        mid = r.randrange(1, len(rest) - 1)
    for j, c in enumerate(rest):
        if mid is not None and j == mid:
            add("**/", DIRS)
            continue
        comp(r, c, add)
        if j < len(rest) - 1:
            add("/", lit("/"))
    if tail:
        add("/**", REST)
    return text, toks


def comp(r, c, add):
    x = r.random()
    if len(c) > 9 and x < 0.6:
        # more than nine matches
        for ch in c:
            if r.random() < 0.9 or ch in "[]!-\\^&~":
                add("?", ONE)
            elif r.random() < 0.5:
                add("[" + ch + "xyz]", dict(k="class", s=cps(ch + "xyz"), neg=False))
            else:
                add(esc(ch), lit(ch))
        return
    if x < 0.45:
        add(esc(c), lit(c))
    elif x < 0.6:
        add("*", STAR)
    elif x < 0.75 and "." in c[1:]:
        i = c.index(".", 1)
        kind = r.choice(["*.x", "x.*", "*.*", "*.{}"])
        if kind[0] == "*":
            add("*", STAR)
        else:
            add(esc(c[:i]), lit(c[:i]))
        add(".", lit("."))
        if kind.endswith("*"):
            add("*", STAR)
        elif kind.endswith("{}"):
            alts = list(dict.fromkeys([c[i + 1:] or "q"] + [r.choice(["c", "ab", "txt", "q", "a", "bin"]) for _ in range(r.randrange(1, 3))]))
            if len(alts) < 2:
                alts.append("zz")
            r.shuffle(alts)
            add("{" + ",".join(esc(a) for a in alts) + "}", dict(k="alt", b=[[lit(a)] for a in alts]))
        else:
            add(esc(c[i + 1:] or "q"), lit(c[i + 1:] or "q"))
    elif x < 0.85:
        i = r.randrange(len(c))
        if c[:i]:
            add(esc(c[:i]), lit(c[:i]))
        if r.random() < 0.5 or c[i] in "[]!-\\^&~":
            add("?", ONE)
        else:
            neg = r.random() < 0.3
            s = [c[i]] if not neg else ["q"]
            s += [r.choice("abcxyz") for _ in range(2)]
            add("[" + ("!" if neg else "") + "".join(s) + "]", dict(k="class", s=cps("".join(s)), neg=neg))
        if c[i + 1:]:
            add(esc(c[i + 1:]), lit(c[i + 1:]))
    else:
        i = r.randrange(len(c))
        if c[:i]:
            add(esc(c[:i]), lit(c[:i]))
        add("*", STAR)
        if c[i + 1:]:
            add(esc(c[i + 1:]), lit(c[i + 1:]))


NAMES = ["a", "b", "c", "x", "ab", "abc", "x.c", "y.c", "x.txt", "x.a.c", "readme", ".dot", "data.bin", "d1", "e f", "é", "a-b", "x{1}", "{2}y",
         "v{0}", "c.c", "bin", "sound", "aa", "aab", "y.", ".c", "a+b", "p^q", "m~n", "k=v", "#1", "100%",
         "track00112233.wma", "abcdefghijklm", "q\"t", "it's"]


def tree(r):
    t = gen.Tree()
    ps = [()]
    for _ in range(r.choice([3, 6, 8, 12, 16, 20])):
        p = r.choice(ps)
        nm = r.choice(NAMES)
        isd = r.random() < 0.4 and len(p) < 4
        if t.add(p, nm, isd, 0 if isd else r.choice([9, 40, 2048, 3000]), r=r) and isd:
            ps.append(p + (nm,))
    return t


def rules_for(r, t):
    paths = ["/".join(p) for p, e in t.nodes()] or ["a"]
    out = []
    for _ in range(r.choice([1, 1, 2, 2, 3, 4, 5])):
        g = glob_for(r, r.choice(paths))
        caps = sum(1 for x in g[1] if x["k"] != "lit")
        neg = r.random() < 0.25 and len(out) > 0
        parts = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            parts.append(r.choice(["{1}", "{1}", "{2}", "{3}", "{0}", "{%d}" % max(caps, 1), "{%d}" % r.randrange(1, max(caps, 1) + 2), "{%d}-{%d}" % (max(caps, 1), r.randrange(1, max(caps, 1) + 1)), "o", "out", "a", "b", "x.c", "q."]))
        w = r.choice(["/", "", "/", "./", "../", "/out/"]) + "/".join(parts[:2]) + "".join(parts[2:]) + r.choice(["", "", "/"])
        if r.random() < 0.15:
            w = r.choice(["/", "", ".", "./", "/{0}", "{0}", "{1}{2}"])
        out.append((("!" if neg else "") + g[0], "" if neg and r.random() < 0.7 else w, g[1], neg))
    return out


def fixed_trees():
    t = gen.Tree()
    off = 0
    for p, d in UNI:
        c = tuple(p.split("/"))
        off += 100
        t.add(c[:-1], c[-1], bool(d), 0 if d else 20, off=off)
    return t


def hosts(t, ordered):
    out = []
    for p, l in t.dirs.items():
        for j, e in enumerate(l):
            out.append(dict(p=[cps(c) for c in p + (e["n"],)], d=e["d"], h=t.cid(e), pos=j + 1 if ordered else 0))
    return out


def image_nodes(path):
    img = rawimg.parse(path)
    if img["bad"]:
        return [dict(p=[[-1]], d=False, h="bad image: " + img["bad"])]
    out = []
    for tb in img["tabs"]:
        for s in tb["slots"]:
            out.append(dict(p=[cps(dec(c)) for c in tb["p"] + [s["n"]]], d=bool(s["attr"] & 16), h=s["h"]))
    return out


def event(t, rules, ordered):
    return dict(hosts=hosts(t, ordered), rules=[dict(neg=n, g=g, rw=[] if n else rewrite(w)) for _, w, g, n in rules], res="ok", views=[], dry=[])


def library(w, item):
    tag, k, t, rules = item
    e = event(t, rules, True)
    out = core.tmp(".iso")
    a = w.ask(dict(op="remap", src="mem", tree=t.harness(), rules=[[x[0], x[1]] for x in rules], out=out))
    e["res"] = core.outcome(a)
    if e["res"] == "ok":
        e["views"].append(dict(how="listing", nodes=[
            dict(p=[cps(c) for c in n["p"]], d=n["d"], h="" if n["d"] else n["h"] if isinstance(n["h"], str) else "ERR") for n in a["nodes"]]))
        e["dry"].append(dict(how="dump", l=[{"from": [cps(c) for c in h], "to": [cps(c) for c in g]} for h, g in a["dump"]]))
        if "ok" not in a["pack"]:
            e["res"] = "err"
            e["why"] = str(a["pack"])[:200]
        else:
            e["views"].append(dict(how="image", nodes=image_nodes(out)))
    else:
        e["why"] = str(a)[:300]
    core.drop(out)
    return e


def flags(rules):
    return ["--map=%s:%s" % (x[0], x[1]) if x[1] or not x[3] else "--map=" + x[0] for x in rules]


def dry_lines(out):
    l = []
    for x in out.decode("utf-8", "replace").splitlines():
        f, sep, g = x.partition(" -> ")
        if not sep or f[:1] != "/" or g[:1] != "/":
            l.append({"from": [[-1]], "to": [[-1]]})
        else:
            l.append({"from": [cps(c) for c in f[1:].split("/")], "to": [cps(c) for c in g[1:].split("/")]})
    return l


def tool(item):
    tag, k, t, rules = item
    e = event(t, rules, False)
    bx = cli.box()
    t.write_dir(bx + "/src")
    dry = cli.run(["build-image", "-D"] + flags(rules) + ["src"], bx)
    real = cli.run(["build-image"] + flags(rules) + ["src", "a.iso"], bx)
    runs = [dry, real]
    unique = len({x[0] for x in rules}) == len(rules)
    if unique:
        # a spec generated from the same flags, beside and inside of the source, with its own output name
        runs.append(cli.run(["image-spec", "from"] + flags(rules) + ["spec.toml"], bx))
        runs.append(cli.run(["build-image", "-f", "spec.toml", "src", "b.iso"], bx))
        o = cli.run(["image-spec", "from", "-O", "../c.iso"] + flags(rules), bx)
        runs.append(o)
        open(bx + "/spec2.toml", "wb").write(o.out)
        runs.append(cli.run(["build-image", "-f", "../spec2.toml"], bx + "/src"))
        d2 = cli.run(["build-image", "-f", "spec2.toml", "--dry-run", "src"], bx)
        runs.append(d2)
    for x in runs:
        if x.how != "ok":
            e["res"] = x.how
            e["why"] = x.err[-300:]
            break
    if e["res"] == "ok":
        e["dry"].append(dict(how="flags", l=dry_lines(dry.out)))
        for how, f in (("built", "a.iso"), ("spec", "b.iso"), ("spec-output", "c.iso")):
            if how == "built" or unique:
                e["views"].append(dict(how=how, nodes=image_nodes(bx + "/" + f) if os.path.exists(bx + "/" + f)
                                       else [dict(p=[[-1]], d=False, h="no output")]))
        if unique:
            e["dry"].append(dict(how="spec", l=dry_lines(d2.out)))
    cli.wipe(bx)
    return e


def toml(rules, output):
    """An image spec written by hand."""
    q = lambda x: '"%s"' % x.replace("\\", "\\\\").replace('"', '\\"')
    out = "# image spec\n"
    if output is not None:
        out += "[metadata]\noutput = %s\n\n" % q(output)
    return out + "[map_rules]\n" + "".join("%s = %s\n" % (q(x[0]), q(x[1])) for x in rules)


def forms(item):
    """The ways of naming source, rules and output: three events that differ in which files of the source are specs in use."""
    tag, k, t, rules, decoy = item
    r = gen.rng("remapforms", k)
    out = r.choice([None, "dist/image.xiso.iso", "image.iso", "../up.iso", "dist/../z.iso"])
    name = r.choice(["src", "src.d", "my.game.v1"])
    default = name + ".xiso.iso"
    evs = []
    for kind in ("flags", "default", "other"):
        files = {"xdvdfs.toml": toml(decoy, "dist/decoy.iso"), "other.toml": toml(decoy[:1], None)}
        mine = toml(rules, out)
        if kind != "flags":
            files["xdvdfs.toml" if kind == "default" else "other.toml"] = mine
        e = event(t, rules, False)
        for h in e["hosts"]:
            n = "".join(map(chr, h["p"][0])) if len(h["p"]) == 1 else ""
            if n in files:
                h["h"] = rawimg.h(files[n].encode())
        bx = cli.box()
        src = os.path.join(bx, name)
        t.write_dir(src)
        for n, x in files.items():
            open(os.path.join(src, n), "w").write(x)
        open(bx + "/spec.toml", "w").write(mine)
        x = r.random()
        if x < 0.35:
            # the spec of the same options
            g = cli.run(["image-spec", "from"] + flags(rules) + (["-O", out] if out else []) + ["spec.toml"], bx)
            e["res"] = g.how
        elif x < 0.7 and out:
            # the options one after the other
            g = cli.run(["image-spec", "from", "--output", out], bx)
            e["res"] = g.how
            open(bx + "/spec.toml", "wb").write(g.out + b"\n" + toml(rules, None).encode())
        outp = lambda o: os.path.normpath(os.path.join(src, o))
        # arguments, working directory, where the image must be
        if kind == "flags":
            f = flags(rules)
            o2 = r.choice(["dist/o.iso", "o.iso", "../o.iso", bx + "/abs.iso"])
            todo = [(f + [name, "a.iso"], bx, bx + "/a.iso"), (f + [name], bx, bx + "/" + default), (f, src, bx + "/" + default),
                    (f + ["-O", o2, name], bx, outp(o2)), (f + ["-O", o2], src, outp(o2)), (f + ["--output=" + o2, name, "a.iso"], bx, bx + "/a.iso"),
                    (["-f", "spec.toml", name], bx, outp(out) if out else bx + "/" + default),
                    (["--file", "../spec.toml"], src, outp(out) if out else bx + "/" + default),
                    (["-f", "spec.toml", name, "a.iso"], bx, bx + "/a.iso"),
                    (f + [os.path.join(name, "other.toml"), "a.iso"], bx, bx + "/a.iso")]
        elif kind == "default":
            where = outp(out) if out else bx + "/" + default
            todo = [([name], bx, where), ([], src, where), ([name, "b.iso"], bx, bx + "/b.iso"), ([src], "/", where),
                    ([os.path.join(name, "xdvdfs.toml")], bx, where), ([os.path.join(name, "xdvdfs.toml"), "b.iso"], bx, bx + "/b.iso"),
                    (["xdvdfs.toml", "../b.iso"], src, bx + "/b.iso"), ([".", "../b.iso"], src, bx + "/b.iso")]
            if out:
                todo += [(["xdvdfs.toml"], src, where), (["."], src, where)]
        else:
            where = outp(out) if out else bx + "/" + default
            todo = [([os.path.join(name, "other.toml")], bx, where), ([os.path.join(src, "other.toml"), "c.iso"], bx, bx + "/c.iso"),
                    (["other.toml", "../c.iso"], src, bx + "/c.iso"), (["-f", os.path.join(name, "other.toml"), name, "c.iso"], bx, bx + "/c.iso")]
        before = cli.snap(bx)
        for args, cwd, dest in r.sample(todo, min(4, len(todo))) if e["res"] == "ok" else []:
            dry = cli.run(["build-image"] + r.choice([["-D"], ["--dry-run"]]) + args, cwd)
            real = cli.run(["build-image"] + args, cwd) if cli.snap(bx) == before else None
            how = "%s" % kind
            if dry.how != "ok" or real is None or real.how != "ok":
                e["res"] = "dry run wrote" if real is None else dry.how if dry.how != "ok" else real.how
                e["why"] = "%s in %s: %s" % (args, cwd, (dry.err + (real.err if real else b""))[-300:])
                break
            e["dry"].append(dict(how=how, l=dry_lines(dry.out)))
            e["views"].append(dict(how=how, nodes=image_nodes(dest) if os.path.exists(dest) else [dict(p=[[-1]], d=False, h="no output %s" % args)]))
            if os.path.exists(dest):
                os.unlink(dest)
            if cli.snap(bx) != before:
                e["res"] = "other files written"
                e["why"] = "%s in %s" % (args, cwd)
                break
        cli.wipe(bx)
        evs.append(e)
    return evs


BAD = [(["-m", "["], "glob"), (["-m", "{a:/x"], "glob"), (["-m", "a:/{1"], "unclosed"), (["-m", "a:/{x}"], "not a digit"), (["-m", "a:/{1}{2x}"], "not a digit"),
       (["-m", "a"], "no image path"), (["-m", "!b", "-m", "a"], "no image path"), ([], "no rules"), (["-f", "../rules.toml"], "no rules"),
       (["-f", "../broken.toml"], "not a spec"), (["-f", "../types.toml"], "not a spec"), (["-f", "../absent.toml"], "no spec"),
       (["-m", "a:/a", "-f", "../good.toml"], "both"), (["-O", "x.iso", "-f", "../good.toml"], "both"), (["-f", "../brace.toml"], "unclosed")]


def refused(k):
    """Rules that cannot be followed: an error, and nothing is written."""
    args, why = BAD[k]
    bx = cli.box()
    os.makedirs(bx + "/src/a")
    open(bx + "/src/a/f", "w").write("content")
    for n, x in (("rules.toml", "[metadata]\noutput = 'x.iso'\n"), ("broken.toml", "[map_rules]\n'a' = \n"), ("types.toml", "[map_rules]\na = 1\n"),
                 ("good.toml", "[map_rules]\na = '/a'\n"), ("brace.toml", "[map_rules]\na = '/{1'\n")):
        open(bx + "/" + n, "w").write(x)
    open(bx + "/old.iso", "w").write("kept")
    before = cli.snap(bx)
    res = set()
    for a in (["-D"] + args, args, args + [".", "../new.iso"], args + [".", "../old.iso"]):
        x = cli.run(["build-image"] + a, bx + "/src")
        res.add(x.how)
    same = cli.snap(bx) == before
    cli.wipe(bx)
    return dict(hosts=[], rules=[], res="refused" if res == {"err"} and same else "wrote" if res == {"err"} else "+".join(sorted(res)), views=[], dry=[],
                why="%s %s" % (why, args))


def readme():
    t = gen.Tree()
    for k, p in enumerate(["bin/default.xbe", "bin/sub/f", "assets/a.png", "assets/deep/b.png", "sound/priority.a", "sound/x.a", "sound/x.b", "sound/y.c",
                           "sound/z.d", "sound/excluded.a", "sound/excluded.c", "other/f"]):
        c = tuple(p.split("/"))
        for n in range(1, len(c)):
            if c[:n] not in t.dirs:
                t.add(c[:n - 1], c[n - 1], True)
        t.add(c[:-1], c[-1], False, 30, off=500 + 50 * k)
    rules = [("bin", "/", [lit("bin")], False), ("assets/**", "/assets/{1}", [lit("assets"), REST], False),
             ("sound/priority.*", "/{0}", [lit("sound/priority."), STAR], False),
             ("sound/*.{a,b,c}", "/{2}/{1}", [lit("sound/"), STAR, lit("."), dict(k="alt", b=[[lit("a")], [lit("b")], [lit("c")]])], False),
             ("!sound/excluded.*", "", [lit("sound/excluded."), STAR], True),
             ("sound/excluded.c", "/c/excluded", [lit("sound/excluded.c")], False)]
    return t, rules


def run(rep, thorough):
    m = core.model_check("MC_Remap", "MC_Remap_t.cfg" if thorough else None, workers=6, heap="8g")
    rep.model("MC_Remap", m, "every list of up to %d rules of 8 globs and 7 rewrites over a tree of 8 entries, stack walk" % (3 if thorough else 2))
    m2 = core.model_check("MC_Remap", "MC_Remap_any2.cfg" if thorough else "MC_Remap_any.cfg", workers=6)
    rep.model("MC_Remap any order", m2, "every order of listing the directories")
    core.refute("MC_Remap", "MC_Remap_x.cfg")
    core.refute("MC_Remap", "MC_Remap_y.cfg")
    uni = fixed_trees()
    sc = core.scenarios(m)
    r = gen.rng("remap")
    n1 = 12000 if thorough else 1200
    if len(sc) > n1:
        sc = [s for s in sc if len(s) == 1] + r.sample([s for s in sc if len(s) > 1], n1)
    mk = lambda s: [(("!" if w == 0 else "") + GLOBS[g - 1][0], REWS[w - 1] if w else "", GLOBS[g - 1][1], w == 0) for g, w in s]
    items = [("model", k, uni, mk(s)) for k, s in enumerate(sc)]
    rt, rr = readme()
    items.append(("readme", 0, rt, rr))
    for k in range(6000 if thorough else 500):
        q = gen.rng("remap", k)
        t = tree(q)
        items.append(("random", k, t, rules_for(q, t)))
    ev = core.parallel(library, items)
    core.log("library overlays", len(ev))
    tools = [("cli-readme", 0, rt, rr)]
    for k in range(400 if thorough else 50):
        q = gen.rng("remapcli", k)
        t = tree(q)
        tools.append(("cli-random", k, t, rules_for(q, t)))
    for k, s in enumerate(r.sample(sc, 120 if thorough else 25)):
        tools.append(("cli-model", k, uni, mk(s)))
    ev += core.threads(tool, tools)
    core.log("tool overlays", len(tools))
    items += tools
    fs = []
    for k in range(200 if thorough else 30):
        q = gen.rng("remapform", k)
        t = tree(q)
        for n in ("xdvdfs.toml", "other.toml"):
            t.add((), n, False, 20, off=k)
        t.add((), "dist", True)
        while True:
            rl, dc = rules_for(q, t), rules_for(q, t)
            # a key of a table is there once
            if all(len({x[0] for x in l}) == len(l) for l in (rl, dc)):
                break
        fs.append(("forms", k, t, rl, dc))
    for it, l in zip(fs, core.threads(forms, fs)):
        ev += l
        items += [it] * len(l)
    bad = core.threads(refused, range(len(BAD)))
    ev += bad
    items += [("refused", k, uni, []) for k in range(len(BAD))]
    v = core.judge("JRemap", ev)
    rep.judged("JRemap", ev, v, [x[0] for x in items],
               info=lambda i: dict(rules=[[x[0], x[1]] for x in items[i][3]], tree=["/".join(p) + ("/" if e["d"] else "") for p, e in items[i][2].nodes()],
                                   why=ev[i].get("why", "")))
    rep.rules.append("an event is one overlay: its host tree, its rules, and every view of the result (listing, dry run, packed image, image from a generated spec)")
