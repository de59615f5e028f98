"""Projects what the real code does into events for the specification."""
import os
import core, gen, rawimg
from rawimg import pair, cps, h, SEC, BIG
from mkimg import _DEC


def dec(raw):
    return "".join(_DEC[b] for b in raw)


def rcase(r, s):
    return "".join((c.upper() if r.random() < 0.5 else c.lower()) if c.isascii() and c.isalpha() else c for c in s)


def entry(j):
    """A directory entry as the API reports it."""
    off = j["off"]
    return dict(n=j["raw"], name=cps(j["name"]) if j["name"] is not None else [-1], attr=j["attr"],
                sec=min(j["sector"], 1 << 29), sz=pair(j["size"]),
                pos=[min(off // SEC, 1 << 29), off % SEC])


def tree_nodes(tree):
    """file_tree answer -> (result, nodes)."""
    if isinstance(tree, dict):
        return "err", []
    out = []
    for j in tree:
        e = entry(j)
        d = j["dir"]
        parts = d.split("/")[1:] if d else []
        p = [cps(c) for c in parts] + [e["name"]]
        isd = bool(j["attr"] & 0x10)
        hh = j.get("h", "")
        if isinstance(hh, dict):
            hh = "ERR"
        out.append(dict(e, p=p, d=isd, szl=0, h="" if isd else hh))
    return "ok", out


def api_tree(nodes):
    return [dict(n, sz=n["sz"]) for n in nodes]


def lookup_paths(r, img, k, absent=True):
    """Paths to look up: stored ones in random casing, and near misses."""
    stored = []
    for t in img["tabs"]:
        base = [dec(c) for c in t["p"]]
        for s in t["slots"]:
            stored.append((base + [dec(s["n"])], bool(s["attr"] & 16)))
    qs = []
    pick = stored if len(stored) <= k else r.sample(stored, k)
    for p, d in pick:
        qs.append([rcase(r, c) for c in p])
        if not absent:
            continue
        x = r.random()
        last = p[-1]
        if x < 0.25:
            m = last + r.choice(["a", "_", " ", "\x7f", "z", "A"])
        elif x < 0.45:
            m = last[:-1]
        elif x < 0.8:
            i = r.randrange(len(last))
            c = last[i]
            alt = {"a": "`", "z": "{", "Z": "[", "A": "@", "_": "?", "[": "{", "{": "[", "@": "`", "`": "@",
                   "é": "É", "É": "é", "~": "^", "^": "~", "\\": "|", "|": "\\", "]": "}", "}": "]"}.get(c)
            if alt is None:
                alt = chr((ord(c) + r.choice([-1, 1])) % 127 or 1)
            if alt in "/\0":
                alt = "x"
            m = last[:i] + alt + last[i + 1:]
        elif x < 0.9:
            qs.append(p + [r.choice(["x", last])])
            continue
        else:
            m = r.choice(["nothing", "A", "z", "\x01", "ÿ" * 5, "0"])
        if m:
            qs.append(p[:-1] + [m])
    qs.append(["definitely-not-there"])
    return [q for q in qs if all(c and "/" not in c for c in q)]


def spell(r, q):
    s = "/".join(q)
    return r.choice(["", "/", "//"]) + s + r.choice(["", "", "/"])


# answers that call the image damaged, instead of telling that the path names nothing
DAMAGE = ("IOError", "SizeOutOfBounds", "SerializationFailed", "MalformedDirectory", "StringEncodingError", "InvalidVolume")


def look_events(answers, qs):
    out = []
    for a, q in zip(answers, qs):
        if "err" in a:
            z = dict(res="damage" if str(a["err"]).startswith(DAMAGE) else "err", n=[], name=[], attr=0, sec=0, sz=[0, 0], pos=[0, 0])
        else:
            z = dict(entry(a), res="ok")
        out.append(dict(z, q=[cps(c) for c in q]))
    return out


def listing(v):
    return ("err", []) if isinstance(v, dict) else ("ok", [entry(x) for x in v])


EMPTY = dict(src=[], odd=[], res="", own=False, img=dict(len=[0, 0], root=dict(sec=0, size=0), tabs=[], bad=""),
             tree=[], tres="", dirs=[], looks=[], reads=[], prog=[], tot=0, fin=0, nums=[], tots=[], disc=0, ndisc=0)


def event(**kw):
    e = dict(EMPTY)
    e.update(kw)
    return e


def progress(pr):
    ev, tot, fin, disc = [], 0, 0, []
    for x in pr:
        if x[0] in ("dir", "file"):
            ev.append(dict(k=x[0], p=[cps(c) for c in x[1].split("/") if c], sec=min(x[2], 1 << 29)))
        elif x[0] in ("files", "dirs"):
            tot += x[1]
        elif x[0] == "done":
            fin += 1
        elif x[0] == "disc":
            disc.append(x[1])
    return dict(prog=ev, tot=tot, fin=fin, disc=sum(disc), ndisc=len(disc))


def read_image(w, path, img, r, dev="file", dirs=True, looks=20, tree=True, reads=None, base=0, maxdirs=40):
    """Asks the library everything about an image; returns event fields and the list of what is in them."""
    req = dict(op="read", img=path, dev=dev)
    has = []
    tabs = list(range(len(img["tabs"])))
    if len(tabs) > maxdirs:
        tabs = [0] + r.sample(tabs[1:], maxdirs - 1)
    tabs = [k for k in tabs if all(img["tabs"][k]["p"])]
    if tree:
        req["tree"] = True
        has.append("tree")
    if dirs:
        ps = ["/".join(dec(c) for c in img["tabs"][k]["p"]) for k in tabs]
        req["walk"] = ps
        req["scan"] = ps
        has.append("dirs")
    qs = []
    if looks:
        qs = lookup_paths(r, img, looks)
        req["lookups"] = [spell(r, q) for q in qs]
        has.append("looks")
    a = w.ask(req)
    f = dict(tres=core.outcome(a), tree=[], dirs=[], looks=[])
    if core.outcome(a) != "ok":
        # the reader gave nothing at all: every obligation of 'has' fails on its own
        f["dirs"] = [dict(t=k + 1, wres=f["tres"], walk=[], sres=f["tres"], scan=[]) for k in tabs] if dirs else []
        f["looks"] = look_events([{"err": "x"}] * len(qs), qs)
        return f, has, a
    if tree:
        f["tres"], f["tree"] = tree_nodes(a["tree"])
    if dirs:
        for n, k in enumerate(tabs):
            wr, wl = listing(a["walk"][n])
            sr, sl = listing(a["scan"][n])
            f["dirs"].append(dict(t=k + 1, wres=wr, walk=wl, sres=sr, scan=sl))
    if looks:
        f["looks"] = look_events(a["lookups"], qs)
    return f, has, a


def fix_sizes(nodes):
    """Directories have no size of their own in the logical tree."""
    return [dict(n, sz=[0, 0] if n["d"] else n["sz"]) for n in nodes]
