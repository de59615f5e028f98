"""Builds well-formed images that this packer would never write, and arbitrary (hostile) ones."""
import os, struct
from rawimg import MAGIC, SEC, h


def fold(b):
    """Sort key of a name given as a str."""
    return [ord(c) - 32 if "a" <= c <= "z" else ord(c) for c in b]


class Ent:
    """One directory entry to place.  kids is a list of Ent for directories, data bytes for files."""
    __slots__ = ("name", "kids", "data", "size", "attr", "sec", "mark", "l", "r", "off", "blank")

    def __init__(self, name, data=None, kids=None, size=None, attr=None, mark=None, blank=None):
        self.name, self.data, self.kids, self.mark, self.blank = name, data, kids, mark, blank
        self.size = size if size is not None else (0 if data is None else len(data))
        self.attr = attr if attr is not None else (0x10 if kids is not None else 0x20)
        self.sec = 0
        self.l = self.r = None

    @property
    def is_dir(self):
        return self.kids is not None

    def raw(self):
        return self.name.encode("cp1252x") if isinstance(self.name, str) else self.name


import codecs
_C1 = [8364, 129, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 141, 381, 143,
       144, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 157, 382, 376]
_DEC = "".join(chr(_C1[b - 128]) if 128 <= b < 160 else chr(b) for b in range(256))
_ENC = {ord(c): b for b, c in enumerate(_DEC)}


def _search(n):
    if n != "cp1252x":
        return None
    return codecs.CodecInfo(lambda s, e="strict": codecs.charmap_encode(s, e, _ENC),
                            lambda b, e="strict": codecs.charmap_decode(bytes(b), e, _DEC), name="cp1252x")


codecs.register(_search)


def shape_tree(ents, rng, shape):
    """Links entries as a search tree of the given shape; returns them in some reachable root-first order."""
    s = sorted(ents, key=lambda e: fold(e.name))

    def go(lo, hi):
        if lo >= hi:
            return None
        if shape == "left":
            m = hi - 1
        elif shape == "right":
            m = lo
        elif shape == "balanced":
            m = (lo + hi) // 2
        else:
            m = rng.randrange(lo, hi)
        e = s[m]
        e.l, e.r = go(lo, m), go(m + 1, hi)
        return e
    import sys
    sys.setrecursionlimit(100000)
    return go(0, len(s))


def build(path, root, rng, shape="random", none=0, fill=0xff, base=0, gap=0, order="random", extra=0,
          tail=0, round_dirs=True, empty="zero", place="shuffle", filetime=0, hi_sec=0, first_free=33, skip=0):
    """Writes an image holding the entries in root.  Options vary everything the format leaves open:
    shape of the search trees, entry order in the table, 'no child' marker, blank fill, placement, gaps,
    size rounding of directories, representation of empty directories, partition offset.
    Returns {path tuple of names: (sector, size, table?)}."""
    tabs = []
    where = {}

    def table(ents, p):
        if not ents:
            t = dict(p=p, ents=[], size=0)
            tabs.append(t)
            return t
        top = shape_tree(ents, rng, shape)
        rest = [e for e in ents if e is not top]
        if order == "random":
            rng.shuffle(rest)
        elif order == "sorted":
            rest.sort(key=lambda e: fold(e.name))
        off = 0
        done = []
        seq = [top]
        while seq:
            e = seq.pop(0)
            ln = 14 + len(e.raw())
            if off % SEC + ln > SEC:
                off = (off + SEC - 1) // SEC * SEC
            elif skip and off and rng.random() < skip and off < 40 * SEC:
                # the rest of the sector, and perhaps whole sectors, stay blank
                off = ((off + SEC - 1) // SEC + rng.choice([0, 0, 1, 2])) * SEC
            e.off = off
            off += (ln + 3) // 4 * 4
            done.append(e)
            if rest:
                # the next entry; "tight" fills sectors to the last byte, with a short name in the end if there is one
                j = 0
                if order == "tight":
                    left = SEC - off % SEC
                    w = [(14 + len(x.raw()) + 3) // 4 * 4 for x in rest]
                    fit = [i for i, x in enumerate(w) if x == left] or \
                          ([i for i, x in enumerate(w) if x == left - 16] if 16 in w else []) or \
                          [i for i, x in enumerate(w) if x < left and left - x in w] or [i for i, x in enumerate(w) if x < left - 32]
                    j = rng.choice(fit) if fit else rng.randrange(len(rest))
                seq.append(rest.pop(j))
        size = off
        if round_dirs:
            size = (off + SEC - 1) // SEC * SEC
            if skip and size < 120 * SEC and rng.random() < skip:
                size += SEC
        assert size <= 128 * SEC
        t = dict(p=p, ents=done, size=size)
        tabs.append(t)
        for e in ents:
            if e.is_dir:
                table(e.kids, p + (e.name,))
        return t
    table(root, ())
    # allocate
    items = []
    for t in tabs:
        if t["size"]:
            items.append(("t", t, (t["size"] + SEC - 1) // SEC))
        elif empty == "blank" or t["p"] == () and empty != "rootzero":
            items.append(("t", t, 1))
            t["size"] = SEC
        for e in t["ents"]:
            if not e.is_dir and e.size:
                items.append(("f", e, (e.size + SEC - 1) // SEC))
    if place == "shuffle":
        rng.shuffle(items)
    nxt = first_free
    low = 0
    for kind, x, n in items:
        # small items may also live in front of the descriptor
        if place == "shuffle" and low + n <= 32 and rng.random() < 0.3:
            x_sec = low
            low += n
        else:
            if hi_sec and nxt < hi_sec and rng.random() < 0.5:
                nxt = hi_sec
            x_sec = nxt
            nxt += n + (rng.randrange(gap + 1) if gap else 0)
        if kind == "t":
            x["sec"] = x_sec
        else:
            x.sec = x_sec
    for t in tabs:
        if t["size"] == 0:
            t["sec"] = 0
    bytab = {t["p"]: t for t in tabs}
    with open(path, "wb") as f:
        def put(off, b):
            f.seek(base + off)
            f.write(b)
        rt = bytab[()]
        vd = bytearray(SEC)
        vd[:20] = MAGIC
        vd[20:28] = struct.pack("<II", rt["sec"], rt["size"])
        vd[28:36] = struct.pack("<Q", filetime)
        vd[-20:] = MAGIC
        put(32 * SEC, bytes(vd))
        for t in tabs:
            if not t["size"]:
                continue
            full = (t["size"] + SEC - 1) // SEC * SEC
            buf = bytearray([fill]) * full
            for e in t["ents"]:
                if e.is_dir:
                    k = bytab[t["p"] + (e.name,)]
                    sec, size = k["sec"], k["size"]
                else:
                    sec, size = e.sec, e.size
                where[t["p"] + (e.name,)] = (sec, size, e.is_dir)
                nm = e.raw()
                l = none if e.l is None else e.l.off // 4
                r = none if e.r is None else e.r.off // 4
                buf[e.off:e.off + 14 + len(nm)] = struct.pack("<HHIIBB", l, r, sec, size, e.attr, len(nm)) + nm
                if not e.is_dir and e.size:
                    if e.data is not None:
                        put(sec * SEC, e.data)
                    else:
                        put(sec * SEC, e.mark)
                        put(sec * SEC + size - 16, e.mark)
            put(t["sec"] * SEC, bytes(buf))
        f.seek(0, 2)
        end = f.tell() - base
        if tail == 0:
            end = (end + SEC - 1) // SEC * SEC
        f.truncate(base + end + extra)
    return where
