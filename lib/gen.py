"""Scenario generation.  Everything random comes from VERIF_SEED; the families are aimed at boundaries."""
import hashlib, itertools, os, random
import core
from rawimg import h, pair, cps, BIG
from mkimg import _DEC, Ent, fold

SIZES = [0, 1, 2, 13, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 6143, 8192, 65535, 65536, 65537]
BLOB_LEN = 10 << 20
_blob = None


def blob():
    """(path, bytes) of the data all generated files are cut from."""
    global _blob
    if _blob is None:
        b = random.Random(7).randbytes(BLOB_LEN)
        p = core.tmp(".blob")
        open(p, "wb").write(b)
        _blob = (p, b)
    return _blob


def rng(*tag):
    return random.Random("%d/%s" % (core.SEED, "/".join(map(str, tag))))


ENCODABLE = [c for c in _DEC if c not in "/\0"]
SAFE = [c for c in ENCODABLE if ord(c) >= 32 and ord(c) != 127]
TRICKY = list("aAbBzZyY[\\]^_`{|}~@!#$%&'()+,-.0189 ;=") + ["é", "É", "ß", "ÿ", "ž", "Ž", "Ÿ", "€", "™", "À", "à"]


def name(r, ln=None, alphabet=None):
    if ln is None:
        ln = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 31, 42])
    alphabet = alphabet or r.choice([list("abAB_"), TRICKY, SAFE, list("abcdefghijklmnopqrstuvwxyz0123456789.")])
    while True:
        s = "".join(r.choice(alphabet) for _ in range(ln))
        if s not in (".", ".."):
            return s


def key(s):
    return tuple(fold(s))


class Tree:
    """A source tree: ordered listings per directory."""

    def __init__(self):
        self.dirs = {(): []}
        self.used = {(): set()}

    def add(self, p, n, d=False, size=0, off=None, mark=None, force=False, r=None):
        k = key(n)
        if not force:
            if k in self.used[p] or not 1 <= len(n) <= 255:
                return False
        self.used[p].add(k)
        if off is None:
            off = (r or random).randrange(0, max(1, BLOB_LEN - min(size, BLOB_LEN))) if size else 0
        self.dirs[p].append(dict(n=n, d=d, len=size, off=off, mark=mark or ""))
        if d:
            self.dirs.setdefault(p + (n,), [])
            self.used.setdefault(p + (n,), set())
        return True

    def shuffle(self, r):
        for l in self.dirs.values():
            r.shuffle(l)
        return self

    def cid(self, e):
        if e["d"]:
            return ""
        if e["len"] >= BIG:
            return "V" + e["mark"]
        return h(blob()[1][e["off"]:e["off"] + e["len"]])

    def harness(self):
        return dict(dirs=[dict(p=list(p), l=[dict(n=e["n"], d=e["d"], len=e["len"], off=e["off"], mark=e["mark"])
                                              for e in l]) for p, l in self.dirs.items()], blob=blob()[0])

    def event(self):
        return [dict(p=[cps(c) for c in p],
                     l=[dict(n=cps(e["n"]), d=e["d"], sz=[0, 0] if e["d"] else pair(min(e["len"], 8192 << 20)), h=self.cid(e))
                        for e in l]) for p, l in self.dirs.items()]

    def nodes(self):
        for p, l in self.dirs.items():
            for e in l:
                yield p + (e["n"],), e

    def files(self):
        return [(p, e) for p, e in self.nodes() if not e["d"]]

    def big(self):
        return any(e["len"] >= BIG for _, e in self.nodes())

    def total(self):
        return sum(e["len"] for _, e in self.nodes() if not e["d"])

    def ents(self, r=None, p=(), attrs=False):
        """As mkimg entries."""
        out = []
        for e in self.dirs[p]:
            if e["d"]:
                x = Ent(e["n"], kids=self.ents(r, p + (e["n"],), attrs))
                if attrs:
                    x.attr = r.choice([0x10, 0x11, 0x12, 0x14, 0x30, 0x90, 0xff, 0x50])
            elif e["len"] >= BIG:
                x = Ent(e["n"], size=e["len"], mark=bytes.fromhex(e["mark"]))
            else:
                x = Ent(e["n"], data=blob()[1][e["off"]:e["off"] + e["len"]])
            if attrs and not e["d"]:
                x.attr = r.choice([0x20, 0x80, 0x00, 0x01, 0x02, 0x04, 0x21, 0xa0, 0x08, 0x40, 0xef])
            out.append(x)
        return out

    def write_dir(self, root):
        os.makedirs(root, exist_ok=True)
        for p, l in self.dirs.items():
            d = os.path.join(root, *p)
            os.makedirs(d, exist_ok=True)
            for e in l:
                if not e["d"]:
                    with open(os.path.join(d, e["n"]), "wb") as f:
                        if e["len"] >= BIG:
                            m = bytes.fromhex(e["mark"])
                            f.truncate(e["len"])
                            os.pwrite(f.fileno(), m, 0)
                            os.pwrite(f.fileno(), m, e["len"] - len(m))
                        else:
                            f.write(blob()[1][e["off"]:e["off"] + e["len"]])


def content(e):
    return blob()[1][e["off"]:e["off"] + e["len"]]


def size(r, small=False):
    if small:
        return r.choice([0, 0, 1, 5, 100, 2047, 2048, 2049])
    return r.choice(SIZES) if r.random() < 0.8 else r.randrange(0, 100000)


def random_tree(r, n=None, depth=4, small=False, alphabet=None, host=False):
    t = Tree()
    n = n if n is not None else r.choice([0, 1, 2, 3, 5, 8, 12, 20, 40])
    ps = [()]
    for _ in range(n):
        p = r.choice(ps)
        nm = name(r, alphabet=alphabet)
        if host and ("/" in nm or "\0" in nm or nm in (".", "..") or len(nm.encode()) > 200):
            continue
        isd = r.random() < 0.3 and len(p) < depth
        if t.add(p, nm, isd, 0 if isd else size(r, small), r=r) and isd:
            ps.append(p + (nm,))
    return t


# ---------------------------------------------------------------- families for packing

def fam_orders(k, names):
    """Every order of inserting k names into one directory."""
    out = []
    for perm in itertools.permutations(names[:k]):
        t = Tree()
        for j, nm in enumerate(perm):
            t.add((), nm, False, j % 3, off=j * 5)
        out.append(("orders%d" % k, t))
    return out


def fam_names():
    """Every encodable character as a name of its own, and as first, middle, last character of longer ones."""
    out = []
    chars = ENCODABLE
    t = Tree()
    for c in chars:
        t.add((), c, False, ord(c) % 5, off=ord(c) % 1000)
    out.append(("allchars", t))
    t = Tree()
    for c in chars:
        t.add((), c + "x", False, 1, off=3)
        t.add((), "M" + c + "m", False, 1, off=4)
        t.add((), "q" + c, True)
    out.append(("allchars2", t))
    # prefixes and neighbours in the order
    t = Tree()
    for a in ["a", "A_", "a`", "a@", "a[", "aa", "aZ", "a{", "AB", "ab.", "abc", "a.b", "a-b", "a b", "_", "`", "[", "@", "Z", "z{"]:
        t.add((), a, a.endswith("b"), 0 if a.endswith("b") else 7, off=9)
    out.append(("prefixes", t))
    # names that differ in the case of characters outside ASCII only
    t = Tree()
    for a in ["é", "É", "à", "À", "ž", "Ž", "ÿ", "Ÿ", "ß", "œ", "Œ", "€", "straße", "STRASSE", "ÉA", "éb"]:
        t.add((), a, False, 3, off=11)
    out.append(("nonascii", t))
    # longest names
    for ln in (127, 128, 254, 255):
        t = Tree()
        for c in "abcdefgh":
            t.add((), c * ln, c > "e", 0 if c > "e" else 2049, off=ln)
            if c > "e":
                t.add((c * ln,), "x" * ln, False, 5, off=1)
        out.append(("long%d" % ln, t))
    t = Tree()
    for c in "éàÿ":
        t.add((), c * 127, False, 5, off=1)
    t.add((), "é" * 127 + "x", False, 5, off=1)
    out.append(("utf8limit", t))
    # the same in characters that take two and three bytes in UTF-8
    for c, ln in (("é", 128), ("é", 200), ("ÿ", 255), ("€", 85), ("€", 86), ("€", 170), ("™", 255)):
        t = Tree()
        t.add((), c * ln, False, 2049, off=ln)
        t.add((), c * (ln - 1) + "d", True)
        t.add((c * (ln - 1) + "d",), "x" + c * (ln - 1), False, 5, off=1)
        t.add((), "m", False, 1, off=2)
        out.append(("wide%d" % ln, t))
    return out


def fam_boundaries(r, count):
    """Directories whose entries end just before, at and just after sector boundaries."""
    out = []
    for k in range(count):
        t = Tree()
        sectors = r.choice([1, 1, 1, 2, 3])
        used = 0
        j = 0
        target = sectors * 2048 + r.choice([-8, -4, 0, 0, 0, 4, 8, 16])
        style = r.choice(["short", "mixed", "long"])
        while used < target:
            left = target - used
            if left <= 272 and left >= 16:
                ln = left - 14 - r.choice([0, 0, 1, 2, 3])
                ln = max(1, min(255, ln))
            else:
                ln = {"short": r.randrange(1, 12), "mixed": r.choice([3, 10, 50, 120, 200, 255]), "long": r.randrange(180, 256)}[style]
            nm = ("%x" % j).rjust(min(3, ln), "0")[-ln:].ljust(ln, r.choice("ab_Z"))
            if not t.add((), nm, r.random() < 0.1, 0, r=r):
                j += 1
                if j > 4000:
                    break
                continue
            j += 1
            used += (14 + ln + 3) // 4 * 4
        for e in t.dirs[()]:
            if not e["d"]:
                e["len"] = size(r, True)
                e["off"] = r.randrange(0, 100000)
        if r.random() < 0.5:
            t.shuffle(r)
        out.append(("boundary", t))
    return out


def fam_exact(r):
    """Entries of one width, so that every sector is full to its last byte, the last name being 1 to 4 bytes short of that."""
    out = []
    for w, n in ((16, 128), (16, 129), (16, 127), (16, 256), (16, 260), (32, 64), (32, 65), (64, 32), (64, 33), (128, 48), (256, 8), (256, 9)):
        for cut in (0, 1) if w == 16 else (0, 2):
            ln = w - 14 - cut
            t = Tree()
            al = "abcdefghijklmnopqrstuvwxyz0123456789!#$%&'()+,-;=@[]^_`{}~"
            if ln == 1:
                names = list(al)
            else:
                names = [(al[j % 26] + al[j // 26]).ljust(ln, "_") for j in range(n)]
            for j, nm in enumerate(names):
                t.add((), nm, j % 17 == 5, 0 if j % 17 == 5 else j % 4, off=j)
            if r.random() < 0.5:
                t.shuffle(r)
            out.append(("exact%d" % w, t))
    return out


def fam_depth(r):
    out = []
    for depth, width in ((60, 1), (12, 3), (120, 0)):
        t = Tree()
        p = ()
        for k in range(depth):
            for j in range(width):
                t.add(p, "f%d" % j, False, size(r, True), r=r)
            nm = "d%d" % (k % 7)
            t.add(p, nm, True)
            p += (nm,)
        out.append(("deep", t))
    # sibling directories whose names are prefixes of each other, and sort around the path separator
    t = Tree()
    for a in ["a", "a b", "a!", "a-", "a.", "a0", "aa", "A_", "b"]:
        t.add((), a, True)
        for b in ["b", "b b", "b-", "f"]:
            d = b != "f"
            t.add((a,), b, d, 0 if d else 2050, r=r)
            if d:
                t.add((a, b), a, False, len(a), r=r)
    out.append(("siblings", t))
    # empty directories everywhere
    t = Tree()
    for a in "abc":
        t.add((), a, True)
        for b in "xyz":
            t.add((a,), b, True)
    out.append(("emptydirs", t))
    t = Tree()
    out.append(("empty", t))
    t = Tree()
    t.add((), "only", True)
    out.append(("onedir", t))
    return out


def fam_wide(r, thorough=False):
    out = []
    def wide(n, ln, order, tag, dirs=0):
        t = Tree()
        names = [("%04x" % j).ljust(ln, "n")[:max(ln, 4)] for j in range(n)]
        if order == "rev":
            names.reverse()
        elif order == "rand":
            r.shuffle(names)
        for j, nm in enumerate(names):
            t.add((), nm, j < dirs, 0 if j < dirs else (j % 4), off=j % 5000)
        out.append((tag, t))
    wide(1000, 4, "sorted", "wide-sorted")
    wide(700, 60, "rand", "wide-64k")           # table beyond 64 KiB: child offsets need more than 14 bits
    wide(300, 250, "rev", "wide-long")
    wide(200, 4, "rand", "wide-dirs", dirs=120)
    wide(2048, 114, "rand", "wide-full")        # exactly 128 sectors
    wide(963 if not thorough else 895, 250, "rand", "wide-near")
    if thorough:
        wide(12000, 4, "rand", "wide-12000")
        wide(6000, 20, "sorted", "wide-6000")
        wide(2048, 111, "sorted", "wide-full2")
    return out


def fam_sizes(r):
    out = []
    t = Tree()
    for j, s in enumerate(SIZES):
        t.add((), "s%d" % s, False, s, off=j * 777)
    out.append(("sizes", t))
    t2 = Tree()
    for j, s in enumerate(SIZES):
        t2.add((), "d%d" % j, True)
        t2.add(("d%d" % j,), "f", False, s, off=j * 31)
        t2.add(("d%d" % j,), "g", False, (s * 7) % 5000, off=j * 37)
    out.append(("sizes2", t2))
    t3 = Tree()
    for j in range(40):
        t3.add((), "z%d" % j, False, 0)
    out.append(("zeros", t3))
    t4 = Tree()
    t4.add((), "m", False, 1 << 20, off=0)
    t4.add((), "m1", False, (1 << 20) + 1, off=1)
    t4.add((), "m2", False, (2 << 20) - 1, off=2)
    out.append(("mib", t4))
    t4 = Tree()
    t4.add((), "m5", False, (5 << 20) + 7, off=0)
    t4.add((), "sub", True)
    t4.add(("sub",), "m9", False, (9 << 20) - 3, off=1)
    t4.add((), "m4", False, 4 << 20, off=2)
    out.append(("mib9", t4))
    # padding of the image to 32 sectors: totals around the boundary
    for k in list(range(28, 36)) + [61, 62, 63, 64, 65]:
        t5 = Tree()
        t5.add((), "f", False, k * 2048 - r.choice([0, 1, 2047]), r=r)
        out.append(("pad%d" % k, t5))
    return out


def fam_huge(r):
    """More than 4 GiB in total; each file a hole with marks at its ends (needs a sparse output)."""
    out = []
    def mk(sizes, tag, nest=False):
        t = Tree()
        for j, s in enumerate(sizes):
            p = ()
            if nest:
                t.add((), "d%d" % j, True)
                p = ("d%d" % j,)
            if s >= BIG:
                t.add(p, "h%d" % j, False, s, off=0, mark=r.randbytes(16).hex())
            else:
                t.add(p, "h%d" % j, False, s, r=r)
        out.append((tag, t))
    G = 1 << 30
    mk([G * 4 - 1, 5, 2048, G * 4 - 2048, 100], "huge-max")
    mk([3 * G, 2 * G + 5, 77, 3000], "huge-5g", nest=True)
    mk([2 * G, 2 * G - 1, 2 * G + 1, 4096, 1], "huge-2g")
    return out


def fam_vast(r, thorough=False):
    """Files that together fill all sectors a 32 bit number can name, or more (needs a sparse output of 8 TiB)."""
    M = (1 << 32) - 1
    out = []
    def mk(tag, n, last=M, dirs=1):
        t = Tree()
        for k in range(n):
            p = ()
            if dirs > 1:
                p = ("d%d" % (k % dirs),)
                if k < dirs:
                    t.add((), p[0], True)
            t.add(p, "%04x" % k, False, M if k < n - 1 else last, off=0, mark=r.randbytes(16).hex())
        out.append((tag, t))
    mk("vast-fits", 2047)
    mk("vast-over", 2048 + r.randrange(3), dirs=r.choice([1, 5]))
    mk("vast-over-far", 2048 + r.randrange(1000, 2048), dirs=3)
    if thorough:
        mk("vast-fits-dirs", 2047, dirs=64)
        mk("vast-over-twice", 4096 + 30)
    return out


def fam_reject(r):
    out = []
    def one(tag, *ents):
        t = Tree()
        for n, d, s in ents:
            t.add((), n, d, s, off=0, force=True, mark="00" * 16 if s >= BIG else None)
        out.append((tag, t))
        t = Tree()      # the same one level down, among harmless entries
        t.add((), "sub", True)
        t.add((), "ok", False, 5, off=0)
        t.add(("sub",), "fine", False, 5, off=0)
        for n, d, s in ents:
            t.add(("sub",), n, d, s, off=0, force=True, mark="00" * 16 if s >= BIG else None)
        t.add(("sub",), "zfine", False, 2048, off=0)
        out.append((tag + "-sub", t))
    one("dup", ("name", False, 1), ("NAME", False, 2))
    one("dup-exact", ("name", False, 1), ("name", False, 2))
    one("dup-dirs", ("Dir", True, 0), ("dIR", True, 0))
    one("dup-mixed", ("Thing", True, 0), ("thinG", False, 9))
    one("dup-far", *([("n%02d" % k, False, 1) for k in range(40)] + [("N17", False, 1)]))
    one("dup-first", *([("N00", False, 1)] + [("n%02d" % k, False, 1) for k in range(40)]))
    one("dup-punct", ("a_[", False, 1), ("A_[", False, 1))
    one("not-dup", ("a[", False, 1), ("a{", False, 1), ("a@", False, 1), ("a`", False, 1), ("é", False, 1), ("É", False, 1))
    one("long256", ("x" * 256, False, 1))
    one("long257", ("x" * 257, False, 1))
    one("long300d", ("x" * 300, True, 0))
    one("long512", ("x" * 512, False, 1))
    one("long65792", ("x" * 65792, False, 1))
    one("long255", ("x" * 255, False, 1))
    one("long255d", ("x" * 255, True, 0))
    one("wide-255", ("™" * 255, False, 1), ("™" * 254 + "x", True, 0))
    one("wide-256", ("™" * 256, False, 1))
    one("utf8-256", ("é" * 256, False, 1))
    for ch in ["α", "Ж", "日", "😀", "Ā", "\u0080", "\u0082", "\u009f", "\uffff", "\u0100", "ı", "ſ", "K", "\ufffd", "\u2000"]:
        one("enc-%x" % ord(ch), ("x" + ch, False, 1))
    one("enc-dir", ("日本", True, 0))
    one("enc-ok", ("\u0081\u008d", False, 1), ("€‚", True, 0))
    one("size-max", ("f", False, (1 << 32) - 1))
    one("size-over", ("f", False, 1 << 32))
    one("size-over1", ("f", False, (1 << 32) + 1))
    one("size-over2", ("f", False, (1 << 33) + 5))
    one("size-40bit", ("a", False, 1), ("f", False, (1 << 40) + 4096))
    def uni(n, ln, tag):
        t = Tree()
        for j in range(n):
            t.add((), ("%04x" % j).ljust(ln, "q"), False, 0)
        out.append((tag, t.shuffle(r)))
    uni(2048, 114, "full-ok")
    uni(2049, 114, "full-over")
    uni(7 * 128, 255, "full-255")        # 7 entries of 272 bytes in a sector
    uni(7 * 128 + 1, 255, "full-255-over")
    uni(1200, 255, "full-255-far")
    for _ in range(3):      # only the last entry is out of reach, as a left or as a right child
        uni(7 * 128 + 1, 255, "full-255-over")
        uni(2049, 114, "full-over")
    return out
