"""An XDVDFS parser of our own: raw bytes -> the image model of spec/XLayout.tla."""
import hashlib, os, struct

MAGIC = b"MICROSOFT*XBOX*MEDIA"
SEC = 2048
BIG = 16 << 20          # files from this size on are identified by their ends
MIB = 1 << 20


def h(b):
    return hashlib.sha3_256(b).hexdigest()[:24]


def pair(n):
    return [n >> 20, n & (MIB - 1)]


def cps(s):
    return [ord(c) for c in s]


class Raw:
    def __init__(self, path, base=0):
        self.f = open(path, "rb")
        self.base = base
        self.len = max(0, os.fstat(self.f.fileno()).st_size - base)

    def at(self, off, n):
        """Exactly n bytes, or None when the image ends before."""
        if off + n > self.len:
            return None
        self.f.seek(self.base + off)
        return self.f.read(n)

    def close(self):
        self.f.close()


def content_id(raw, sec, size):
    if size == 0:
        return h(b"")
    if size >= BIG:
        a, b = raw.at(sec * SEC, 16), raw.at(sec * SEC + size - 16, 16)
        if a is None or b is None:
            return "TRUNCATED"
        return "V" + a.hex() if a == b else "V?" + a.hex() + b.hex()
    d = raw.at(sec * SEC, size)
    return "TRUNCATED" if d is None else h(d)


def descriptor(path, base=0):
    raw = Raw(path, base)
    try:
        v = raw.at(32 * SEC, SEC)
        if v is None or v[:20] != MAGIC or v[-20:] != MAGIC:
            return None
        return struct.unpack("<II", v[20:28]) + (struct.unpack("<Q", v[28:36])[0],)
    finally:
        raw.close()


def parse(path, base=0, max_slots=200000):
    """The model of an image.  'bad' names the first structural defect found (then tabs is partial)."""
    raw = Raw(path, base)
    img = dict(len=[raw.len // SEC, raw.len % SEC], root=dict(sec=0, size=0), tabs=[], bad="")
    try:
        v = raw.at(32 * SEC, SEC)
        if v is None or v[:20] != MAGIC or v[-20:] != MAGIC:
            img["bad"] = "no descriptor"
            return img
        rs, rz = struct.unpack("<II", v[20:28])
        img["root"] = dict(sec=min(rs, 1 << 29), size=min(rz, 1 << 29))
        todo = [([], rs, rz)]
        seen = set()
        total = 0
        while todo:
            path_, sec, size = todo.pop(0)
            t = dict(p=path_, sec=min(sec, 1 << 29), size=min(size, 1 << 29), junk=0, slots=[])
            img["tabs"].append(t)
            if size == 0:
                continue
            if (sec, size) in seen and size > 0:
                img["bad"] = img["bad"] or "table used twice"
                continue
            seen.add((sec, size))
            full = (size + SEC - 1) // SEC * SEC
            if full > 64 << 20:
                img["bad"] = img["bad"] or "huge table"
                continue
            data = raw.at(sec * SEC, full)
            if data is None:
                img["bad"] = img["bad"] or "table outside of image"
                continue
            first = data[:14]
            cover = bytearray(full)
            if first not in (b"\xff" * 14, b"\0" * 14):
                idx = {}
                stack = [(0, None, None)]
                while stack:
                    off, parent, side = stack.pop()
                    if off in idx:
                        img["bad"] = img["bad"] or "entry reached twice"
                        continue
                    if off + 14 > full:
                        img["bad"] = img["bad"] or "child outside of table"
                        continue
                    l, r, s, z, attr, nl = struct.unpack("<HHIIBB", data[off:off + 14])
                    if data[off:off + 14] in (b"\xff" * 14, b"\0" * 14):
                        img["bad"] = img["bad"] or "child is blank"
                        continue
                    name = data[off + 14:off + 14 + nl]
                    if len(name) != nl:
                        img["bad"] = img["bad"] or "name outside of table"
                        continue
                    slot = dict(off=off, l=0, r=0, sec=min(s, 1 << 29), sz=pair(z), attr=attr, n=list(name), h="")
                    t["slots"].append(slot)
                    idx[off] = len(t["slots"])
                    total += 1
                    if total > max_slots:
                        img["bad"] = "too many entries"
                        return img
                    for k in range(off, off + 14 + nl):
                        cover[k] = 1
                    if parent is not None:
                        t["slots"][parent - 1][side] = idx[off]
                    me = idx[off]
                    if r not in (0, 0xffff):
                        stack.append((r * 4, me, "r"))
                    if l not in (0, 0xffff):
                        stack.append((l * 4, me, "l"))
                    if attr & 0x10:
                        todo.append((path_ + [list(name)], s, z))
                    else:
                        slot["h"] = content_id(raw, s, z)
            t["junk"] = sum(1 for k in range(full) if not cover[k] and data[k] != 0xff)
        return img
    finally:
        raw.close()
