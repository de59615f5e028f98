"""A decoder of our own for compressed images (CSO version 2, LZ4 blocks)."""
import struct


def lz4(src, limit):
    """Decodes one LZ4 block."""
    out = bytearray()
    i, n = 0, len(src)
    while i < n:
        t = src[i]
        i += 1
        ln = t >> 4
        if ln == 15:
            while True:
                b = src[i]
                i += 1
                ln += b
                if b != 255:
                    break
        out += src[i:i + ln]
        i += ln
        if i >= n or len(out) >= limit and i >= n:
            break
        d = src[i] | src[i + 1] << 8
        i += 2
        ml = t & 15
        if ml == 15:
            while True:
                b = src[i]
                i += 1
                ml += b
                if b != 255:
                    break
        ml += 4
        if d == 0 or d > len(out):
            raise ValueError("bad match")
        if d >= ml:
            out += out[-d:len(out) - d + ml]
        else:
            for _ in range(ml):
                out.append(out[-d])
        if len(out) > limit:
            raise ValueError("too long")
    return bytes(out)


def decode(b):
    """(decompressed bytes, "") or (partial, reason)."""
    if len(b) < 24:
        return b"", "short header"
    magic, hs, size, bs, ver, al, _, _ = struct.unpack("<4sIQIBBBB", b[:24])
    if magic != b"CISO" or hs != 24 or bs != 2048 or ver != 2 or size % 2048:
        return b"", "bad header"
    n = size // bs
    if len(b) < 24 + 4 * (n + 1):
        return b"", "short index"
    ix = struct.unpack("<%dI" % (n + 1), b[24:24 + 4 * (n + 1)])
    out = []
    cache = {}
    for k in range(n):
        p, q = (ix[k] & 0x7fffffff) << al, (ix[k + 1] & 0x7fffffff) << al
        if not 24 + 4 * (n + 1) <= p <= q or p > len(b):
            return b"".join(out), "bad index entry %d" % k
        if not ix[k] >> 31:
            s = b[p:p + 2048]
        else:
            d = b[p:q] if k + 1 < n else b[p:]
            if len(d) < 4:
                return b"".join(out), "empty block %d" % k
            ln = struct.unpack("<I", d[:4])[0]
            body = bytes(d[4:4 + (ln & 0x7fffffff)])
            if len(body) != ln & 0x7fffffff:
                return b"".join(out), "short block %d" % k
            if ln >> 31:
                s = body
            elif body in cache:
                s = cache[body]
            else:
                try:
                    s = lz4(body, 2048)
                except (ValueError, IndexError):
                    return b"".join(out), "bad block %d" % k
                cache[body] = s
        if len(s) != 2048:
            return b"".join(out), "block %d has %d bytes" % (k, len(s))
        out.append(s)
    return b"".join(out), ""
