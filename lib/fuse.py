"""Speaks the FUSE kernel protocol with the real mount daemon over a socket."""
import os, select, socket, struct, subprocess, tempfile
import core

LOOKUP, FORGET, GETATTR, OPEN, READ, STATFS, RELEASE, INIT, OPENDIR, READDIR, RELEASEDIR, ACCESS, DESTROY = \
    1, 2, 3, 14, 15, 17, 18, 26, 27, 28, 29, 34, 38


class Dead(Exception):
    """The daemon exited or stopped answering."""

    def __init__(self, how, rc=0):
        Exception.__init__(self, how)
        self.how, self.rc = how, rc


class Daemon:
    def __init__(self, img, opts="nofork", timeout=20):
        self.a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        for s in (self.a, b):
            for o in (socket.SO_SNDBUF, socket.SO_RCVBUF):
                s.setsockopt(socket.SOL_SOCKET, o, 1 << 22)
        self.mp = tempfile.mkdtemp(prefix="mp", dir=core.scratch())
        env = dict(os.environ, LD_PRELOAD=core.BIN["fuse"], VERIF_FUSE_FD=str(b.fileno()), TOKIO_WORKER_THREADS="1")
        env.pop("RUST_LOG", None)
        self.p = subprocess.Popen([core.BIN["fsd"], "-o", opts, img, self.mp], env=env, pass_fds=[b.fileno()],
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        b.close()
        self.u = 1
        self.timeout = core.limit(timeout) or 0.01
        try:
            self.req(INIT, 0, struct.pack("<IIII", 7, 31, 65536, 0))
            self.up = True
        except Dead as e:
            self.up = False
            self.dead = e

    def req(self, op, node, body=b""):
        """(error, payload)"""
        self.u += 1
        m = struct.pack("<IIQQIIII", 40 + len(body), op, self.u, node, 0, 0, 1, 0) + body
        try:
            self.a.send(m)
        except OSError:
            self._gone()
        while True:
            r, _, _ = select.select([self.a], [], [], self.timeout)
            if not r:
                core.SLOW.append(self.timeout)
                raise Dead("hang")
            try:
                d = self.a.recv(1 << 22)
            except OSError:
                d = b""
            if d == b"":
                self._gone()
            ln, err, u = struct.unpack("<IiQ", d[:16])
            if u == self.u:
                return -err, d[16:]

    def _gone(self):
        try:
            rc = self.p.wait(timeout=5)
        except subprocess.TimeoutExpired:
            raise Dead("hang")
        raise Dead("exit", rc)

    def attr(self, b):
        ino, size, blocks = struct.unpack("<QQQ", b[:24])
        mode, = struct.unpack("<I", b[60:64])
        return ino, size, "dir" if mode & 0o170000 == 0o040000 else "file" if mode & 0o170000 == 0o100000 else "other"

    def lookup(self, parent, name):
        e, d = self.req(LOOKUP, parent, name + b"\0")
        if e:
            return e, None
        node, = struct.unpack("<Q", d[:8])
        return 0, (node,) + self.attr(d[40:])

    def getattr(self, ino):
        e, d = self.req(GETATTR, ino, b"\0" * 16)
        return (e, None) if e else (0, self.attr(d[16:]))

    def open(self, ino, flags, op=OPEN):
        return self.req(op, ino, struct.pack("<II", flags, 0))[0]

    def read(self, ino, off, size):
        return self.req(READ, ino, struct.pack("<QQIIQII", 0, off & (2**64 - 1), size, 0, 0, 0, 0))

    def readdir(self, ino, off, size):
        e, d = self.req(READDIR, ino, struct.pack("<QQIIQII", 0, off & (2**64 - 1), size, 0, 0, 0, 0))
        if e:
            return e, []
        out = []
        while len(d) >= 24:
            i, o, nl, ty = struct.unpack("<QQII", d[:24])
            out.append((i, o, d[24:24 + nl], {4: "dir", 8: "file"}.get(ty, "other")))
            d = d[(24 + nl + 7) // 8 * 8:]
        return 0, out

    def close(self):
        self.a.close()
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        try:
            os.rmdir(self.mp)
        except OSError:
            pass
