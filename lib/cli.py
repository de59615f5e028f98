"""Runs the real command line tool inside scratch directories."""
import hashlib, os, resource, shutil, signal, stat, subprocess, tempfile
import core
from rawimg import h, BIG


def box(prefix="box"):
    return tempfile.mkdtemp(prefix=prefix, dir=core.scratch())


def wipe(d):
    shutil.rmtree(d, ignore_errors=True)


class Out:
    """rc, out, err and how it ended: ok, err (an exit status of its own), panic, hang, signal."""

    def __repr__(self):
        return "Out(%s rc=%s err=%r)" % (self.how, self.rc, self.err[-300:])


def run(args, cwd, argv0="xdvdfs", fault=None, timeout=60, uid=None, mem=8 << 30, env=None, fsize=None, bin=None):
    e = dict(os.environ, TOKIO_WORKER_THREADS="1")
    e.pop("RUST_LOG", None)
    e.pop("RUST_BACKTRACE", None)
    if fault:
        e["LD_PRELOAD"] = core.BIN["fault"]
        e.update(fault)
    e.update(env or {})

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if fsize:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if uid is not None:
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)
    o = Out()
    try:
        p = subprocess.run([argv0] + list(args), executable=bin or core.BIN["cli"], cwd=cwd, env=e, capture_output=True,
                           stdin=subprocess.DEVNULL, timeout=core.limit(timeout) or 0.01, preexec_fn=pre)
        o.rc, o.out, o.err = p.returncode, p.stdout, p.stderr.decode("utf-8", "replace")
        o.how = "ok" if p.returncode == 0 else "signal" if p.returncode < 0 else \
            "panic" if p.returncode in (101, 134) else "err"
        if o.how == "signal" and p.returncode in (-6, -11, -4, -7):
            o.how = "panic"
    except subprocess.TimeoutExpired as x:
        core.SLOW.append(timeout)
        o.rc, o.out, o.err, o.how = None, x.stdout or b"", "", "hang"
    return o


def fid(path):
    """Content id of a host file, as for images."""
    n = os.path.getsize(path)
    with open(path, "rb") as f:
        if n >= BIG:
            a = f.read(16)
            f.seek(n - 16)
            b = f.read(16)
            return "V" + a.hex() if a == b else "V?" + a.hex() + b.hex()
        return h(f.read())


def snap(d, content=True):
    """{relative path: ("d"|"f"|"l"|"o", id)} of everything below d."""
    out = {}
    for base, ds, fs in os.walk(d, followlinks=False):
        for n in ds + fs:
            p = os.path.join(base, n)
            r = os.path.relpath(p, d)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[r] = ("l", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[r] = ("d", "")
            elif stat.S_ISREG(st.st_mode):
                out[r] = ("f", fid(p) + ":%d" % st.st_size if content else "")
            else:
                out[r] = ("o", "")
    return out
