#!/usr/bin/env python3
"""Planted bugs.  seed.py tree            a scratch copy of /repo at /tmp/seed/repo
seed.py save ID PROPERTY   its working-tree diff becomes seeded/ID/patch.diff (demo.sh and meta.json are written by hand)
seed.py confirm ID...      in the scratch copy: applies, builds, passes the stable tests, demo 0 without / non-zero with it
seed.py check ID...        runs the property's check (or --all: every check) against the scratch copy with the patch
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seed"
R = S + "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, executable="/bin/bash", **k)


def tree():
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(R):
        sh("cp -a /repo " + R)
    sh("git -C %s fetch -q /repo HEAD; git -C %s checkout -qf FETCH_HEAD; git -C %s clean -fdq" % (R, R, R))
    for n in ("build.sh", "test.sh"):
        open(S + "/" + n, "w").write(open("/opt/vp/" + n).read().replace("/repo", R))


def clean():
    sh("git -C %s checkout -qf ." % R)


def apply(i):
    clean()
    p = sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, V, i))
    if p.returncode:
        raise SystemExit(i + ": does not apply: " + p.stdout)


def stable():
    sh("bash %s/test.sh %s/out.json" % (S, S))
    d = json.load(open(S + "/out.json"))
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ok = set(d.get("passed", d.get("pass", [])))
    return [w for w in want if w not in ok]


def demo(i):
    p = sh("cp -a %s/seeded/%s %s/d; bash %s/d/demo.sh; r=$?; rm -rf %s/d; exit $r" % (V, i, S, S, S), cwd=R, timeout=300)
    return p.returncode, p.stdout


def confirm(ids):
    tree()
    clean()
    b = sh("bash %s/build.sh" % S)
    assert b.returncode == 0, b.stdout[-2000:]
    base = {i: demo(i) for i in ids}
    for i in ids:
        apply(i)
        b = sh("bash %s/build.sh" % S)
        if b.returncode:
            print(i, "DOES NOT BUILD", b.stdout[-1500:])
            continue
        miss = stable()
        d = demo(i)
        good = base[i][0] == 0 and d[0] != 0 and not miss
        print(i, "CONFIRMED" if good else "NOT OK: tests %s, demo clean %s, demo patched %s" % (miss, base[i], d), flush=True)
        if good:
            print("   ", d[1].strip()[-200:].replace("\n", " | "), flush=True)
    clean()


def check(ids, all_):
    tree()
    for i in ids:
        apply(i)
        m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
        ps = [m["property"]]
        if all_:
            ps = [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        res = []
        for p in ps:
            e = dict(os.environ, VERIF_REPO=R, VERIF_TARGET=S + "/target")
            x = sh("python3 %s/check.py %s" % (V, p), env=e)
            b = [l for l in x.stdout.splitlines() if l.startswith("broken")]
            if x.returncode or not all_:
                res.append("%s rc %d %s" % (p, x.returncode, b[:2] if x.returncode == 1 else x.stdout[-1500:] if x.returncode else ""))
        print(i, "|", "; ".join(res), flush=True)
    clean()


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "tree":
        tree()
        clean()
    elif a[0] == "save":
        d = "%s/seeded/%s" % (V, a[1])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
        clean()
    elif a[0] == "confirm":
        confirm(a[1:] or sorted(os.listdir(V + "/seeded")))
    elif a[0] == "check":
        ids = [x for x in a[1:] if x != "--all"] or sorted(os.listdir(V + "/seeded"))
        check(ids, "--all" in a)
