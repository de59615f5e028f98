#!/usr/bin/env python3
"""selftest.py Cnn [trials]: how sensitive is the judge of a check?

Runs the check, falsifies single fields of events it recorded from the real code (which the judge accepted), and has the
specification judge those.  Prints, per kind of field, how many falsifications were rejected (by a conjunct of this or
another property).  Accepted ones are fields nothing depends on (inputs, labels) or holes in the judge."""
import copy, json, os, random, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import core


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        if x:
            yield path + ("#drop",)
            yield path + ("#dup",)
            if len(x) > 1:
                yield path + ("#swap",)
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path


def kind(path):
    return ".".join("*" if isinstance(p, int) else str(p) for p in path)


def falsify(x, path, rnd):
    x = copy.deepcopy(x)
    o = x
    special = path[-1] if isinstance(path[-1], str) and path[-1].startswith("#") else None
    for p in path[:-1]:
        o = o[p]
    if special:
        if special == "#drop":
            del o[rnd.randrange(len(o))]
        elif special == "#dup":
            o.append(copy.deepcopy(o[rnd.randrange(len(o))]))
        else:
            i = rnd.randrange(len(o) - 1)
            if o[i] == o[i + 1]:
                return None
            o[i], o[i + 1] = o[i + 1], o[i]
        return x
    v = o[path[-1]]
    if isinstance(v, bool):
        o[path[-1]] = not v
    elif isinstance(v, int):
        o[path[-1]] = v + 1 if v < 2 ** 31 - 1 else v - 1
    elif isinstance(v, str):
        o[path[-1]] = v + "?"
    else:
        return None
    return x


def judge_safely(module, items, seq):
    """items: list of traces; returns list of 'rejected' / 'accepted' / 'error'."""
    try:
        if seq:
            flat, v, owner = core.judge_seq(module, items)
            bad = {owner[k] for k in v}
        else:
            bad = set(core.judge(module, [t[0] for t in items], shards=1))
        return ["rejected" if i in bad else "accepted" for i in range(len(items))]
    except core.ToolError:
        if len(items) == 1:
            return ["error"]
        h = len(items) // 2
        return judge_safely(module, items[:h], seq) + judge_safely(module, items[h:], seq)


def main():
    pid = sys.argv[1]
    trials = int(sys.argv[2]) if len(sys.argv) > 2 else 150
    d = tempfile.mkdtemp(prefix="selftest-")
    try:
        subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), pid], check=True, cwd=ROOT,
                       env=dict(os.environ, VERIF_DUMP=d), stdout=subprocess.DEVNULL)
        for f in sorted(os.listdir(d)):
            rnd = random.Random(1)
            recs = [json.loads(l) for l in open(os.path.join(d, f))]
            recs = [r for r in recs if len(json.dumps(r)) < 40000] or recs
            module, seq = f.split(".")[1], recs[0]["seq"]
            kinds = {}
            for ri in rnd.sample(range(len(recs)), min(len(recs), 400)):
                for p in leaves(recs[ri]["trace"]):
                    if len(p) >= 2:
                        kinds.setdefault(kind(p[1:]), []).append((ri, p))
            picked = []
            names = sorted(kinds)
            while names and len(picked) < trials:
                for k in names:
                    ri, p = rnd.choice(kinds[k])
                    x = falsify(recs[ri]["trace"], p, rnd)
                    if x is not None:
                        picked.append((k, x))
            res = judge_safely(module, [x for _, x in picked], seq)
            print("== %s %s: %d falsified, %d rejected" % (pid, module, len(res), sum(r != "accepted" for r in res)))
            for k in names:
                rs = [r for (kk, _), r in zip(picked, res) if kk == k]
                acc = sum(r == "accepted" for r in rs)
                if acc:
                    print("   %-50s accepted %d of %d" % (k, acc, len(rs)))
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    main()
