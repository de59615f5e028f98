"""Collects verdicts of one check, writes its evidence file and decides its exit status."""
import json, os, sys, time, traceback
import core


class Report:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.evaluations = 0
        self.distinct = set()
        self.bad = []
        self.families = {}
        self.rules = []
        self.assumptions = []
        self.models = []
        self.extra = {}

    def mine(self, names):
        return {n for n in names if n.split("_")[0] == self.pid}

    def dump(self, module, traces, tags, seq):
        """For tools/selftest.py, which falsifies recorded events to see that the judge notices."""
        d = os.environ.get("VERIF_DUMP")
        if d and traces:
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "%s.%s.jsonl" % (self.pid, module)), "a") as f:
                for t, g in zip(traces, tags):
                    f.write(json.dumps(dict(seq=seq, family=g, trace=t)) + "\n")

    def judged(self, module, events, verdicts, tags, info=None, conj=()):
        """events judged by a specification module; tags name the family of each; info(i) describes it."""
        self.dump(module, [[e] for e in events], tags, False)
        self.evaluations += len(events)
        self.cov["traces_validated_against_impl"] += len(events)
        for i, e in enumerate(events):
            self.distinct.add(hash(json.dumps(e, sort_keys=True)))
            self.families[tags[i]] = self.families.get(tags[i], 0) + 1
        for i in sorted(verdicts):
            if any(n.startswith("TOOL") for n in verdicts[i]):
                raise core.ToolError("the reference of event %d is wrong: %s" % (i, verdicts[i]))
            m = self.mine(verdicts[i])
            if m:
                self.bad.append(dict(module=module, conjuncts=sorted(m), family=tags[i],
                                     scenario=info(i) if info else None, event=events[i]))
        if events and len(self.cov["samples"]) < 4:
            k = min(range(len(events)), key=lambda j: abs(len(json.dumps(events[j])) - 1500))
            s = json.dumps(events[k])
            self.cov["samples"].append(dict(module=module, family=tags[k], event=s[:3000]))

    def sessions(self, module, traces, tags, info=None):
        """As judged, for traces of several events each; a broken event condemns its trace."""
        self.dump(module, traces, tags, True)
        flat, v, owner = core.judge_seq(module, traces)
        self.evaluations += len(flat)
        self.cov["traces_validated_against_impl"] += len(traces)
        for i, t in enumerate(traces):
            self.distinct.add(hash(json.dumps(t, sort_keys=True)))
            self.families[tags[i]] = self.families.get(tags[i], 0) + 1
        seen = set()
        for k in sorted(v):
            m = self.mine(v[k])
            if m and owner[k] not in seen:
                seen.add(owner[k])
                i = owner[k]
                self.bad.append(dict(module=module, conjuncts=sorted(m), family=tags[i], scenario=info(i) if info else None,
                                     first_bad=flat[k], trace=traces[i]))
        if traces and len(self.cov["samples"]) < 4:
            k = min(range(len(traces)), key=lambda j: abs(len(json.dumps(traces[j])) - 2500))
            self.cov["samples"].append(dict(module=module, family=tags[k], trace=json.dumps(traces[k])[:4000]))

    def model(self, name, r, note):
        self.models.append(dict(model=name, distinct_states=r.distinct, generated=r.generated, bounds=note))

    def finish(self):
        self.cov["states"] = core.TLC_STATS["states"]
        self.cov["transitions"] = core.TLC_STATS["transitions"]
        self.cov["evaluations"] = self.evaluations
        self.cov["distinct_nontrivial"] = len(self.distinct)
        self.cov["rule"] = "; ".join(self.rules) or "events recorded from the real code, distinct by content"
        self.cov["families"] = self.families
        self.cov["models"] = self.models
        self.cov.update(self.extra)
        ev = dict(property=self.pid, tier="thorough" if core.THOROUGH else "quick", seed=core.SEED, level=self.level,
                  coverage=self.cov, assumptions=self.assumptions, wall_s=round(time.time() - core.T0, 2),
                  violations=len(self.bad))
        d = os.path.join(core.ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json.tmp"), "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(os.path.join(d, self.pid + ".json.tmp"), os.path.join(d, self.pid + ".json"))
        if not self.bad:
            core.log("%s holds on %d observations" % (self.pid, self.evaluations))
            return 0
        os.makedirs(os.path.join(d, "replay"), exist_ok=True)
        path = os.path.join(d, "replay", self.pid + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, seed=core.SEED, tier=core.TIER, violations=self.bad[:20],
                           total=len(self.bad)), f, indent=1)
        for b in self.bad[:10]:
            print("broken: %s in family %s" % (", ".join(b["conjuncts"]), b["family"]))
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        return 1
