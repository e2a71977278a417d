"""The outcome of a check: evidence file, replay files, exit status."""
import json, os, re, time
from .common import *
from . import gen, lib

LEVELS = {}


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.viol = []            # (signature, text, replay dict)
        self.states = self.transitions = self.traces = self.events = self.unique = 0
        self.samples, self.notes, self.runs = [], {}, []

    def add(self, v, what):
        """Takes over the verdict on a batch of recorded histories."""
        self.states += v.states
        self.transitions += v.transitions
        self.traces += v.traces
        self.events += v.events
        self.unique += v.unique
        self.runs.append(dict(what=what, histories=v.traces, distinct=v.unique, calls_judged=v.events))
        for t, i, asp, exp, lab, ctx in v.violations:
            e = t[i]
            sig = "%s:%s:%s" % (e.get("op"), e.get("alg", ""), asp.replace(" ", "") or "crash")
            self.violation(sig, "%s [%s]: promise %s broken by call %d: %s" % (
                what, lab, asp, i, short(e)),
                dict(kind="lib", label=lab, aspects=asp, expected=exp, position=i,
                     history=[lib.line(x) for x in t[:i + 1] if x["op"] != "reset"],
                     observed={k: v for k, v in e.items()},
                     earlier=[[x for x in tt if True] for _, tt in ctx][-3:]))

    def violation(self, sig, text, replay):
        self.viol.append((sig, text, replay))

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finish(self, level="model_checking", assumptions=(), extra=None):
        os.makedirs(EVID, exist_ok=True)
        known = load_known()
        out, seen = [], {}
        for sig, text, rep in self.viol:
            k = [x for x in known if x["property"] == self.pid and re.fullmatch(x["match"], sig)]
            if k:
                seen[k[0]["match"]] = k[0]
            else:
                out.append((sig, text, rep))
        for m in gen.MODELS:
            self.states += m["distinct"]
            self.transitions += m["generated"]
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   distinct_histories=self.unique, calls_judged=self.events, batches=self.runs,
                   models=gen.MODELS, samples=self.samples or ["(no sample)"])
        cov.update(self.notes)
        cov.update(extra or {})
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level=level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=[dict(signature=s, text=t[:500]) for s, t, _ in out],
                  assumptions=list(assumptions))
        path = os.path.join(EVID, self.pid + ".json")
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, path)
        for m, k in seen.items():
            log("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        n = 0
        for sig, text, rep in out[:5]:
            n += 1
            rp = os.path.join(EVID, "replay-%s-%d.json" % (self.pid, n))
            with open(rp, "w") as f:
                json.dump(dict(property=self.pid, signature=sig, text=text, **rep), f, indent=1, default=str)
            log(text[:600])
            log("VIOLATION property=%s replay=%s" % (self.pid, rp))
        log("%s %s: %d histories (%d distinct, %d calls) judged, %d model states, %.1f s, %d violations" % (
            self.pid, self.tier, self.traces, self.unique, self.events, self.states, time.time() - self.t0, len(out)))
        return 1 if out else 0


def short(e):
    return json.dumps({k: v for k, v in e.items() if k not in ("c",)}, default=str)[:420]


def load_known():
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l.strip())
            if m:
                r.append(dict(property=m.group(1), match=m.group(2), text=m.group(3)))
    return r
