"""Histories of calls on the library: written as scripts, run by drv_lib on the real
code, and judged by TLC against spec/LibTrace.tla."""
import json, os, random
from .common import *
from . import build, tlc as T

ALGS = ["md5", "sha1", "sha224", "sha256", "sha512"]
DLEN = dict(md5=16, sha1=20, sha224=28, sha256=32, sha512=64)
BLK = dict(md5=64, sha1=64, sha224=64, sha256=64, sha512=128)
LENF = dict(md5=8, sha1=8, sha224=8, sha256=8, sha512=16)


def gen(p, o, n):
    return dict(k="gen", p=p, o=o, n=n)


def lit(b):
    return dict(k="lit", b=list(b))


def null(n=0):
    return dict(k="null", n=n)


def big(n="M"):
    return dict(k="big", n=n)


DEF = dict(c=0, ref="ok", ctx="ok", outnull=False, e=1, hs=0, lay=0, fired=False)


def call(op, alg, **kw):
    e = dict(DEF)
    e.update(op=op, alg=alg)
    e.update(kw)
    if op in ("final", "calc", "hmac") and "hs" not in kw:
        e["hs"] = DLEN[alg]
    return e


def init(alg, **kw): return call("init", alg, **kw)
def free(alg, **kw): return call("free", alg, **kw)
def update(alg, d, **kw): return call("update", alg, d=d, **kw)
def final(alg, **kw): return call("final", alg, **kw)
def calc(alg, d, **kw): return call("calc", alg, d=d, **kw)
def hmac(alg, k, d, **kw): return call("hmac", alg, k=k, d=d, **kw)


def _data(d):
    if d["k"] == "gen":
        return "g:%d:%d:%d" % (d["p"], d["o"], d["n"])
    if d["k"] == "lit":
        return "h:" + bytes(d["b"]).hex()
    return "%s:%s" % (d["k"], d["n"])


def line(e):
    if e["op"] == "reset":
        return "op=reset"
    if e["op"] == "stream":
        return e.get("cmd", "op=stream")
    if e["op"] == "errtext":
        return "op=errtext fn=%d m=%d hs=%d null=%d" % (e["fn"], e["m"], e["hs"], e["null"])
    t = ["op=" + e["op"], "alg=" + e["alg"], "c=%d" % e["c"], "lay=%d" % e["lay"], "e=%d" % e["e"]]
    if e["ref"] == "null":
        t.append("ref=null")
    if e["ctx"] == "null":
        t.append("ctx=null")
    for f in ("d", "k", "s"):
        if f in e:
            t.append("%s=%s" % (f, _data(e[f])))
    if e["op"] in ("final", "calc", "hmac"):
        t.append("hs=%s" % e["hs"])
        if e["outnull"]:
            t.append("out=null")
    for f in ("st", "mis", "alias", "f", "fk", "sec"):
        if e.get(f):
            t.append("%s=%s" % (f, e[f]))
    return " ".join(t)


SAN_ENV = dict(ASAN_OPTIONS="exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_leaks=0",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
               MSAN_OPTIONS="exitcode=77", TSAN_OPTIONS="exitcode=66:halt_on_error=1")


def execute(exe, traces, timeout=300):
    """Runs histories (lists of calls). Returns them with responses; a call at which
    the process died carries crash=<reason> and ends its history."""
    env = dict(os.environ)
    env.update(SAN_ENV)
    out = []
    i = 0
    while i < len(traces):
        if Enough.reached():
            # a history of nothing, so that positions stay as they are
            out += [[dict(op="reset", keep=False, live=0)] for _ in traces[i:]]
            break
        lines = []
        for t in traces[i:]:
            lines.append("op=reset")
            lines += [line(e) for e in t]
        why = ""
        try:
            r = run([exe], input=("\n".join(lines) + "\n").encode(), timeout=timeout, env=env)
            so, rc, se = r.stdout, r.returncode, r.stderr
        except subprocess.TimeoutExpired as x:
            so, rc, se = x.stdout or b"", -999, b""
            Enough.add(Enough.limit)
        if rc:
            Enough.add()
        if rc == 3:
            raise Broken("driver: " + se.decode(errors="replace")[-500:])
        res = []
        for x in so.decode(errors="replace").split("\n"):
            if not x.startswith("{") or not x.endswith("}"):
                continue
            res.append(json.loads(x))
        j = 0
        done = True
        for t in traces[i:]:
            tr = []
            i += 1
            if j < len(res):
                tr.append(dict(op="reset", keep=False, live=res[j]["live"]))
                j += 1
            else:
                tr.append(dict(op="reset", keep=False, live=0))
            died = False
            for e in t:
                ev = dict(e)
                if j < len(res):
                    rr = res[j]
                    j += 1
                    ev.update(rr)
                    ev["fired"] = bool(rr["fired"])
                    ev["crash"] = ""
                else:
                    ev["crash"] = "timeout" if rc == -999 else "exit %d: %s" % (
                        rc, se.decode(errors="replace")[:300])
                    died = True
                tr.append(ev)
                if died:
                    break
            out.append(tr)
            if died:
                done = False
                break
        if done and rc != 0:
            # died after the last answer
            out[-1][-1]["crash"] = "exit %d at the end: %s" % (rc, se.decode(errors="replace")[:300])
    return out


STRIP = ("lay", "st", "mis", "alias", "f", "fk", "sec", "ops", "s", "cmd")


def event_json(e):
    x = {k: v for k, v in e.items() if k not in STRIP}
    for f in ("d", "k"):
        if f in x and x[f]["k"] in ("null", "big"):
            x[f] = dict(k=x[f]["k"])
    if "hs" in x and not isinstance(x["hs"], int):
        x["hs"] = {"U": -2, "S": -3, "V": -4}.get(x["hs"], -1)
    return json.dumps(x, sort_keys=True)


def cost(tr, mode):
    if mode == "learn":
        return len(tr)
    n = 0
    for e in tr:
        n += 1
        if e["op"] == "stream":
            n += 20 + len(e["t"]) // BLK[e["alg"]] * 10
        for f in ("d", "k"):
            d = e.get(f)
            if d and d["k"] in ("gen", "lit"):
                n += 20 + (d.get("n") or len(d.get("b", ()))) // BLK[e["alg"]] * 10
    return n


class Verdict:
    def __init__(self):
        self.violations = []       # (trace with responses, index, aspects, expected, label)
        self.states = self.transitions = self.traces = self.events = self.unique = 0


def judge(items, mode, aspects, jobs=JOBS, timeout=800, groups=None):
    """items: list of (label, trace with responses). Identical traces are judged once.
    groups: list of lists of indexes that share one memory of results (mode learn)."""
    v = Verdict()
    v.traces = len(items)
    units = []                     # lists of (label, trace) judged in one go without forgetting
    if groups is None:
        seen = {}
        for lab, tr in items:
            key = "\n".join(event_json(e) for e in tr[1:]) + str(tr[0]["live"])
            if key in seen:
                seen[key][0] += 1
                continue
            seen[key] = [1]
            units.append([(lab, tr)])
    else:
        for g in groups:
            seen = set()
            u = []
            for i in g:
                lab, tr = items[i]
                key = "\n".join(event_json(e) for e in tr[1:])
                if key in seen:
                    continue
                seen.add(key)
                u.append((lab, tr))
            units.append(u)
    v.unique = sum(len(u) for u in units)
    units.sort(key=lambda u: -sum(cost(t, mode) for _, t in u))
    total = sum(cost(t, mode) for u in units for _, t in u)
    nsh = max(1, min(jobs, len(units), 1 + total // 4000))
    shards = [[0, []] for _ in range(nsh)]
    for u in units:
        s = min(shards, key=lambda s: s[0])
        s[1].append(u)
        s[0] += sum(cost(t, mode) for _, t in u)
    d = sub("traces")

    def one(k):
        us = list(shards[k][1])
        rounds = 0
        found = []
        st = tr_ = evs = 0
        while us and rounds < 4:
            rounds += 1
            path = os.path.join(d, "t%d-%d-%d.ndjson" % (id(v), k, rounds))
            where = [None, None]
            with open(path, "w") as f:
                f.write(json.dumps(dict(op="header", mode=mode, aspects=sorted(aspects))) + "\n")
                for ui, u in enumerate(us):
                    for n, (lab, t) in enumerate(u):
                        for ei, e in enumerate(t):
                            if e["op"] == "reset":
                                e = dict(e, keep=n > 0)
                            f.write(event_json(e) + "\n")
                            where.append((ui, n, ei))
            r = T.tlc(os.path.join(SPEC, "LibTrace.tla"), env=dict(TRACE=path), timeout=timeout)
            os.unlink(path)
            st += r.distinct
            tr_ += r.generated
            if r.clean():
                evs += len(where) - 2
                break
            if not r.bad:
                raise Broken("TLC could not judge a trace:\n" + r.out[-3000:])
            pos = int(r.bad[0][0])
            ui, n, ei = where[pos]
            lab, t = us[ui][n]
            asp = r.bad[0][1].split("}")[0].strip("{ ").replace('"', "")
            exp = r.bad[0][1].split("}", 1)[1].strip(", \n") if "}" in r.bad[0][1] else ""
            found.append((t, ei, asp, exp, lab, us[ui][:n] if groups is not None else []))
            evs += pos - 2
            us = us[ui + 1:]
        return found, st, tr_, evs

    for found, st, tr_, evs in pmap(one, range(nsh), jobs):
        v.violations += found
        v.states += st
        v.transitions += tr_
        v.events += evs
    return v
