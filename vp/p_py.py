"""Properties of the Python module."""
import json, os, random, re, subprocess, time
from .common import *
from . import build, gen as G, lib as L, tlc as T

ALGS = L.ALGS
ASP = dict(P01=["accept", "digest", "type"], P02=["accept", "life", "live", "single", "grow", "refs", "unraisable", "errs"],
           P03=["refuse", "accept", "life", "digest", "type", "live", "refs", "errs", "grow"])
DRV = os.path.join(SHIM, "drv_py.py")


def rng(n=0):
    return random.Random(SEED * 1000003 + n)


def g(p, o, n):
    return dict(p=p, o=o, n=n)


def op(o, alg, i=0, **kw):
    e = dict(op=o, alg=alg, o=i, form="pos", val="bytes", kval="bytes", d=g(0, 0, 0), k=g(0, 0, 0), pend=False, fired=False)
    e.update(kw)
    return e


# name -> environment
MODES = {"": {}, "debug": dict(PYTHONMALLOC="debug"), "malloc": dict(PYTHONMALLOC="malloc", MALLOC_PERTURB_="165")}


def environment(exe, mode):
    env = dict(os.environ)
    env.update(L.SAN_ENV)
    env.update(VP_PY_DIR=exe[0], PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    env.update(MODES[mode])
    if exe[1] == "asan":
        env.update(LD_PRELOAD=run(["gcc", "-print-file-name=libasan.so"]).stdout.decode().strip(), PYTHONMALLOC="malloc")
    return env


def modules(cfgs, gates=False):
    """cfgs: (configuration, sanitizer, mode)."""
    pairs = sorted({c[:2] for c in cfgs})
    dirs = dict(zip(pairs, pmap(lambda c: build.python(*c, gates=gates), pairs)))
    out = []
    for c in cfgs:
        exe = (dirs[c[:2]], c[1])
        env = environment(exe, c[2])
        r = run([build.PYTHON, "-s", "-E", "-c", "pass"] if False else [build.PYTHON, DRV], env=env, input=b"", timeout=60)
        if r.returncode != 0:
            raise Broken("the module cannot be imported (%s): %s" % (c, r.stderr.decode(errors="replace")[-1500:]))
        out.append(("%s%s%s" % (c[0], "+" + c[1] if c[1] else "", "," + c[2] if c[2] else ""), env))
    return out


def execute(jobs, timeout=300, chunk=300):
    """jobs: (label, environment, history, grow). Gives (label, history, events)."""
    groups = {}
    for i, (lab, env, h, gr) in enumerate(jobs):
        groups.setdefault(lab, []).append(i)
    work = [(ix[k:k + chunk]) for ix in groups.values() for k in range(0, len(ix), chunk)]
    out = [None] * len(jobs)
    ver = build.version()

    def text(j):
        lab, env, h, gr = j
        w = []
        for c in h:
            x = {k: v for k, v in c.items() if k != "fired"}
            if c["op"] == "version":
                x["expect"] = ver
            w.append(x)
        return json.dumps(dict(ops=w, grow=gr))

    def one(ix):
        ix = list(ix)
        while ix and not Enough.reached():
            try:
                r = run([build.PYTHON, DRV], env=jobs[ix[0]][1], timeout=timeout,
                        input="".join(text(jobs[i]) + "\n" for i in ix).encode())
                so, rc, se = r.stdout, r.returncode, r.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired as x:
                so, rc, se = x.stdout or b"", "timeout", ""
                Enough.add(Enough.limit)
            if rc:
                Enough.add()
            res = [json.loads(x) for x in so.decode().split("\n") if x.startswith("{") and x.endswith("}")]
            j, n = 0, 0
            for i in ix:
                lab, env, h, gr = jobs[i]
                evs, died = [], False
                evs.append(dict(op="reset", live=res[j]["live"] if j < len(res) else 0))
                j += 1
                for c in h + ([dict(op="grow", o=0)] if gr else []):
                    e = dict(c)
                    if j < len(res):
                        e.update(res[j])
                        e["crash"] = ""
                        if "fired" in e:
                            e["fired"] = bool(e["fired"])
                    else:
                        e["crash"] = "%s: %s" % (rc, se[-300:])
                        died = True
                    j += 1
                    evs.append(e)
                    if died:
                        break
                n += 1
                out[i] = evs
                if died:
                    break
            if rc and n == len(ix) and not died:
                out[ix[-1]][-1]["crash"] = "%s at the end: %s" % (rc, se[-300:])
            ix = ix[n:]
    pmap(one, work)
    return [(jobs[i][0], jobs[i][2], out[i]) for i in range(len(jobs)) if out[i] is not None]


def parallel(jobs, rounds, timeout=300):
    """jobs: (label, environment, one list of histories per thread). Every thread goes
    through its histories again and again; what they answered, each history by itself."""
    def one(j):
        lab, env, hs = j
        if Enough.reached():
            return []
        try:
            r = run([build.PYTHON, DRV], env=env, timeout=timeout, input=(json.dumps(dict(par=hs, rounds=rounds)) + "\n").encode())
            so, rc, se = r.stdout, r.returncode, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as x:
            so, rc, se = x.stdout or b"", "timeout", ""
        out = []
        for x in so.decode().split("\n"):
            if x.startswith("{") and x.endswith("}"):
                x = json.loads(x)
                out.append((lab, x["unit"], [dict(op="reset", live=0)] + [dict(c, **dict(e, crash="", fired=False)) for c, e in zip(x["unit"], x["answers"])]))
        if rc or not out:
            Enough.add()
            out.append((lab, hs[0][0], [dict(op="reset", live=0), dict(hs[0][0][0], crash="%s: %s" % (rc, se[-300:]))]))
        return out
    return [x for r in pmap(one, jobs, 2) for x in r]


DROP = ("ops", "at", "kinds")


def event_json(e):
    if e["op"] == "reset":
        return json.dumps(dict(op="reset", live=e["live"]))
    if e["op"] == "grow":
        return json.dumps(dict(op="grow", o=0, grow=e.get("grow", 0), crash="yes" if e["crash"] else ""))
    x = {k: v for k, v in e.items() if k not in DROP}
    if x["crash"]:
        x["crash"] = "yes"
    return json.dumps(x, sort_keys=True)


def weigh(evs, digests):
    n = len(evs)
    if digests:
        m = {}
        for e in evs:
            if e["op"] == "reset" or e.get("kind") != "bytes":
                if e["op"] == "update":
                    m[e["o"]] = m.get(e["o"], 0) + e["d"]["n"]
                continue
            n += 20 + 10 * ((m.get(e["o"], 0) if e["op"] == "final" else e["d"]["n"] + e["k"]["n"]) // 64)
    return n


def judge(rep, done, aspects, what, timeout=800):
    units, seen = [], set()
    for lab, h, evs in done:
        rep.traces += 1
        key = "\n".join(event_json(e) for e in evs)
        if key in seen:
            continue
        seen.add(key)
        units.append((key, lab, evs))
    digests = "digest" in aspects
    units.sort(key=lambda u: -weigh(u[2], digests))
    total = sum(weigh(u[2], digests) for u in units)
    nsh = max(1, min(JOBS, 1 + total // 4000, len(units)))
    d = sub("traces")

    def one(k):
        mine = units[k::nsh]
        where = [None]
        path = os.path.join(d, "p%d-%d.ndjson" % (id(units), k))
        with open(path, "w") as f:
            f.write(json.dumps(dict(aspects=sorted(aspects))) + "\n")
            where.append(None)
            for u in mine:
                f.write(u[0] + "\n")
                where += [(u, i) for i in range(len(u[2]))]
        r = T.tlc(os.path.join(SPEC, "PyTrace.tla"), env=dict(TRACE=path), timeout=timeout)
        os.unlink(path)
        if not r.clean() and not r.bad:
            raise Broken("TLC could not judge calls:\n" + r.out[-3000:])
        if r.distinct < len(where) - 1:
            raise Broken("TLC stopped within a trace:\n" + r.out[-3000:])
        return r, [(where[int(p)], rest) for p, rest in r.bad], len(where) - 2
    n = 0
    for r, bad, cnt in pmap(one, range(nsh)):
        rep.states += r.distinct
        rep.transitions += r.generated
        n += cnt
        for ((key, lab, evs), i), rest in bad:
            asp = rest.split("}")[0].strip("{ ").replace('"', "")
            exp = rest.split("}", 1)[1].strip(", \n")[:600] if "}" in rest else ""
            e = evs[i]
            rep.violation("py:%s:%s:%s" % (e["op"], e.get("alg", ""), asp.replace(" ", "")),
                          "%s [%s]: promise %s broken by operation %d: %s" % (what, lab, asp, i, json.dumps({k: v for k, v in e.items() if k in SHOW})[:400]),
                          dict(kind="py", label=lab, aspects=asp, expected=exp, position=i, observed=e,
                               history=[{k: v for k, v in x.items() if k not in ("out",)} for x in evs[:i + 1]]))
    rep.unique += len(units)
    rep.events += n
    rep.runs.append(dict(what=what, histories=len(done), distinct=len(units), operations_judged=n))


SHOW = ("op", "alg", "form", "val", "kval", "d", "k", "pend", "fired", "kind", "exc", "out", "exact", "live", "errs", "refs", "unraisable", "crash", "grow")


def scripts(cfg, emit):
    r = G.model("PyModel", cfg, env=dict(EMIT=emit), workers=1 if emit == "transitions" else 8)
    out, seen = [], set()
    for s in G._emitted(r.out, "T"):
        key = json.dumps(s["h"], sort_keys=True)
        if key not in seen:
            seen.add(key)
            out.append(s["h"])
    return out


def with_alg(h, a, fin=True):
    """The history with the algorithm of the model replaced, and what is left open ended."""
    B = L.BLK[a]
    out = []
    for c in h:
        c = dict(c, alg=a)
        out.append(c)
    if fin:
        alive = {}
        for c in out:
            if c["op"] in ("make", "raw"):
                alive[c["o"]] = 1
            elif c["op"] == "drop":
                alive.pop(c["o"], None)
        for o in sorted(alive):
            out.append(op("final", a, o))
            out.append(op("drop", a, o))
    return out


def bad(c):
    return c["form"] not in ("pos", "kw", "mix") or c["val"] not in ("bytes", "sub") or c["kval"] not in ("bytes", "sub") or c["pend"]


def spread(hs, exes, k=0, grow=False):
    return [exes[(i + k) % len(exes)] + (h, grow) for i, h in enumerate(hs)]


def P01(rep, tier):
    deep = tier == "thorough"
    r = rng(201)
    exes = modules([("fb", "", ""), ("evp2", "", "debug"), ("low", "", ""), ("fb", "asan", "")])
    G.model("PyModel", "PyModel")
    asp = ASP["P01"]
    hs = []
    # one-shot calls and contexts over lengths
    for a in ALGS:
        B = L.BLK[a]
        Lf = L.LENF[a]
        lens = sorted({0, 1, 2, B - Lf - 2, B - Lf - 1, B - Lf, B - 1, B, B + 1, 2 * B - Lf - 1, 2 * B - Lf, 2 * B, 2 * B + 1} | set(range(0, 3 * B + 4, 1 if deep else 7)))
        for n in lens:
            p = r.randrange(250)
            f = r.choice(["pos", "kw"])
            v = r.choice(["bytes", "bytes", "sub"])
            k = r.choice([0, 1, B - 1, B, B + 1, 2 * B, r.randrange(3 * B)])
            cut = r.randrange(n + 1)
            o = r.randrange(4)
            hs.append([op("calc", a, 0, form=f, val=v, d=g(p, 0, n)),
                       op("hmac", a, 0, form=r.choice(["pos", "kw", "mix"]), val=v, kval=r.choice(["bytes", "sub"]), d=g(p, 0, n), k=g(p + 1, 3, k)),
                       op("make", a, o), op("update", a, o, form=f, val=v, d=g(p, 0, cut)), op("update", a, o, form=r.choice(["pos", "kw"]), d=g(p, cut, n - cut)),
                       op("final", a, o), op("drop", a, o)])
        for k in sorted({0, 1, 19, 20, 21, B - 1, B, B + 1, B + 20, 2 * B - 1, 2 * B, 2 * B + 1}):
            for f in ("pos", "kw", "mix"):
                hs.append([op("hmac", a, 0, form=f, d=g(4, 0, r.randrange(2 * B)), k=g(5, 0, k))])
        hs.append([op("version", a)])
    rep.sample(hs[5])
    done = execute(spread(hs, exes))
    judge(rep, done, asp, "one-shot and incremental digests of lengths and forms")
    # all orders of operations of one and two objects
    hs = []
    for cfg in ("PyOne", "PyPair"):
        ss = scripts(cfg, "histories")
        r.shuffle(ss)
        ss = [s for s in ss if any(c["op"] == "final" for c in s)]
        for i, s in enumerate(ss[:6000 if deep else 1200]):
            hs.append(with_alg(s, ALGS[i % 5]))
    # random splittings, two objects of different algorithms taking turns
    for i in range(600 if deep else 150):
        a = [r.choice(ALGS), r.choice(ALGS)]
        h = [op("make", a[0], 0), op("make", a[1], 1)]
        pos = [0, 0]
        for j in range(r.randrange(1, 12)):
            o = r.randrange(2)
            n = r.choice([0, 1, 2, 63, 64, 65, 127, 128, 129, r.randrange(100)])
            h.append(op("update", a[o], o, form=r.choice(["pos", "kw"]), d=g(o, pos[o], n)))
            pos[o] += n
        for o in (0, 1):
            h += [op("final", a[o], o), op("drop", a[o], o)]
        hs.append(h)
    done = execute(spread(hs, exes, 1))
    judge(rep, done, asp, "orders of operations of one and two objects")
    # threads
    jobs = []
    for i in range(24 if deep else 8):
        w = []
        for t in range(8 if i % 2 else 4):
            a = r.choice(ALGS) if i % 4 < 2 else ALGS[i // 4 % 5]
            h = []
            for j in range(2):
                m = r.randrange(100, 2500)
                h.append([op("calc", a, t, d=g(t, j, m))])
                h.append([op("hmac", a, t, d=g(t, j, m), k=g(t, 1, r.randrange(300)))])
                h.append([op("make", a, t), op("update", a, t, d=g(t, 0, m)), op("update", a, t, d=g(t, m, j)), op("final", a, t), op("drop", a, t)])
            w.append(h)
        jobs.append(exes[i % len(exes)] + (w,))
    done = parallel(jobs, 300 if deep else 150)
    judge(rep, done, asp, "threads with objects of their own")
    # sizes that 32 bits cannot tell
    n = 2 ** 32 + 2 ** 31
    jobs = []
    for i, a in enumerate(ALGS):
        for j, how in enumerate(("calc", "hmac", "context", "bigkey")):
            x = (j * 37 + 5) % (2 * L.BLK[a])
            jobs.append((exes[2], dict(alg=a, how=how, n=n + x, x=x)))
    jobs.sort(key=lambda j: j[1]["how"] != "bigkey")

    def one(j):
        (lab, env), c = j
        if Enough.reached():
            return None
        e = dict(op="stream", kind="hash", alg=c["alg"], ret=-9, crash="", live=0, errs=0, t=[], h=[], n=[0, 0, 0, 0], key=[], out=[])
        try:
            x = run([build.PYTHON, DRV], env=env, timeout=400, input=(json.dumps(dict(big=c)) + "\n").encode())
            if x.returncode == 0 and x.stdout.startswith(b"{"):
                e.update(json.loads(x.stdout))
            elif b"MemoryError" in x.stderr or x.returncode == -9:
                raise Broken("no memory for a large message")
            else:
                e["crash"] = "exit %d: %s" % (x.returncode, x.stderr.decode(errors="replace")[-300:])
        except subprocess.TimeoutExpired:
            e["crash"] = "timeout"
        if e["crash"]:
            Enough.add(4)
        e["cmd"] = json.dumps(c)
        return (lab, [dict(op="reset", keep=False, live=0), e])
    items = [x for x in pmap(one, jobs) if x]
    rep.add(L.judge(items, "compute", ["digest"]), "more than 6 GiB of data or key")
    return rep.finish(assumptions=ASSUME + ["content of more than 6 GiB is all zero; the chaining value of its whole blocks comes from libcrypto"])


ASSUME = ["libcerror is a stand-in in /verif/shim with the interface of the original", "CPython 3.12 only"]


def tails(h, a):
    """What a program does after the history: goes on with the object, or not."""
    st = {}
    for c in h:
        if c["op"] in ("make", "raw"):
            st[c["o"]] = 1
        elif c["op"] == "drop":
            st.pop(c["o"], None)
    o = sorted(st)[0] if st else 0
    if not st:
        return [[op("make", a, 0), op("update", a, 0, d=g(1, 0, 5)), op("final", a, 0), op("drop", a, 0)]]
    return [[op("drop", a, o)],
            [op("drop", a, o, pend=True)],
            [op("update", a, o, d=g(1, 0, 5)), op("final", a, o), op("drop", a, o)],
            [op("reinit", a, o), op("update", a, o, d=g(1, 0, 70)), op("final", a, o), op("reinit", a, o), op("drop", a, o)]]


def faults(exes, r, deep, kinds=127):
    """Histories whose last operation meets one failing resource or back end operation,
    for each that there is; with what follows."""
    heads = []
    for a in ALGS:
        B = L.BLK[a]
        m = op("make", a, 0)
        u = [op("update", a, 0, d=g(2, 0, n)) for n in (3, B, B + 1)]
        heads += [[m], [op("raw", a, 0), op("reinit", a, 0)], [m, op("reinit", a, 0)], [m, u[1], op("reinit", a, 0)],
                  [m, op("drop", a, 0)], [m, u[0], op("drop", a, 0)], [m, u[0], op("drop", a, 0, pend=True)],
                  [m, u[0], op("final", a, 0), op("drop", a, 0)], [m, u[0], op("final", a, 0), op("reinit", a, 0)],
                  [m, u[0]], [m, u[2]], [m, u[0], u[2]], [m, op("final", a, 0)], [m, u[1], op("final", a, 0)], [m, u[2], op("final", a, 0)],
                  [op("calc", a, 0, d=g(1, 0, 70))], [op("calc", a, 0, form="kw", val="sub", d=g(1, 0, 0))],
                  [op("hmac", a, 0, d=g(1, 0, 70), k=g(2, 0, 20))], [op("hmac", a, 0, form="kw", d=g(1, 0, 5), k=g(2, 0, B + 1))]]
    jobs = []
    probe = execute([e + (h[:-1] + [dict(h[-1], at=1 << 30, kinds=kinds)], False) for e in exes for h in heads])
    env = dict(exes)
    for lab, h, evs in probe:
        if evs[-1]["crash"]:
            continue
        n = evs[-1]["ops"]
        for k in range(1, n + 1):
            b = h[:-1] + [dict(h[-1], at=k)]
            ts = tails(h, h[-1]["alg"])
            for t in ts if deep else [r.choice(ts), ts[0]]:
                jobs.append((lab, env[lab], b + t, True))
    return jobs


def P02(rep, tier):
    deep = tier == "thorough"
    r = rng(202)
    exes = modules([("fb", "", ""), ("evp2", "", ""), ("evpold", "", ""), ("low", "", "debug"), ("fb", "asan", "")])
    plain = [e for e in exes if "asan" not in e[0]]
    G.model("PyModel", "PyModel")
    asp = ASP["P02"]
    one = scripts("PyEmit", "transitions")
    life = [h for h in one if not any(c["op"] in ("calc", "hmac") for c in h)]
    hs = []
    for a in ALGS:
        hs += [with_alg(h, a, False) for h in (life if deep else r.sample(life, min(len(life), 500)))]
    done = execute(spread(hs, exes, 0))
    judge(rep, done, asp, "all transitions of one object")
    ss = scripts("PyOne", "histories")
    r.shuffle(ss)
    hs = [with_alg(h, ALGS[i % 5], False) for i, h in enumerate(ss if deep else ss[:5000])]
    rep.sample(hs[0])
    done = execute(spread(hs, exes, 1))
    judge(rep, done, asp, "all histories of one object")
    ss = scripts("PyPair", "histories")
    r.shuffle(ss)
    hs = []
    for i, h in enumerate(ss if deep else ss[:5000]):
        a, b = ALGS[i % 5], ALGS[(i // 5) % 5]
        hs.append([dict(c, alg=a if c["o"] == 0 else b) for c in h])
    done = execute(spread(hs, exes, 2))
    judge(rep, done, asp, "histories of two objects")
    # memory of the interpreter
    hs = []
    short = [h for h in life if not any(c["op"] in ("update", "final") for c in h[:-1])] + r.sample(life, min(len(life), 400))
    for i, h in enumerate(short):
        hs.append(with_alg(h, ALGS[i % 5], False))
    done = execute(spread(hs, plain, 3, True))
    judge(rep, done, asp, "growth of memory over repeated histories")
    jobs = faults(plain, r, deep)
    done = execute(jobs)
    rep.notes["single_faults"] = len(jobs)
    judge(rep, done, asp, "one failing resource or back end operation")
    return rep.finish(assumptions=ASSUME)


def P03(rep, tier):
    deep = tier == "thorough"
    r = rng(203)
    exes = modules([("fb", "", ""), ("evp2", "", "debug"), ("low", "", "malloc"), ("fb", "asan", "")])
    plain = [e for e in exes if "asan" not in e[0]]
    G.model("PyModel", "PyModel")
    asp = ASP["P03"]
    one = scripts("PyEmit", "transitions")
    wrong = [h for h in one if bad(h[-1]) and len(h) <= 4]
    shots = [h[-1:] for h in wrong if h[-1]["op"] in ("calc", "hmac") and len(h) == 1]
    inner = [h for h in wrong if h[-1]["op"] not in ("calc", "hmac")]
    hs = []
    for a in ALGS:
        hs += [with_alg(h, a, False) for h in shots]
        hs += [with_alg(h, a) for h in (inner if deep else r.sample(inner, min(len(inner), 160)))]
    done = execute(spread(hs, exes, 0))
    judge(rep, done, asp, "every refused call, from every kind of state, with what follows")
    rep.sample(hs[0])
    # refusals between the accepted updates of one and two objects
    kinds = [h[-1] for h in wrong]
    hs = []
    for i in range(2000 if deep else 500):
        a = [r.choice(ALGS), r.choice(ALGS)]
        h = [op("make", a[0], 0), op("make", a[1], 1)]
        pos = [0, 0]
        for j in range(r.randrange(2, 9)):
            o = r.randrange(2)
            if r.random() < 0.6:
                c = dict(r.choice(kinds))
                if c["op"] == "drop":
                    continue
                h.append(dict(c, o=o if c["op"] not in ("calc", "hmac") else 0, alg=a[o]))
            else:
                n = r.choice([0, 1, 63, 64, 65, 128, r.randrange(80)])
                h.append(op("update", a[o], o, d=g(o, pos[o], n)))
                pos[o] += n
        for o in (0, 1):
            h += [op("final", a[o], o), op("drop", a[o], o)]
        hs.append(h)
    done = execute(spread(hs, exes, 1))
    judge(rep, done, asp, "refusals between accepted updates")
    # what stays behind
    hs = []
    for a in ALGS:
        hs += [with_alg(h, a, False) for h in shots]
        hs += [with_alg(h, a, False) for h in (inner if deep else r.sample(inner, min(len(inner), 60)))]
    done = execute(spread(hs, plain, 2, True))
    judge(rep, done, asp, "memory left by refusals")
    jobs = faults(plain, r, deep)
    done = execute(jobs)
    rep.notes["single_faults"] = len(jobs)
    judge(rep, done, asp, "one failing resource or back end operation")
    return rep.finish(assumptions=ASSUME)


# ---- objects that threads share
def schedules(cfg, emit):
    r = G.model("PySharing", cfg, env=dict(EMIT=emit), workers=1 if emit == "transitions" else 4)
    out, seen = [], set()
    for h in G._emitted(r.out, "T"):
        key = json.dumps(h, sort_keys=True)
        if key not in seen:
            seen.add(key)
            out.append(h)
    return out


def longest(hs):
    """Without those that are the beginning of another."""
    keys = sorted(json.dumps(h, sort_keys=True)[:-1] for h in hs)
    keep = {k for k, nx in zip(keys, keys[1:] + [""]) if not nx.startswith(k)}
    return [h for h in hs if json.dumps(h, sort_keys=True)[:-1] in keep]


SIZES = (1, 5, 63, 64, 65, 111, 130)


SMALL = (1, 3, 4, 6, 7, 9)


def share_job(h, alg, r, algs=None, sizes=SIZES):
    """The schedule h with algorithms and data. algs: of each object."""
    objs = h[0]["objs"]
    algs = algs or [alg] * len(objs)
    start = []
    for o, st in enumerate(objs):
        start.append(op("raw" if st == "raw" else "make", algs[o], o))
        if st != "raw" and r.random() < 0.5:
            start.append(op("update", algs[o], o, d=g(100 + o, 0, r.choice(sizes))))
    steps, n = [], 0
    for x in h[1:]:
        if x["a"] == "go":
            steps.append(dict(a="go", t=x["t"]))
            continue
        o, a, t = x["o"] - 1, algs[x["o"] - 1], x["t"]
        n += 1
        d = g(20 * t + x["n"], 0, r.choice(sizes))
        if x["k"] == "calc":
            c = op("calc", a, 0, d=d)
        elif x["k"] == "hmac":
            c = op("hmac", a, 0, d=d, k=g(90 + t, 0, r.choice((3, 64, 70) if sizes is SIZES else (2, 5))))
        elif x["k"] == "bad":
            c = op("update", a, o, val=r.choice(["str", "int", "none"]), d=g(1, 0, 3))
        elif x["k"] == "update":
            c = op("update", a, o, form=r.choice(["pos", "kw"]), d=d)
        else:
            c = op(x["k"], a, o)
        steps.append(dict(a="call", t=t, w=c))
    end = []
    for o in range(len(objs)):
        end += [op("final", algs[o], o), op("drop", algs[o], o)]
    return dict(start=start, steps=steps, end=end, ops=dict(threads=max([s["t"] for s in steps] or [1])))


FN = {1: "update", 2: "finalize", 3: "free"}


def share_run(jobs, timeout=240, chunk=25):
    """jobs: (label, environment, schedule). Gives (label, schedule, trace)."""
    work = []
    groups = {}
    for j in jobs:
        groups.setdefault(j[0], []).append(j)
    for v in groups.values():
        work += [v[i:i + chunk] for i in range(0, len(v), chunk)]
    res = []

    def one(js):
        out = []
        while js and not Enough.reached():
            try:
                x = run([build.PYTHON, DRV], env=js[0][1], timeout=timeout, input="".join(json.dumps(dict(share=j[2])) + "\n" for j in js).encode())
                so, rc, se = x.stdout, x.returncode, x.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired as x:
                so, rc, se = x.stdout or b"", "timeout", ""
            got = [json.loads(x) for x in so.decode().split("\n") if x.startswith("{") and x.endswith("}")]
            for j, a in zip(js, got):
                tr = [dict(e="reset")]
                for k, t, x in a["events"]:
                    w = a["calls"][x] if k in (8, 9) else None
                    if k == 8:
                        # a thread that hangs never answers
                        tr.append(dict(e="call", t=t, c={f: v for f, v in (w or {}).items() if f not in ("kind", "exc", "out", "t")} if w else dict(op="version", o=0)))
                    elif k == 9:
                        tr.append(dict(e="ret", t=t, kind=w["kind"], exc=w["exc"], out=w["out"]))
                    elif k == 4:
                        tr.append(dict(e="new", t=t, x=x))
                    elif k < 4:
                        tr.append(dict(e="in", t=t, x=x, f=FN[k]))
                    else:
                        tr.append(dict(e="out", t=t, x=x, f=FN[k - 10]))
                tr.append(dict(e="end", crash="", hang=a["hang"]))
                out.append((j[0], j[2], tr))
            n = len(got)
            if n < len(js) and (rc or not got):
                Enough.add()
                out.append((js[n][0], js[n][2], [dict(e="reset"), dict(e="end", crash="%s: %s" % (rc, se[-300:]), hang=0)]))
                n += 1
            elif rc:
                Enough.add()
                out.append((js[-1][0], js[-1][2], [dict(e="reset"), dict(e="end", crash="%s at the end: %s" % (rc, se[-300:]), hang=0)]))
            js = js[n:]
        return out
    for r in pmap(one, work):
        res += r
    return res


def share_judge(rep, done, what, timeout=800):
    units, seen = [], set()
    overlaps = 0
    for lab, h, tr in done:
        rep.traces += 1
        inside = set()
        for e in tr:
            if e["e"] == "call":
                overlaps += bool(inside)
                inside.add(e["t"])
            elif e["e"] == "ret":
                inside.discard(e["t"])
        key = "\n".join(json.dumps(dict(e, crash="yes" if e.get("crash") else "") if e["e"] == "end" else e, sort_keys=True) for e in tr)
        if key not in seen:
            seen.add(key)
            units.append((key, lab, h, tr))
    units.sort(key=lambda u: -len(u[3]))
    nsh = max(1, min(JOBS, 1 + len(units) // 20))
    d = sub("traces")

    def one(k):
        where, path = [None], os.path.join(d, "s%d-%d.ndjson" % (id(units), k))
        with open(path, "w") as f:
            for u in units[k::nsh]:
                f.write(u[0] + "\n")
                where += [(u, i) for i in range(len(u[3]))]
        r = T.tlc(os.path.join(SPEC, "PyShareTrace.tla"), env=dict(TRACE=path), timeout=timeout)
        os.unlink(path)
        if not r.clean() and not r.bad:
            raise Broken("TLC could not judge threads:\n" + r.out[-3000:])
        if r.distinct < len(where) - 1:
            raise Broken("TLC stopped within a trace:\n" + r.out[-3000:])
        return r, [(where[int(p)], rest) for p, rest in r.bad], len(where) - 1
    n = 0
    for r, bad, cnt in pmap(one, range(nsh)):
        rep.states += r.distinct
        rep.transitions += r.generated
        n += cnt
        for ((key, lab, h, tr), i), rest in bad:
            asp = rest.split("}")[0].strip("{ ").replace('"', "")
            rep.violation("share:%s:%s" % (tr[i]["e"], asp.replace(" ", "")),
                          "%s [%s]: promise %s broken by event %d: %s" % (what, lab, asp, i, json.dumps(tr[i])[:300]),
                          dict(kind="share", label=lab, aspects=asp, position=i, schedule=h, trace=tr[:i + 1]))
    rep.unique += len(units)
    rep.events += n
    rep.runs.append(dict(what=what, histories=len(done), distinct=len(units), operations_judged=n, calls_during_others=overlaps))


def P04(rep, tier):
    deep = tier == "thorough"
    r = rng(204)
    exes = modules([("fb", "", ""), ("evp2", "", "debug"), ("low", "", "malloc"), ("fb", "asan", "")], gates=True)
    G.model("PySharing", "PySharing2" if not deep else "PySharing")
    # the model without the lock has to break its promises: else they say nothing
    x = T.tlc(os.path.join(SPEC, "PySharing.tla"), os.path.join(SPEC, "cfg", "PySharingUnlocked.cfg"), workers=4)
    if "Invariant Digests is violated" not in x.out:
        raise Broken("PySharing without the lock: " + x.out[-1500:])
    # few: None for each schedule with every algorithm
    for cfg, few, sizes, what in (("ShareTwo", 2000, SIZES, "two threads, one object, transitions of the model"),
                                  ("ShareThree", 900, SIZES, "three threads, one object, transitions of the model"),
                                  ("ShareThree", None, SMALL, "three threads, one object, transitions of the model, every algorithm"),
                                  ("ShareObjs", None, SMALL, "two threads, two objects and functions of the module, transitions of the model, every algorithm"),
                                  ("ShareObjs", 200, SIZES, "two threads, two objects of two algorithms")):
        hs = longest(schedules(cfg, "transitions"))
        r.shuffle(hs)
        rep.notes["schedules_" + cfg] = len(hs)
        if few:
            hs = hs[:few * (8 if deep else 1)]
        jobs = []
        for i, h in enumerate(hs):
            a = ALGS[i % 5]
            e = exes[i // 5 % len(exes)]
            if few is None:
                jobs += [e + (share_job(h, a, r, None, sizes),) for a in ALGS]
            else:
                jobs.append(e + (share_job(h, a, r, None if cfg != "ShareObjs" else [a, ALGS[(i // 5 + 1) % 5]], sizes),))
        t0 = time.time()
        done = share_run(jobs)
        rep.sample([jobs[0][2]["steps"]])
        t1 = time.time()
        share_judge(rep, done, what)
        if os.environ.get("VP_TIMES"):
            log("%s: %d schedules, run %.1f s, judged %.1f s" % (what, len(jobs), t1 - t0, time.time() - t1))
    return rep.finish(assumptions=ASSUME)
