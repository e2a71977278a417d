"""Runs of hmacsum and calls of its parts: execution and judgement by TLC."""
import json, os, random, re, subprocess
from .common import *
from . import build, tlc as T

LABELS = ("MD5", "SHA1", "SHA224", "SHA256", "SHA512")


def limbs(n):
    n = int(n)
    r = []
    while n:
        r.append(n % 10000)
        n //= 10000
    return r


def hx(s):
    return (s if isinstance(s, bytes) else s.encode("latin-1")).hex()


def run_(args, inp, **kw):
    """A run: arguments, input (("gen", p, n), ("lit", bytes) or ("rec", p, n)) and script words."""
    return dict(args=list(args), inp=inp, kw=kw)


def run_line(r):
    w = ["arg=" + hx(a) for a in r["args"]]
    i = r["inp"]
    if i[0] == "lit":
        w.append("lit=" + i[1].hex())
    else:
        w.append("gen=%d:%d" % (i[1], i[2]))
        if i[0] == "rec":
            w.append("rec=1")
    for k, v in r["kw"].items():
        w.append("%s=%s" % (k, v))
    return " ".join(w)


def execute(jobs, timeout=600, chunk=150):
    """jobs: list of (label, exe, run). Returns (label, run, result) in order."""
    groups = {}
    for i, (lab, exe, r) in enumerate(jobs):
        groups.setdefault(exe, []).append(i)
    work = []
    for exe, ix in groups.items():
        for k in range(0, len(ix), chunk):
            work.append((exe, ix[k:k + chunk]))
    out = [None] * len(jobs)

    env = dict(os.environ, ASAN_OPTIONS="allocator_may_return_null=1:detect_leaks=0")

    def one(w):
        exe, ix = w
        if Enough.reached():
            return
        text = "".join(run_line(jobs[i][2]) + "\n" for i in ix)
        try:
            p = run([exe], timeout=timeout, input=text.encode(), env=env)
        except subprocess.TimeoutExpired:
            raise Broken("the tool driver timed out")
        ls = p.stdout.decode("latin-1").split("\n")[:-1]
        if p.returncode == 9:
            Enough.add(Enough.limit)     # run after run without an end: the rest is left out
        elif p.returncode != 0 or len(ls) != len(ix):
            raise Broken("the tool driver failed: %s" % p.stderr.decode(errors="replace")[-1000:])
        for i, l in zip(ix, ls):
            try:
                out[i] = json.loads(l)
            except ValueError:
                raise Broken("unreadable answer of the tool driver: %s" % l[:300])
            if out[i]["full"]:
                raise Broken("event log full")
    pmap(one, work)
    return [(jobs[i][0], jobs[i][2], out[i]) for i in range(len(jobs)) if out[i] is not None]


def digest_lines(text):
    """The lines that show a digest: label and value."""
    r = []
    for l in text.split("\n"):
        m = re.match(r"(\w+) hash calculated over data:\s*(.*)$", l)
        if m:
            r.append([m.group(1), m.group(2)])
        elif re.search(r"[0-9A-Fa-f]{32,}", l):
            r.append(["?", l])
    return r


def events(r, res):
    """The events of a run as SumTrace takes them."""
    i = r["inp"]
    inp = dict(k="lit", b=list(i[1])) if i[0] == "lit" else dict(k="gen", p=i[1], n=i[2]) if i[0] == "gen" else dict(k="rec")
    out = [dict(e="run", argv=list(r["args"]), input=inp)]
    for e in res["events"]:
        e = dict(e)
        if e["e"] == "size":
            e["n"] = limbs(e["n"])
        elif e["e"] == "read":
            e = dict(e="read", req=limbs(e["req"]), asked=1 if e["req"] != "0" else 0, got=limbs(max(0, e["got"])), failed=1 if e["got"] < 0 else 0)
        elif e["e"] == "lib" and "n" in e:
            e["n"] = limbs(e["n"])
        out.append(e)
    lines = digest_lines(res["out"] + "\n" + res["err"])
    if lines:
        out.append(dict(e="digests"))
    out.append(dict(e="exit", done=res["done"] == 1, status=res["status"], lines=lines,
                    aborted="abort" in (res["out"] + res["err"]).lower(), usage="Usage:" in res["out"], version="hmacsum 2" in res["out"],
                    copyright="Copyright" in res["out"], rec=i[0] == "rec", cut="closed" in r["kw"] or ("space" in r["kw"] and len(res["out"]) >= int(r["kw"]["space"])),
                    told=bool(res["err"].strip()) or "Usage:" in res["out"] or "abort" in (res["out"] + res["err"]).lower(), fallback="32768" in res["err"],
                    whole=res["out"].endswith("\n"), live=res["live"], handles=res["handles"],
                    errs=res["errs"]))
    return out


def cost(evs):
    i = evs[0]["input"]
    n = len(i.get("b", ())) or i.get("n", 0)
    return 30 + len(evs) + n // 4


def judge(rep, done, aspects, what, timeout=800):
    """Validates runs against SumTrace; identical ones once."""
    units, seen = [], {}
    for lab, r, res in done:
        ev = events(r, res)
        key = json.dumps(ev, sort_keys=True)
        if key in seen:
            continue
        seen[key] = 1
        units.append((ev, lab, r, res))
    # runs over one input share the digests computed for it
    groups = {}
    for u in units:
        groups.setdefault(json.dumps(u[0][0]["input"]), []).append(u)
    gs = []
    for g in groups.values():
        for k in range(0, len(g), 400):
            part = g[k:k + 400]
            gs.append((sum(len(u[0]) + 3 for u in part) + max(cost(u[0]) for u in part) * (1 if part else 0), part))
    gs.sort(key=lambda g: -g[0])
    total = sum(g[0] for g in gs)
    nsh = max(1, min(JOBS, len(gs), 1 + total // 3000))
    shards = [[0, []] for _ in range(nsh)]
    for c, g in gs:
        s = min(shards, key=lambda s: s[0])
        s[0] += c
        s[1] += g
    d = sub("traces")

    def one(k):
        path = os.path.join(d, "s%d-%d.ndjson" % (id(units), k))
        where = [None, None]
        with open(path, "w") as f:
            f.write(json.dumps(dict(aspects=sorted(aspects))) + "\n")
            for u in shards[k][1]:
                for e in u[0]:
                    f.write(json.dumps(e) + "\n")
                    where.append(u)
        r = T.tlc(os.path.join(SPEC, "SumTrace.tla"), env=dict(TRACE=path), timeout=timeout)
        os.unlink(path)
        if not r.clean() and not r.bad:
            raise Broken("TLC could not judge a run:\n" + r.out[-3000:])
        if r.distinct < len(where) - 1:
            raise Broken("TLC stopped within a trace:\n" + r.out[-3000:])
        return r, [(where[int(p)], rest) for p, rest in r.bad]
    for r, bad in pmap(one, range(nsh)):
        rep.states += r.distinct
        rep.transitions += r.generated
        for (ev, lab, run0, res), rest in bad:
            asp = rest.split("}")[0].strip("{ \n").replace('"', "").replace(" ", "")
            exp = rest.split("}", 1)[1].strip(", \n")[:1500] if "}" in rest else ""
            rep.violation("run:%s" % (asp or "crash"),
                          "%s [%s]: promise %s broken by hmacsum %s: %s" % (
                              what, lab, asp, " ".join(run0["args"]),
                              json.dumps({k: v for k, v in res.items() if k not in ("points", "ops")})[:380]),
                          dict(kind="run", label=lab, aspects=asp, line=run_line(run0), observed=res, expected=exp))
    rep.traces += len(done)
    rep.unique += len(units)
    rep.events += sum(len(u[0]) for u in units)
    rep.runs.append(dict(what=what, runs=len(done), distinct=len(units), events=sum(len(u[0]) for u in units)))


# --- calls of the parts ------------------------------------------------------

def unit_line(c):
    w = [c["op"]]
    for k, v in c.items():
        if k in ("op", "label"):
            continue
        if k in ("s", "d", "o"):
            w.append("%s=%s" % (k, hx(v)))
        elif k == "s2":
            w.append("s2=" + hx(v))
        elif k in ("a", "l"):
            w.append("%s=%s" % ("a" if k == "a" else "s", "/".join("x" + hx(x) for x in v)))
        else:
            w.append("%s=%s" % (k, v))
    return " " + " ".join(w)


def unit_event(c, res):
    e = dict(op=c["op"], crash=res.get("crash", "?"))
    if e["crash"]:
        return e
    for k in ("ret", "ec", "errs", "live", "same", "tail", "term", "stuck", "operand", "ret2", "text", "out"):
        if k in res:
            e[k] = res[k]
    for k in ("v", "v2"):
        if k in res:
            e[k] = limbs(res[k])
    op = c["op"]
    if op == "conv":
        e.update(text=c["s"], null=c.get("null", 0))
    elif op == "bufsize":
        e["text"] = c["s"]
        if "s2" in c:
            e["text2"] = c["s2"]
    elif op == "create":
        e.update(v=limbs(c["v"]), u=c["u"], len=c["len"])
    elif op == "hex":
        top = 1 << 31
        ds = int(c.get("ds", len(c["d"])))
        e.update(d=list(c["d"]), ds=ds if ds < top else -1, hs=c["hs"] if c["hs"] < top else -1, null=c["null"])
    elif op == "types":
        for k in ("text", "out"):
            e.pop(k, None)
        e.update(texts=list(c["l"]), rets=res["rets"], lines=[x[0] for x in digest_lines(res["text"])],
                 processed=res["processed"], printed=res["printed"], freed=res["freed"])
    elif op == "getopt":
        e.update(opts=c["o"], argv=list(c["a"]),
                 out=[dict(c=x["c"], opt=x["opt"], arg=x["arg"]) for x in res["out"]])
    return e


def call(jobs, timeout=600, chunk=400):
    """jobs: list of (label, exe, call)."""
    groups = {}
    for i, (lab, exe, r) in enumerate(jobs):
        groups.setdefault(exe, []).append(i)
    work = []
    for exe, ix in groups.items():
        for k in range(0, len(ix), chunk):
            work.append((exe, ix[k:k + chunk]))
    out = [None] * len(jobs)

    def one(w):
        exe, ix = w
        if Enough.reached():
            return
        p = run([exe], timeout=timeout, input="".join(unit_line(jobs[i][2]) + "\n" for i in ix).encode("latin-1"))
        ls = p.stdout.decode("latin-1").split("\n")[:-1]
        if p.returncode == 9:
            Enough.add(Enough.limit)
        elif p.returncode != 0 or len(ls) != len(ix):
            raise Broken("the unit driver failed: %s" % p.stderr.decode(errors="replace")[-1000:])
        for i, l in zip(ix, ls):
            out[i] = json.loads(l)
    pmap(one, work)
    return [(jobs[i][0], jobs[i][2], out[i]) for i in range(len(jobs)) if out[i] is not None]


def judge_units(rep, done, what, timeout=800):
    units, seen = [], set()
    for lab, c, res in done:
        e = unit_event(c, res)
        key = json.dumps(e, sort_keys=True)
        if e["crash"] == "" and key in seen:
            continue
        seen.add(key)
        units.append((key, lab, c, res))
    nsh = max(1, min(JOBS, 1 + len(units) // 500))
    d = sub("traces")

    def one(k):
        mine = units[k::nsh]
        path = os.path.join(d, "u%d-%d.ndjson" % (id(units), k))
        with open(path, "w") as f:
            for u in mine:
                f.write(u[0] + "\n")
        r = T.tlc(os.path.join(SPEC, "UnitTrace.tla"), env=dict(TRACE=path), timeout=timeout)
        os.unlink(path)
        if not r.clean() and not r.bad:
            raise Broken("TLC could not judge calls:\n" + r.out[-3000:])
        if r.distinct < len(mine) + 1:
            raise Broken("TLC stopped within a trace:\n" + r.out[-3000:])
        return r, [(mine[int(p) - 1], rest) for p, rest in r.bad]
    for r, bad in pmap(one, range(nsh)):
        rep.states += r.distinct
        rep.transitions += r.generated
        for (key, lab, c, res), rest in bad:
            exp = rest.split("}", 1)[1].strip(", \n")[:1000] if "}" in rest else rest[:1000]
            rep.violation("unit:%s%s" % (c["op"], ":crash" if res.get("crash") else ""),
                          "%s [%s]: %s gives %s, expected %s" % (
                              what, lab, json.dumps({k: (v.decode("latin-1") if isinstance(v, bytes) else v) for k, v in c.items()})[:200],
                              json.dumps(res)[:200], re.sub(r"\s+", " ", exp)[:200]),
                          dict(kind="unit", label=lab, line=unit_line(c), observed=res, expected=exp))
    rep.traces += len(done)
    rep.unique += len(units)
    rep.events += len(units)
    rep.runs.append(dict(what=what, calls=len(done), distinct=len(units)))
