"""Properties of the library: workloads, and the promises of LibTrace each one enforces."""
import json, os, random, subprocess
from .common import *
from . import build, gen as G
from .lib import *

ALL = [c for c in build.CONFIGS if not build.CONFIGS[c].get("m32")]
ASP = dict(
    D01=["accept", "digest"], D02=["accept", "digest"], D03=["accept", "digest"],
    E01=["accept", "refuse", "digest", "error", "domain", "ref", "tail", "quiet", "range"],
    C01=["accept", "refuse", "ref", "live", "digest", "range"],
    C02=["accept", "refuse", "ref", "quiet", "digest", "range"],
    C03=["accept", "refuse", "digest"],
    C04=["tail", "quiet", "digest", "accept"],
    C05=["accept", "fault", "ref", "live", "digest", "error", "range", "errs"],
    C06=["dirty"],
    C07=["error", "domain", "errs", "range"],
)


def rng(n=0):
    return random.Random(SEED * 1000003 + n)


def drv(cfg, san=""):
    return build.program("drv_lib", ["drv_lib.c"], cfg, san)


def fits32(t):
    """No size of the history is one that a 32-bit build knows otherwise, or not at all."""
    return not any(e.get("hs") in ("U", "V") for e in t)


def every(sans=("",)):
    """Every configuration, the 32-bit one among them where the kernel runs it."""
    return [(c, s) for c in ALL for s in sans] + ([("fb32", "m32")] if build.runs32() else [])


def run_all(traces, cfgs, timeout=300):
    """Runs histories in several builds: [(label, history with responses)]."""
    exes = pmap(lambda c: drv(*c), cfgs)
    jobs = []
    for (c, s), exe in zip(cfgs, exes):
        ts = traces if s != "m32" else [t for t in traces if fits32(t)]
        n = max(1, min(len(ts), 3000))
        for i in range(0, len(ts), n):
            jobs.append((c + ("+" + s if s else ""), exe, ts[i:i + n]))
    res = pmap(lambda j: [(j[0], t) for t in execute(j[1], j[2], timeout)], jobs)
    return [x for r in res for x in r]


def lens_around(bsize, lf):
    return sorted({0, 1, 2, 3, 7, 8, 9, bsize - lf - 1, bsize - lf, bsize - lf + 1, bsize - 1, bsize, bsize + 1,
                   2 * bsize - lf - 1, 2 * bsize - lf, 2 * bsize - lf + 1, 2 * bsize - 1, 2 * bsize, 2 * bsize + 1})


def literals(r, n, lo, hi):
    out = []
    for i in range(n):
        m = r.randint(lo, hi)
        k = r.randrange(6)
        if k == 0:
            b = bytes(m)
        elif k == 1:
            b = b"\xff" * m
        elif k == 2:
            b = b"\x80" + bytes(m - 1) if m else b""
        elif k == 3:
            b = bytearray(m)
            if m:
                b[r.randrange(m)] = 1 << r.randrange(8)
            b = bytes(b)
        else:
            b = bytes(r.randrange(256) for _ in range(m))
        out.append(lit(b))
    return out


def split_trace(a, p, sizes, r, c=0, calcfirst=False):
    """One message split as given, and the digest of the whole for comparison."""
    t, o = [init(a, c=c, lay=r.randrange(2))], 0
    for n in sizes:
        t.append(update(a, gen(p, o, n), c=c, lay=r.randrange(2), st=r.randrange(2)))
        o += n
    t.append(final(a, c=c, lay=r.randrange(2)))
    t.append(free(a, c=c, lay=r.randrange(2)))
    w = [calc(a, gen(p, 0, o))]
    return w + t if calcfirst else t + w


# ---------------------------------------------------------------- D01
def medium(modes, thorough):
    jobs = []
    for c in ALL:
        for i, a in enumerate(ALGS):
            for j, n in enumerate([1 << 16, 1 << 20, 1 << 26] if not thorough else [1 << 12, 1 << 16, 3 << 16, 1 << 20, 1 << 24, 1 << 26, 3 << 26]):
                for mode in modes if thorough else [modes[(i + j) % len(modes)], modes[-1]][:1 + (n == 1 << 16)]:
                    jobs.append((c, a, ["one", a, str(j % 2), mode, str(n - 128 * (i % 2)), str((29 * i + 7 * j + 1) % (2 * BLK[a]))]))
    return jobs


def long_runs(kinds, thorough):
    """Histories that are long in the number of calls rather than of bytes: tens of
    thousands of updates of one context, of contexts one after the other, hundreds of
    contexts at once."""
    jobs = []
    for ci, c in enumerate(ALL):
        for i, a in enumerate(ALGS):
            if "pieces" in kinds:
                jobs.append((c, a, ["stream", a, str((ci + i) % 2), "1", "256,65408,70016", "0,%d,%d" % (50 + i, 2 * BLK[a])]))
                jobs.append((c, a, ["stream", a, str((ci + i + 1) % 2), "3", "59904,%d" % (1 << 18), "%d,130" % (60 - i), "empty"]))
                if thorough:
                    jobs.append((c, a, ["stream", a, "0", "5", "%d" % (1 << 25), "3,200", "empty"]))
            for m in ("ctx", "calc", "hmac"):
                if m in kinds:
                    jobs.append((c, a, ["repeat", a, str((ci + i) % 2), m, str(4000000 if thorough else 70000), str(9 * i + 5)]))
            if "many" in kinds:
                if thorough or i == ci % 5:
                    jobs.append((c, a, ["many", a, str((ci + i) % 2), "1000" if thorough else "300", "17,40,%d" % (5 + 9 * i)]))
    return jobs


def D01(rep, tier):
    r = rng(1)
    thorough = tier == "thorough"
    G.model("Streaming", "Streaming8")
    tr = []
    for a in ALGS:
        B = BLK[a]
        top = (6 if thorough else 3) * B + 3
        for n in range(0, top):
            if n % 3 == 2:
                tr.append([init(a, lay=n % 2), update(a, gen(1, 0, n), lay=n % 2), final(a, lay=n % 2), free(a)])
            else:
                tr.append([calc(a, gen(1, 0, n))])
        for d in literals(r, 400 if thorough else 60, 0, 2 * B + 20):
            tr.append([calc(a, d)])
        for p in range(2, 12 if thorough else 5):
            for n in lens_around(B, LENF[a]):
                tr.append([calc(a, gen(p, p * 1000, n))])
        big_ = [1000, 4095, 4096, 8192 + 5]
        if thorough:
            big_ += [16384, 32768 + 1, 65535, 65536, 65537, 100000]
        for n in big_:
            tr.append([calc(a, gen(3, 17, n))])
    items = run_all(tr, every())
    v = judge(items, "compute", ASP["D01"])
    rep.add(v, "digest of messages against the published algorithms")
    rep.add(judge(big_runs(medium(("update", "calc"), thorough)), "compute", ["digest"]), "messages of 64 KiB to 64 MiB")
    rep.add(judge(big_runs(past(("calc", "update"), thorough), thorough), "compute", ["digest"]), "messages of more than 2^29 bytes")
    rep.sample(line(tr[5][0]))
    rep.sample(line(tr[-1][0]))
    return rep.finish(assumptions=["spec/Digest.tla states RFC 1321 and FIPS 180-4 (checked against the RFC and FIPS examples by tools/selftest.py)",
                                   "only lengths of the ranges in DESIGN.md; content by generated patterns and random bytes"])


def past(modes, thorough):
    """Messages whose number of bits exceeds 32 bits: one per algorithm here, D04 has the rest."""
    jobs = []
    for ci, c in enumerate(ALL if thorough else ["fb"]):
        for ai, a in enumerate(ALGS):
            P = 2 * BLK[a]
            for m in modes if thorough else [modes[(ai + len(modes[0])) % len(modes)]]:
                if m == "stream":
                    jobs.append((c, a, ["stream", a, str(ai % 2), str((1 << 20) + 3), str(2 ** 29 - P), "%d,%d" % (P - 1, P + 1 + ai)]))
                else:
                    jobs.append((c, a, ["one", a, "0", m, str(2 ** 29), str((37 * ai + 1) % P)]))
    return jobs


# ---------------------------------------------------------------- D02
def D02(rep, tier):
    r = rng(2)
    thorough = tier == "thorough"
    for c in ("Streaming", "Streaming3", "Streaming8"):
        G.model("Streaming", c)
    tr = []
    which = "All" if thorough else "Few"
    for a in ALGS:
        tours = G.tours(G.fills(BLK[a], which), BLK[a], r, 24)
        for w in tours:
            tr.append(split_trace(a, r.randrange(50), w, r, calcfirst=r.random() < .5))
        # finalize from every fill level, after zero, one or two updates
        B = BLK[a]
        for f in range(0, 2 * B + 1):
            x = r.randint(0, f)
            tr.append(split_trace(a, 1, [x, f - x], r))
            tr.append(split_trace(a, 1, [1] * min(f, 3) + [f - min(f, 3)], r))
        # single bytes throughout, and large pieces after odd beginnings
        for n in (2 * B + 7, 5 * B):
            tr.append(split_trace(a, 2, [1] * n, r))
        for _ in range(60 if thorough else 12):
            k = r.randint(1, 30)
            tr.append(split_trace(a, 3, [r.choice([0, 1, r.randint(0, B), r.randint(0, 20 * B), 64 * r.randint(0, 40),
                                                   r.randint(0, 5) * 4096 + r.randint(-2, 2) if r.random() < .3 else 5])
                                         for _ in range(k)], r) if True else None)
    tr = [[e for e in t if e is not None] for t in tr]
    for t in tr:
        for e in t:
            if "d" in e and e["d"]["n"] < 0:
                e["d"]["n"] = 0
    tr = [fix_offsets(t) for t in tr]
    items = run_all(tr, every())
    v = judge(items, "learn", ASP["D02"])
    rep.add(v, "digest of split messages against the digest of the whole")
    rep.add(judge(big_runs(long_runs(("pieces",), thorough), thorough), "compute", ["digest"]), "messages in tens of thousands of pieces")
    rep.add(judge(big_runs(past(("stream",), thorough), thorough), "compute", ["digest"]), "messages of more than 2^29 bytes in pieces")
    rep.sample([line(e) for e in tr[0]][:6])
    return rep.finish(assumptions=["compares against the real one-shot digest, whose value is judged by D01"])


def fix_offsets(t):
    o = 0
    for e in t:
        if e["op"] == "update":
            e["d"]["o"] = o
            o += e["d"]["n"]
    for e in t:
        if e["op"] == "calc":
            e["d"]["n"] = o
    return t


# ---------------------------------------------------------------- D03
def D03(rep, tier):
    r = rng(3)
    thorough = tier == "thorough"
    G.model("HmacCalc", "HmacCalc")
    tr = []
    for a in ALGS:
        B = BLK[a]
        for kn in range(0, (4 if thorough else 2) * B + 4):
            tr.append([hmac(a, gen(5, 0, kn), gen(6, 0, (kn * 7) % 23))])
        for n in range(0, (4 if thorough else 2) * B + 4, 1 if thorough else 3):
            tr.append([hmac(a, gen(5, 3, (n * 5) % 40), gen(6, 0, n))])
        for kn in (0, 1, DLEN[a] - 1, DLEN[a], DLEN[a] + 1, B - 1, B, B + 1, 2 * B, 1000):
            for n in (0, 1, B - 1, B, B + 1, 500):
                tr.append([hmac(a, gen(7, 1, kn), gen(8, 2, n))])
        for _ in range(200 if thorough else 25):
            k, = literals(r, 1, 0, 2 * B + 10)
            d, = literals(r, 1, 0, 2 * B + 10)
            tr.append([hmac(a, k, d)])
        # keys that differ only in trailing zeros, or in one byte
        for _ in range(10 if thorough else 3):
            k = bytearray(r.randrange(256) for _ in range(r.randint(1, B - 2)))
            tr.append([hmac(a, lit(k), lit(b"m")), hmac(a, lit(bytes(k) + b"\0"), lit(b"m"))])
            k = bytearray(r.randrange(256) for _ in range(B + r.randint(1, B)))
            q = bytearray(k)
            q[-1] ^= 1
            tr.append([hmac(a, lit(k), lit(b"m")), hmac(a, lit(q), lit(b"m"))])
        # output buffer larger than the digest
        tr.append([hmac(a, gen(7, 0, 10), gen(8, 0, 10), hs=DLEN[a] + 33)])
        tr.append([hmac(a, gen(7, 0, 10), gen(8, 0, 10), hs=h) for h in ("U", "S", "V")])
    items = run_all(tr, every())
    v = judge(items, "compute", ASP["D03"])
    rep.add(v, "HMACs against RFC 2104")
    rep.add(judge(big_runs(medium(("hmac", "bigkey"), thorough)), "compute", ["digest"]), "messages and keys of 64 KiB to 64 MiB")
    rep.add(judge(big_runs(long_runs(("hmac",), thorough), thorough), "compute", ["digest"]), "HMACs repeated tens of thousands of times")
    rep.add(judge(big_runs(past(("hmac",), thorough), thorough), "compute", ["digest"]), "HMACs of more than 2^29 bytes")
    rep.sample(line(tr[70][0]))
    return rep.finish(assumptions=["spec/Digest.tla states RFC 2104"])


# ---------------------------------------------------------------- generated histories
def bad_histories(rep, r, chain, algs=ALGS):
    """From every state of the reduced model: the history that leads there, the calls
    that the model says are refused, then what closes the history."""
    out = []
    base = list(G.histories("GenBad1", "transitions"))
    for a in algs:
        a0 = "md5"
        bases = base if BLK[a] == 64 else list(G.histories("GenBad1L", "transitions")) if a == "sha512" else base
        if a == "sha512":
            a0 = "sha512"
        groups = {}
        for x in bases:
            h = x["h"]
            key = json.dumps(h[:-1], sort_keys=True)
            if x["k"] in ("argument", "state"):
                groups.setdefault(key, [h[:-1], x["s"], []])[2].append(h[-1])
            else:
                out.append(retarget_all(h, a0, a) + G.closing(retarget_slots(x["s"], a0, a), a))
        for h, s, calls in groups.values():
            r.shuffle(calls)
            for i in range(0, len(calls), chain):
                part = calls[i:i + chain]
                out.append(retarget_all(h + part, a0, a) + G.closing(retarget_slots(s, a0, a), a))
    return out


def retarget_all(h, a0, a):
    return G.retarget(h, a0, a)


def retarget_slots(s, a0, a):
    return {k: (dict(v, alg=a) if v.get("alg") == a0 else v) for k, v in s.items()}


def valid_histories(r):
    out = []
    for x in G.histories("GenPairOne", "histories", workers=8):
        out.append(x["h"] + G.closing(x["s"]))
    return out


def walks(n, seed):
    out = []
    for x in G.histories("GenWalk", "walk", ["-simulate", "num=%d" % n, "-depth", "41"], seed=seed):
        out.append(x["h"] + G.closing(x["s"], "sha256"))
    return out


def reference_first(t):
    """Before the history, in the same memory of results: every digest it will deliver,
    computed in one call."""
    return t


# ---------------------------------------------------------------- C01
def C01(rep, tier):
    r = rng(4)
    thorough = tier == "thorough"
    G.model("CtxModel", "CtxModel")
    tr = bad_histories(rep, r, 6) + walks(3000 if thorough else 200, SEED)
    items = run_all(tr, every())
    v = judge(items, "learn", ASP["C01"])
    rep.add(v, "generated life cycles")
    # the digests of reused references by value
    few = [t for i, t in enumerate(tr) if i % (5 if thorough else 40) == 0]
    v = judge(run_all(few, [("fb", ""), ("evp2", "")]), "compute", ASP["C01"])
    rep.add(v, "generated life cycles, digests by value")
    # many times over: nothing accumulates
    for a in ALGS:
        t = []
        for i in range(200):
            t += [init(a, c=i % 3), update(a, gen(1, 0, i), c=i % 3)] + ([final(a, c=i % 3)] if i % 2 else []) \
                + [free(a, c=i % 3), free(a, c=i % 3)]
        v = judge(run_all([t], every()), "learn", ASP["C01"])
        rep.add(v, "200 life cycles of " + a)
    rep.add(judge(big_runs(long_runs(("ctx",), thorough), thorough), "compute", ["digest"]), "tens of thousands of life cycles, one after the other")
    rep.sample([line(e) for e in tr[100]])
    return rep.finish()


# ---------------------------------------------------------------- C02
def C02(rep, tier):
    r = rng(5)
    thorough = tier == "thorough"
    G.model("CtxModel", "CtxModel")
    tr = bad_histories(rep, r, 1 if thorough else 5)
    tr = [with_reference(t) for t in tr]
    items = run_all(tr, every())
    v = judge(items, "learn", ASP["C02"])
    rep.add(v, "refused calls from every state of the model")
    tr2 = walks(2000 if thorough else 150, SEED + 1)
    v = judge(run_all([with_reference(t) for t in tr2], every()), "learn", ASP["C02"])
    rep.add(v, "random histories with refused calls")
    rep.sample([line(e) for e in tr[50]])
    return rep.finish()


def with_reference(t):
    """Appends one-shot digests of everything that a context delivered, so that equal
    arguments meet in the memory of results."""
    segs, add = {}, []
    for e in t:
        c = e["c"]
        if e["op"] == "init" and e["ref"] == "ok" and c not in segs:
            segs[c] = [e["alg"], None, 0, True]
        elif e["op"] == "free" and e["ref"] == "ok":
            segs.pop(c, None)
        elif c in segs and e["op"] == "update" and e["ctx"] == "ok" and e["d"]["k"] == "gen":
            s = segs[c]
            if s[1] is None:
                s[1] = e["d"]["p"]
                if e["d"]["o"] != 0:
                    s[3] = False
            if s[1] != e["d"]["p"] or s[2] != e["d"]["o"]:
                s[3] = False
            s[2] += e["d"]["n"]
        elif c in segs and e["op"] == "final":
            s = segs[c]
            if s[3]:
                add.append((s[0], s[1] or 0, s[2]))
    return t + [calc(a, gen(p, 0, n)) for a, p, n in dict.fromkeys(add)]


# ---------------------------------------------------------------- C07
def C07(rep, tier):
    r = rng(6)
    thorough = tier == "thorough"
    tr = bad_histories(rep, r, 1 if thorough else 6)
    tr += walks(2000 if thorough else 150, SEED + 2)
    for fn in range(4):
        for m in range(0, 5):
            for hs in list(range(0, 40)) + [60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 80, 200]:
                if fn in (1, 3) and hs > 1:
                    continue
                tr.append([dict(op="errtext", fn=fn, m=m, hs=hs, null=False)])
        tr.append([dict(op="errtext", fn=fn, m=1, hs=100, null=True)])
    items = run_all(tr, every())
    v = judge(items, "learn", ASP["C07"])
    rep.add(v, "error objects of valid and refused calls")
    v = judge(faults(rep, r, tier), "learn", ASP["C07"])
    rep.add(v, "error objects of calls with failing resources")
    rep.sample([line(e) for e in tr[10]])
    return rep.finish(assumptions=["libcerror is a stand-in with the interface of the original (shim/libcerror.c)"])


# ---------------------------------------------------------------- faults
def fault_targets(a):
    """(calls before, the call that meets the fault, calls after)"""
    B = BLK[a]
    other = [init("sha1", c=5), update("sha1", gen(4, 0, 70), c=5)]
    ref = [calc("sha1", gen(4, 0, 75)), calc(a, gen(1, 0, 30)), hmac(a, gen(2, 0, 9), gen(3, 0, 5))]
    after = [update("sha1", gen(4, 70, 5), c=5), final("sha1", c=5), free("sha1", c=5),
             init(a, c=6), update(a, gen(1, 0, 30), c=6), final(a, c=6), free(a, c=6),
             hmac(a, gen(2, 0, 9), gen(3, 0, 5))]
    yield ref + other, init(a, c=0), [free(a, c=0)] + after
    for m, n in ((0, 5), (10, B - 10), (10, 3 * B), (B - 1, 1)):
        yield (ref + other + [init(a, c=0), update(a, gen(1, 0, m), c=0)],
               update(a, gen(1, m, n), c=0), [free(a, c=0)] + after)
    for m in (0, 5, B - LENF[a], B + 3):
        yield (ref + other + [init(a, c=0), update(a, gen(1, 0, m), c=0)],
               final(a, c=0), [free(a, c=0)] + after)
    yield ref + other + [init(a, c=0)], free(a, c=0), after
    for n in (0, 5, 2 * B):
        x = calc(a, gen(1, 0, n))
        yield ref + other + [dict(x)], x, after
    for kn in (0, 9, B, B + 1, 3 * B):
        x = hmac(a, gen(2, 0, kn), gen(3, 0, 40))
        yield ref + other + [dict(x)], x, after


def faults(rep, r, tier, cfgs=None, sec=False):
    """Every resource or back end operation of every target call fails once."""
    items = []
    cfgs = cfgs or every(("", "nb"))

    def one(cs):
        c, s = cs
        exe = drv(c, s)
        kinds = 7 if s == "nb" else 3
        out = []
        todo = [(a, b, t, f) for a in ALGS for b, t, f in fault_targets(a)]
        k = 1
        while todo and k < 400:
            trs = [b + [dict(t, f=k, fk=kinds, **(dict(sec=1) if sec and t["op"] == "hmac" else {}))] + f
                   for a, b, t, f in todo]
            res = execute(exe, trs)
            nxt = []
            for q, tr in zip(todo, res):
                out.append((c + ("+" + s if s else "") + " fault %d" % k, tr))
                i = len(q[1]) + 1
                if i < len(tr) and (tr[i].get("fired") or tr[i].get("crash")):
                    if not tr[i].get("crash"):
                        nxt.append(q)
            todo = nxt
            k += 1
        return out
    for o in pmap(one, cfgs):
        items += o
    rep.notes["fault_points"] = sum(1 for _, t in items if any(e.get("fired") for e in t))
    return items


def C05(rep, tier):
    r = rng(7)
    G.model("HmacCalc", "HmacCalc")
    G.model("CtxModel", "CtxModel")
    items = faults(rep, r, tier)
    v = judge(items, "learn", ASP["C05"])
    rep.add(v, "every failing resource operation of every call")
    v = judge(faults(rep, r, tier, [("fb", "asan"), ("evp2", "asan")] + ([(c, "asan") for c in ("low", "evp1", "evpold", "fbloop")] if tier == "thorough" else [])),
              "learn", ASP["C05"])
    rep.add(v, "the same with address and undefined behaviour sanitizers")
    rep.sample([line(e) for e in items[3][1] if e["op"] != "reset"])
    return rep.finish(assumptions=["memcpy and memset do their work even where they are made to report failure"])


# ---------------------------------------------------------------- C06
def C06(rep, tier):
    r = rng(8)
    thorough = tier == "thorough"
    G.model("HmacCalc", "HmacCalc")
    tr = []
    for a in ALGS:
        B = BLK[a]
        for kn in sorted({8, 9, 16, DLEN[a], B - 1, B, B + 1, B + 17, 2 * B, 2 * B + 9, 500} | set(range(8, 3 * B, 1 if thorough else 19))):
            for n in (0, 1, B, 100):
                tr.append([hmac(a, gen(2, 0, kn), gen(3, 0, n), sec=1)])
            for d in (null(0), null(5), big()):
                tr.append([hmac(a, gen(2, 0, kn), d, sec=1)])
            tr.append([hmac(a, gen(2, 0, kn), gen(3, 0, 10), sec=1, hs=DLEN[a] - 1)])
        for _ in range(20 if thorough else 4):
            k = bytes(r.randrange(256) for _ in range(r.randint(8, 2 * B)))
            tr.append([hmac(a, lit(k), lit(b"message"), sec=1)])
    sans = ["", "nb", "clang"]
    items = run_all(tr, every(sans))
    v = judge(items, "learn", ASP["C06"])
    rep.add(v, "released memory after HMAC calculations")
    it = faults(rep, r, tier, every(("", "clang")), sec=True)
    v = judge(it, "learn", ASP["C06"])
    rep.add(v, "released memory after HMAC calculations that failed")
    # message data in a context of the built-in implementation
    tr2 = []
    for a in ALGS:
        B = BLK[a]
        for n in range(8, 2 * B + 10, 1 if thorough else 5):
            d = gen(11, 0, n)
            tr2.append([init(a), update(a, d), final(a), dict(free(a), s=d)])
            k = r.randint(0, n)
            tr2.append([init(a), update(a, gen(11, 0, k)), update(a, gen(11, k, n - k)), final(a), dict(free(a), s=d)])
    v = judge(run_all(tr2, [(c, s) for c in build.FALLBACK for s in sans]), "learn", ASP["C06"])
    rep.add(v, "released contexts after a delivered digest")
    rep.sample(line(tr[0][0]))
    return rep.finish(assumptions=["heap memory only: what the compiler leaves on the stack or in registers is not looked at",
                                   "eight consecutive bytes of a secret count as the secret"])


# ---------------------------------------------------------------- E01
def E01(rep, tier):
    r = rng(9)
    thorough = tier == "thorough"
    G.model("CtxModel", "CtxModel")
    tr = bad_histories(rep, r, 6) + walks(1500 if thorough else 150, SEED + 3)
    for a in ALGS:
        B = BLK[a]
        for n in range(0, 2 * B + 5, 1 if thorough else 4):
            x = r.randint(0, n)
            tr.append([init(a), update(a, gen(1, 0, x)), update(a, gen(1, x, n - x)), final(a), free(a),
                       calc(a, gen(1, 0, n)), hmac(a, gen(2, 0, n), gen(1, 0, n))])
    both = []
    for t in tr:
        both.append(t)
    flip = [[dict(e, lay=1 - e["lay"]) if "lay" in e else e for e in t] for t in tr]
    n = len(tr)
    items, groups = [], [[] for _ in range(n)]
    for c in ALL:
        for lab, ts in ((c, tr), (c + " layers swapped", flip)):
            pass
    res = run_all(tr + flip, every())
    per = {}
    for lab, t in res:
        per.setdefault(lab, []).append(t)
    fit = [i for i, t in enumerate(tr + flip) if fits32(t)]
    for lab, ts in per.items():
        for i, t in zip(fit if "m32" in lab else range(2 * n), ts):
            groups[i % n].append(len(items))
            items.append((lab + (" layers swapped" if i >= n else ""), t))
    v = judge(items, "learn", ASP["E01"], groups=groups)
    rep.add(v, "the same histories in every configuration and through both layers")
    rep.notes["configurations"] = ["+".join(filter(None, c)) for c in every()]
    rep.sample([line(e) for e in tr[10]])
    return rep.finish()


# ---------------------------------------------------------------- D04
def big_runs(jobs, thorough=False):
    """jobs: (configuration, algorithm, arguments of drv_big). The events, to be judged."""
    w = dict(sha224=5, sha256=5, sha512=4, md5=2, sha1=2)
    jobs.sort(key=lambda j: -w[j[1]] * (2 if j[0] in build.FALLBACK else 1))
    exes = dict(zip(ALL, pmap(lambda c: build.program("drv_big", ["drv_big.c"], c, "", wrap=False, link=["-lcrypto"]), ALL)))

    def one(j):
        c, a, args = j
        cmd = " ".join(args)
        t = [dict(op="reset", keep=False, live=0)]
        why = ""
        if Enough.reached():
            return []
        try:
            r = run([exes[c]] + args, timeout=840 if thorough else 500)
            if r.returncode == 3:
                raise Broken("drv_big: " + r.stderr.decode(errors="replace")[:300])
            so = r.stdout
            if r.returncode:
                why = "exit %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[:200])
        except subprocess.TimeoutExpired as x:
            so, why = x.stdout or b"", "timeout"
        for x in so.decode().split("\n"):
            if x.startswith("{") and x.endswith("}"):
                t.append(dict(json.loads(x), crash="", cmd=cmd, live=0, errs=0))
        if why:
            Enough.add(Enough.limit)
            t.append(dict(op="stream", kind="hash", alg=a, ret=-9, crash=why, cmd=cmd, live=0, errs=0, t=[], h=[], n=[0, 0, 0, 0], key=[], out=[]))
        return [(c, [t[0], e]) for e in t[1:]]
    items = [x for r in pmap(one, jobs) for x in r]
    return items


def big32(jobs):
    """(algorithm, arguments of drv_big): what the 32-bit build delivers, with the chaining
    value that the witness of a 64-bit run of the same message tells."""
    if not build.runs32() or not jobs:
        return []
    exe = build.program("drv_big", ["drv_big.c"], "fb32", "m32", wrap=False)
    wit = build.program("drv_big", ["drv_big.c"], "low", "", wrap=False, link=["-lcrypto"])

    def one(j):
        a, args = j
        cmd = " ".join(args)
        if Enough.reached():
            return []
        both = []
        for x in (exe, wit):
            try:
                r = run([x] + args, timeout=500)
                if r.returncode == 3 or (x == wit and r.returncode):
                    raise Broken("drv_big: " + r.stderr.decode(errors="replace")[:300])
                both.append((r.stdout, "exit %d" % r.returncode if r.returncode else ""))
            except subprocess.TimeoutExpired as e:
                both.append((e.stdout or b"", "timeout"))
        (so, why), (ws, _) = both
        got, want = ([json.loads(x) for x in y.decode().split("\n") if x.startswith("{") and x.endswith("}")] for y in (so, ws))
        t = []
        for g, w in zip(got, want):
            t.append(dict(w, ret=g["ret"], out=g["out"], n=w["n"] if g["ret"] == 1 else g["n"], crash="", cmd="m32 " + cmd, live=0, errs=0))
        if why:
            Enough.add(Enough.limit)
            t.append(dict(op="stream", kind="hash", alg=a, ret=-9, crash=why, cmd="m32 " + cmd, live=0, errs=0, t=[], h=[], n=[0, 0, 0, 0], key=[], out=[]))
        return [("fb32+m32", [dict(op="reset", keep=False, live=0), e]) for e in t]
    return [x for r in pmap(one, jobs) for x in r]


def jobs32(thorough, ALGS_=ALGS):
    jobs = []
    for ai, a in enumerate(ALGS_):
        B, L = BLK[a], LENF[a]
        P = 2 * B
        ex = ",".join(map(str, sorted({0, 1, P - B - 1, P - L - 1, P - L, P - 1, P, P + 1, P + B - L - 1, P + B - L, P + B})))
        bs = [2 ** 29, 2 ** 31, 2 ** 32] if thorough or a in ("md5", "sha1") else [2 ** 29]
        jobs.append((a, ["stream", a, str(ai % 2), str((1 << 20) + 3), ",".join(str(x - P) for x in bs), ex]))
        if thorough:
            jobs.append((a, ["stream", a, "0", "0", ",".join(str(x - P) for x in bs), ex]))
        for m in ("update", "calc", "hmac", "bigkey"):
            if thorough or (m, a) in (("calc", "md5"), ("update", "sha1"), ("hmac", "sha256"), ("bigkey", "sha224"), ("calc", "sha512")):
                jobs.append((a, ["one", a, "0", m, str(2 ** 29), str(17 + ai)]))
                if thorough or m == "calc" and a == "md5":
                    jobs.append((a, ["one", a, "0", m, str(2 ** 31 - 2 * P), str(2 * P - 1)]))
    return jobs


def D04(rep, tier):
    thorough = tier == "thorough"
    jobs = []
    G2, G4 = 2 ** 31, 2 ** 32
    for ci, c in enumerate(ALL):
        for ai, a in enumerate(ALGS):
            B, L = BLK[a], LENF[a]
            P = 2 * B                      # whole blocks left before the power of two
            extra = sorted({0, 1, P - B - 1, P - L - 1, P - L, P - 1, P, P + 1, P + B - L - 1, P + B - L, P + B})
            bases = [x - P for x in (2 ** 29, 2 ** 30, G2, G2 + 2 ** 29, G4)] if thorough else [x - P for x in (2 ** 29, G2, G4)]
            ex = ",".join(map(str, extra))
            bs = ",".join(map(str, bases))
            jobs.append((c, a, ["stream", a, str((ai + ci) % 2), str((1 << 20) + 3), bs, ex]))
            if thorough:
                jobs.append((c, a, ["stream", a, str((ai + ci + 1) % 2), "0", bs, ex]))
                jobs.append((c, a, ["stream", a, "0", "65536", bs, ex]))
            one = ["update", "calc", "hmac"]
            k = (ai + ci) % 3
            if thorough or (c == "low" and ai != 0) or (c == "fb" and ai == 0):
                jobs.append((c, a, ["one", a, "0", "bigkey", str(G4), str(13 + ai)]))
            for mode in one if thorough or c == "fb" else [one[k]]:
                if thorough or c not in ("evp1", "evpold"):
                    jobs.append((c, a, ["one", a, "0", mode, str(G4), str((37 * (k + 1)) % (2 * B))]))
            if thorough or c == "fb":
                jobs.append((c, a, ["one", a, "0", "calc", str(G2), str(B - L - 1)]))
    items = big_runs(jobs, thorough)
    v = judge(items, "compute", ["digest"])
    rep.add(v, "messages of around 2^29 to 2^32 bytes")
    rep.add(judge(big32(jobs32(thorough)), "compute", ["digest"]), "the same in a 32-bit build")
    rep.notes["runs"] = len(jobs)
    e = items[0][1][1]
    rep.sample(dict(cmd=e["cmd"], n=e["n"], out=e["out"]))
    return rep.finish(assumptions=["the chaining value of the whole blocks before the last few hundred bytes comes from the compression functions of libcrypto; padding, length and output are computed by TLC",
                                   "message content has period 1 MiB"])


# ---------------------------------------------------------------- C03
def threads(scripts, cfgs, rounds):
    """scripts: list of lists (one list of calls per thread). All answers, per thread and
    round, as histories; the calls of one thread are the history of that thread."""
    def one(j):
        (c, san), ths = j
        if Enough.reached():
            return []
        exe = exes[(c, san)]
        inp = "".join("thread\n" + "".join(line(e) + "\n" for e in t) for t in ths)
        env = dict(os.environ)
        env.update(SAN_ENV)
        crash = ""
        try:
            r = run([exe, str(rounds)], input=inp.encode(), timeout=240, env=env)
            if r.returncode == 3:
                raise Broken("drv_threads")
            so = r.stdout.decode()
            if r.returncode:
                crash = "exit %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[:600])
        except subprocess.TimeoutExpired as x:
            so, crash = "", "timeout"
        res = [json.loads(x) for x in so.split("\n") if x.startswith("{") and x.endswith("}")]
        lab = "%s%s %d threads" % (c, "+" + san if san else "", len(ths))
        if crash or len(res) != sum(map(len, ths)) * rounds:
            Enough.add(Enough.limit)
            e = dict(ths[0][0], ret=-9, now="null", out=[], crash=crash or "answers missing", live=0, errs=0)
            return [(lab, [dict(op="reset", keep=False, live=0), e])]
        out, n = [], 0
        for t in ths:
            for _ in range(rounds):
                tr = [dict(op="reset", keep=False, live=0)]
                for e in t:
                    tr.append(dict(e, crash="", live=0, errs=0, **res[n]))
                    n += 1
                out.append((lab, tr))
        return out
    exes = dict(zip(cfgs, pmap(lambda c: build.program("drv_threads", ["drv_threads.c"], c[0], c[1], wrap=False), cfgs)))
    return [one_ for r in pmap(one, [(c, s) for c in cfgs for s in scripts], 3) for one_ in r]


def C03(rep, tier):
    r = rng(10)
    thorough = tier == "thorough"
    G.model("CtxModel", "CtxModel")
    # every interleaving of two contexts of every two algorithms
    tr = valid_histories(r)
    fine = [x["h"] + G.closing(x["s"]) for x in G.histories("GenPair", "histories", workers=8)]
    n = len(fine) if thorough else 1200
    tr += r.sample(fine, min(n, len(fine)))
    tr += walks(3000 if thorough else 250, SEED + 4)
    tr = [with_reference(t) for t in tr]
    # in a shared memory of results: what one history computed, another repeats
    order = list(tr)
    r.shuffle(order)
    items = run_all(order, every())
    v = judge(items, "learn", ASP["C03"])
    rep.add(v, "interleaved contexts of one thread")
    few = r.sample(order, 400 if thorough else 60)
    v = judge(run_all(few, [("fb", ""), ("evp2", ""), ("low", "")]), "compute", ASP["C03"])
    rep.add(v, "interleaved contexts, digests by value")
    # one-shot calls around an open context, of every two algorithms
    shot = []
    for a in ALGS:
        for b in ALGS:
            B = BLK[a]
            for n in (0, 5, B, B + 30):
                for x in (calc(b, gen(9, 0, 70)), calc(b, gen(9, 0, 0)), hmac(b, gen(8, 0, 200), gen(9, 0, 10)), hmac(b, gen(8, 0, 7), gen(9, 0, 130))):
                    shot.append([calc(a, gen(0, 0, n + 20)), init(a), update(a, gen(0, 0, n)), x, update(a, gen(0, n, 20)), dict(x), final(a), free(a), dict(x)])
    v = judge(run_all(shot, every()), "learn", ASP["C03"])
    rep.add(v, "one-shot calls between the updates of a context")
    # threads
    scripts = []
    for same in ALGS + [None, None]:
        ths = []
        for k in range(6):
            a = same or r.choice(ALGS)
            t = []
            for m in range(3):
                B = BLK[a]
                x, y = r.randint(0, 3 * B), r.randint(0, 3 * B)
                p = 10 * k + m
                t += [init(a, c=m), update(a, gen(p, 0, x), c=m), calc(a, gen(p, 0, x + y)), update(a, gen(p, x, y), c=m),
                      hmac(a, gen(p, 1, r.choice([5, B, B + 9])), gen(p, 2, y)), final(a, c=m), free(a, c=m)]
            ths.append(t)
        scripts.append(ths)
    its = threads(scripts, [(c, "") for c in ALL], 300 if thorough else 100)
    # and the same calls alone, before: the results of the threads are those
    alone = run_all([t for ths in scripts for t in ths], [("fb", "")])
    groups, items = [], []
    by = {}
    for lab, t in alone + its:
        key = json.dumps([line(e) for e in t if e["op"] != "reset"])
        if any(e.get("crash") for e in t):
            key = "crash%d" % len(items)
        by.setdefault(key, []).append(len(items))
        items.append((lab, t))
    v = judge([(l, [e if e["op"] == "reset" else dict(e) for e in t]) for l, t in items], "learn", ASP["C03"], groups=list(by.values()))
    rep.add(judge(big_runs(long_runs(("calc", "many"), thorough), thorough), "compute", ["digest"]), "hundreds of contexts at once, tens of thousands of calculations")
    rep.add(v, "threads with contexts of their own")
    its = threads(scripts, [("fb", "tsan"), ("fbloop", "tsan")], 20 if thorough else 5)
    v = judge(its, "learn", ASP["C03"])
    rep.add(v, "threads, with the thread sanitizer")
    rep.sample([line(e) for e in tr[10]])
    rep.notes["threads"] = dict(threads=6, scripts=len(scripts))
    return rep.finish(assumptions=["schedules of parallel threads are those the machine happened to produce; data races are looked for by the thread sanitizer in the built-in implementation"])


# ---------------------------------------------------------------- C04
def C04(rep, tier):
    r = rng(11)
    thorough = tier == "thorough"
    G.model("Streaming", "Streaming8")
    tr = []

    def var(e, **kw):
        return dict(e, st=r.randrange(2), mis=r.choice([0, 0, 1, 2, 3, 5, 7]), **kw)
    for a in ALGS:
        B, L = BLK[a], LENF[a]
        lens = list(range(0, 2 * B + 2)) if thorough else sorted(set(lens_around(B, L)) | set(r.sample(range(2 * B), 12)))
        for n in lens + [3 * B + 1, 5 * B, 4096, 4097]:
            ref = calc(a, gen(1, 0, n))
            for st in (0, 1):
                for mis in (0, 1, 3) if st else (0,):
                    tr.append([ref, dict(calc(a, gen(1, 0, n)), st=st, mis=mis),
                               dict(calc(a, gen(1, 0, n), hs=DLEN[a] + r.choice([1, 7, 64])), st=st, mis=mis)])
            k = r.randint(0, n)
            tr.append([ref, init(a), var(update(a, gen(1, 0, k))), var(update(a, gen(1, k, n - k))),
                       var(final(a, hs=DLEN[a] + r.choice([0, 0, 1, 40]))), free(a)])
            # the output over the message
            tr.append([ref, dict(calc(a, gen(1, 0, n)), alias=1), dict(calc(a, gen(1, 0, n), hs=DLEN[a] + 20), alias=1)])
            kk, dd = gen(2, 0, n), gen(3, 0, r.choice([0, 1, 10, B, B + 5]))
            ref = hmac(a, kk, dd)
            tr.append([ref, var(hmac(a, kk, dd)), var(hmac(a, kk, dd, hs=DLEN[a] + 33)), dict(hmac(a, kk, dd), alias=1), dict(hmac(a, kk, dd), alias=2)])
            ref = hmac(a, dd, kk)
            tr.append([ref, var(hmac(a, dd, kk)), dict(hmac(a, dd, kk), alias=1), dict(hmac(a, dd, kk), alias=2)])
        # sizes that the output size may claim
        for hs in ("M", "U", "S", "V"):
            tr.append([calc(a, gen(1, 0, 9), hs=hs), hmac(a, gen(1, 0, 9), gen(2, 0, 5), hs=hs)])
        for hs in (DLEN[a] - 1, 0, 1):
            tr.append([calc(a, gen(1, 0, 9), hs=hs), hmac(a, gen(1, 0, 9), gen(2, 0, 5), hs=hs), init(a), final(a, hs=hs), free(a)])
        tr.append([calc(a, gen(1, 0, 9), hs=1 << 20), hmac(a, gen(1, 0, 9), gen(2, 0, 5), hs=1 << 20)])
    tr += walks(1500 if thorough else 150, SEED + 5)
    cfgs = every() + [(c, "asan") for c in ALL] + [("fb", "msan"), ("fbloop", "msan")]
    v = judge(run_all(tr, cfgs), "learn", ASP["C04"])
    rep.add(v, "buffers between inaccessible pages, with and without sanitizers")
    # generated refused calls: nothing is written then
    bad = bad_histories(rep, r, 8)
    v = judge(run_all(bad, [("fb", "asan"), ("evp2", "asan"), ("low", ""), ("evpold", "")]), "learn", ASP["C04"])
    rep.add(v, "refused calls")
    rep.sample([line(e) for e in tr[5]])
    return rep.finish(assumptions=["reads of uninitialised memory are looked for (memory sanitizer) in the built-in implementation only"])
