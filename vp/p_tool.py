"""Properties of hmacsum and its parts."""
import json, os, random, re
from .common import *
from . import build, gen as G
from .tool import *

ASP = dict(T01=["exact", "succeed"], T02=["nodigest", "released"], T03=["aborted", "spurious"],
           T10=["written", "cutlines", "released", "exact", "succeed", "nodigest"],
           T09=["command", "banner", "exact", "succeed", "buffer", "told"])
TYPES = ("md5", "sha1", "sha224", "sha256", "sha512")


def rng(n=0):
    return random.Random(SEED * 1000003 + n)


def tools(cfgs, **kw):
    return list(zip([label(c) for c in cfgs], pmap(lambda c: build.tool(*c, **kw), cfgs)))


def label(c):
    return "%s%s,%s" % (c[0], "+" + c[1] if c[1] else "", "getopt" if c[2] else "own getopt")


SYS, OWN, EVP, LOW, ASAN = ("fb", "", True), ("fb", "", False), ("evp2", "", True), ("low", "", False), ("fb", "asan", False)


def jobs_of(runs, exes, r=None):
    """Every run in one of the builds in turn, or in all (r None)."""
    if r is None:
        return [(lab, exe, x) for lab, exe in exes for x in runs]
    k = r.randrange(len(exes))
    return [exes[(i + k) % len(exes)] + (x,) for i, x in enumerate(runs)]


def scripts(cfg, tag="S"):
    """Runs of the model, without those in which the output fails (T10)."""
    r = G.model("SumModel", cfg, workers=1)
    return [s for s in G._emitted(r.out, tag) if s["fail"] != "print"]


def printing(cfg):
    r = G.model("SumModel", cfg, workers=1)
    return [s for s in G._emitted(r.out, "S") if s["fail"] == "print"]


def from_script(s, unit, pattern=0, types=None, rec=False):
    """A run of the model for the real tool: sizes times unit."""
    kw = {}
    rd = ["e" if x == -1 else "z" if x == 0 else str(x * unit) for x in s["reads"]]
    if rd:
        kw["reads"] = ",".join(rd)
    if s["fail"] in ("open", "size"):
        kw["fail"] = s["fail"]
    elif s["fail"] == "lib":
        kw["kinds"], kw["faultat"] = 8, s["faultat"]
    elif s["fail"] == "malloc":
        kw["kinds"], kw["faultat"] = 1, s.get("mallocat", 1)
    if s["int"]:
        kw["inton"] = "%s:%d" % (s["int"], s["intat"])
    args = (["-d", types] if types else []) + ["-p", str(s["buf"] * unit), "f"]
    return run_(args, ("rec" if rec else "gen", pattern, s["n"] * unit), **kw)


def splits(r, total, n):
    """Read limits that add up to at least the total."""
    if n <= 1 or total == 0:
        return []
    w, left = [], total
    for i in range(n - 1):
        k = max(1, min(left, r.choice([1, 2, 3, 63, 64, 65, 1000, left // 2 or 1, left])))
        w.append(k)
        left -= k
        if left == 0:
            break
    return w


def perms(r, n):
    out = []
    for i in range(n):
        ts = [t for t in TYPES if r.random() < 0.5] or [r.choice(TYPES)]
        r.shuffle(ts)
        out.append(",".join(ts))
    return out


def T01(rep, tier):
    deep = tier == "thorough"
    r = rng(101)
    exes = tools([SYS, OWN, EVP, LOW, ASAN])
    G.model("SumModel", "SumModel")
    runs = []
    ss = [s for s in scripts("SumEmit") if not s["fail"] and not s["int"]]
    for s in ss:
        for unit in (1, 61, 64):
            runs.append(from_script(s, unit, r.randrange(4), r.choice(perms(r, 2))))
    rep.sample(dict(script=ss[-1], run=run_line(runs[-1])))
    # every subset of the types, over one content
    for m in range(32):
        ts = [t for i, t in enumerate(TYPES) if m >> i & 1]
        r.shuffle(ts)
        runs.append(run_((["-d", ",".join(ts)] if ts else []) + ["f"], ("gen", 1, 150), reads="70,1"))
        runs.append(run_((["-d", ",".join(ts)] if ts else []) + ["-p", "64", "f"], ("gen", 1, 128)))
    # lengths around the blocks, all types at once
    everything = ",".join(TYPES)
    for n in sorted({0, 1, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 255, 256, 257}):
        p = r.choice([1, 7, 64, 100, 128, 32768])
        runs.append(run_(["-d", everything, "-p", str(p), "f"], ("gen", 2, n)))
    # random contents, buffer sizes and splits
    for i in range(600 if deep else 160):
        n = r.randrange(0, 400)
        lit = bytes(r.randrange(256) for _ in range(n))
        p = r.choice([1, 2, 3, 5, 16, 63, 64, 65, 100, 127, 128, 129, 399, 400, 1024, 32768])
        w = splits(r, n, r.randrange(1, 12))
        kw = dict(reads=",".join(map(str, w))) if w else {}
        a = ["-p", "%d" % p] if r.random() < 0.8 else []
        d = ["-d", r.choice(perms(r, 3))] if r.random() < 0.8 else []
        runs.append(run_((a + d if r.random() < 0.5 else d + a) + ["f"], ("lit", lit), **kw))
    jobs = jobs_of(runs, exes, r)
    done = execute(jobs)
    judge(rep, done, ASP["T01"], "contents, buffer sizes and splits of reads")
    # around the default buffer and beyond it
    big = []
    for n in [32767, 32768, 32769, 65535, 65536, 65537] + ([98304, 100000, 131072] if deep else [98305]):
        for kw, pre in (({}, []), (dict(reads="f,1,f"), []), (dict(reads="10000"), ["-p", "32K"]), ({}, ["-p", "100000"])):
            big.append(run_(pre + (["-d", "sha1"] if deep and n % 2 else []) + ["f"], ("gen", 3, n), **kw))
    done = execute(jobs_of(big, exes, r))
    judge(rep, done, ASP["T01"], "contents around multiples of the default buffer")
    # recorded updates instead of digests: what the tool feeds each type
    rec = []
    for i in range(600 if deep else 200):
        n = r.choice([r.randrange(0, 2000), r.randrange(30000, 200000), 32768 * r.randrange(1, 40) + r.randrange(-1, 2), 1 << r.randrange(10, 24)])
        p = r.choice([x for x, v in (("1K", 1024), ("4096", 4096), ("32768", 32768), ("64K", 65536), ("1M", 1 << 20), ("100000", 10 ** 5), ("3000", 3000),
                                     ("33 KB", 33000), ("1.5K", 1024), ("16 MiB", 1 << 24)) if n // v < 200])
        w = [str(r.choice(["f", 1, 511, 512, 4096, 32768, r.randrange(1, 70000)])) for _ in range(r.randrange(0, 40))]
        kw = dict(reads=",".join(w)) if w else {}
        rec.append(run_(["-d", r.choice(perms(r, 3)), "-p", p, "f"], ("rec", i % 5, n), **kw))
    done = execute(jobs_of(rec, exes, r))
    judge(rep, done, ASP["T01"], "updates recorded in place of the digests")
    # more than 4 GiB
    huge = [run_(["-d", "md5,sha1", "-p", "1G", "f"], ("rec", 1, 2 ** 32 + 65541), secs=200)]
    if deep:
        huge += [run_(["-p", "3G", "f"], ("rec", 1, 5 * 10 ** 9), secs=300), run_(["-d", "sha512", "-p", "3M", "f"], ("rec", 2, 2 ** 32 + 1), secs=300),
                 run_(["-p", "64M", "f"], ("rec", 3, 9 * 10 ** 9 + 7), secs=300)]
    else:
        huge += [run_(["-p", "16M", "f"], ("rec", 2, 2 ** 32 + 70000), secs=200)]
    done = [x for h in huge for x in execute([exes[0] + (h,)])]
    judge(rep, done, ASP["T01"], "more than 4 GiB, recorded")
    return rep.finish(assumptions=SURROUNDINGS)


SURROUNDINGS = ["the input layer (libcfile), libclocale, libcnotify and libcsplit are stand-ins in /verif/shim with the interface of the originals; "
                "every open, size and read that the tool asks for goes through the stand-in",
                "the tool is run in a process of its own per run, with its main renamed"]


def enumerate_faults(exes, bases, kinds, limit=400):
    """Every run of bases again, with its k-th operation failing, for every k."""
    jobs = []
    probe = execute([(lab, exe, run_(b["args"], b["inp"], **dict(b["kw"], kinds=kinds, faultat=1 << 30))) for lab, exe in exes for b in bases])
    by = {(lab): exe for lab, exe in exes}
    for lab, r, res in probe:
        for k in range(1, min(limit, res["ops"]) + 1):
            jobs.append((lab, by[lab], run_(r["args"], r["inp"], **dict(r["kw"], faultat=k))))
    return jobs


def T02(rep, tier):
    deep = tier == "thorough"
    r = rng(202)
    exes = tools([SYS, OWN, EVP, LOW, ASAN])
    G.model("SumModel", "SumModel")
    runs = []
    ss = [s for s in scripts("SumEmit") if s["fail"] and not s["int"]]
    for s in ss:
        for unit in (1, 64) + ((61, 1000) if deep else ()):
            for types in ("sha512", "sha224,sha1"):
                runs.append(from_script(s, unit, r.randrange(4), types))
    rep.sample(dict(script=ss[-1], run=run_line(runs[-1])))
    done = execute(jobs_of(runs, exes, r))
    judge(rep, done, ASP["T02"], "runs of the model with a failure")
    # single faults of every operation, in every shape of run
    bases = [run_(["-d", "sha1,sha224,sha256,sha512", "-p", "64", "f"], ("gen", 1, 150)),
             run_(["f"], ("gen", 2, 10)), run_(["-v", "-d", "sha256", "f"], ("gen", 2, 0)),
             run_(["-p", "9999999999999999999", "f"], ("gen", 2, 3)), run_(["-p", "5x", "f"], ("gen", 2, 3)),
             run_(["-d", "sha512", "-p", "0", "f"], ("gen", 2, 3)), run_(["-d", "sha1,bogus,sha1", "f"], ("gen", 2, 30), reads="7,7"),
             run_(["-h"], ("gen", 0, 1)), run_(["-V"], ("gen", 0, 1)), run_(["-x"], ("gen", 0, 1)), run_(["-d"], ("gen", 0, 1)), run_([], ("gen", 0, 1))]
    jobs = enumerate_faults(exes, bases, 1 | 2 | 8 | 16 | 32)
    done = execute(jobs)
    rep.notes["single_faults"] = len(jobs)
    judge(rep, done, ASP["T02"], "every operation failing once")
    # failures of the input, at every read, with every buffer and two at once
    runs = []
    for n in (0, 1, 63, 64, 65, 200, 40000):
        for p in ("1", "64", "199", "32768"):
            if n > 1000 and len(p) < 3:
                continue
            for what in ("e", "z", "1,e", "1,z", "f,e", "f,z", "f,1,e", "1,1,1,z", "f,f,e", "f,f,z"):
                runs.append(run_(["-d", "sha256", "-p", p, "f"], ("rec" if n > 1000 else "gen", 1, n), reads=what))
            for more in (1, 2, 64, 100000, 1 << 33):
                runs.append(run_(["-d", "sha1", "-p", p, "f"], ("rec" if n > 1000 else "gen", 1, n), size=n + more))
    for f in ("open", "size", "close", "fileinit", "open,size", "size,close", "open,close", "close,fileinit"):
        for a in (["f"], ["-d", "sha512,sha1", "f"], ["-p", "1", "-v", "f"], ["-h"], ["-q"], ["-p", "0", "f"]):
            for e in ("", "e", "1,e"):
                kw = dict(fail=f)
                if e:
                    kw["reads"] = e
                runs.append(run_(a, ("gen", 1, 5), **kw))
    for i in range(1500 if deep else 300):
        n = r.randrange(0, 300)
        kw = dict(reads=",".join(str(r.choice(["e", "z", "f", 1, 2, 64, r.randrange(1, 200)])) for _ in range(r.randrange(1, 9))))
        if r.random() < .3:
            kw["size"] = n + r.randrange(1, 100)
        if r.random() < .3:
            kw["kinds"], kw["faultat"] = 1 | 2 | 8 | 16 | 32, r.randrange(1, 60)
        if r.random() < .2:
            kw["fail"] = r.choice(["close", "size", "open"])
        runs.append(run_(["-d", r.choice(perms(r, 2)), "-p", str(r.choice([1, 7, 64, 100, 300, 32768])), "f"], ("gen", i % 3, n), **kw))
    done = execute(jobs_of(runs, exes, r))
    judge(rep, done, ASP["T02"], "failing and ending reads")
    return rep.finish(level="fault_enumeration", assumptions=SURROUNDINGS + [
        "faults: allocations, back end operations, libhmac operations, signal and locale set-up, string splitting, and every operation of the input layer"])


def T03(rep, tier):
    deep = tier == "thorough"
    r = rng(303)
    exes = tools([SYS, OWN, EVP, LOW, ASAN])
    G.model("SumModel", "SumModel")
    runs = []
    ss = [s for s in scripts("SumEmit")] + [s for s in scripts("SumEmitBoth") if s["int"]]
    for s in ss:
        for unit in (1, 64) if deep or not s["fail"] else (r.choice([1, 61, 64]),):
            for types in ("sha512", "sha224,sha1")[:2 if deep else 1]:
                runs.append(from_script(s, unit, r.randrange(3), types))
                if deep and s["int"]:
                    runs.append(dict(runs[-1], kw=dict(runs[-1]["kw"], again=1)))
    rep.sample(dict(script=ss[-1], run=run_line(runs[-1])))
    done = execute(jobs_of(runs, exes, r))
    judge(rep, done, ASP["T03"], "runs of the model with and without an interrupt")
    # every point of several runs, heap operations included
    bases = [run_(["-d", "sha1,sha224,sha256,sha512", "-p", "64", "f"], ("gen", 1, 150)),
             run_(["-p", "1", "f"], ("gen", 2, 9)), run_(["-d", "sha512", "f"], ("gen", 2, 0)), run_(["-v", "-d", "SHA1", "f"], ("gen", 2, 30), reads="7,7"),
             run_(["-p", "9999999999999999999", "f"], ("gen", 2, 3)),
             run_(["-d", "sha256", "-p", "1K", "f"], ("gen", 2, 200), reads="1,e"), run_(["f"], ("gen", 2, 20), size=40), run_(["f"], ("gen", 2, 20), fail="open"),
             run_(["f"], ("gen", 2, 20), fail="size"), run_(["f"], ("gen", 2, 20), fail="close")]
    probe = execute([(lab, exe, run_(b["args"], b["inp"], **dict(b["kw"], heap=1, intat=1 << 30))) for lab, exe in exes for b in bases])
    by = dict(exes)
    jobs = [(lab, by[lab], x) for lab, x, _ in probe]
    for lab, x, res in probe:
        for k in range(1, res["points"] + 1):
            jobs.append((lab, by[lab], run_(x["args"], x["inp"], **dict(x["kw"], intat=k))))
            if k % 3 == 0 or deep:
                jobs.append((lab, by[lab], run_(x["args"], x["inp"], **dict(x["kw"], intat=k, again=1))))
    done = execute(jobs)
    rep.notes["interrupt_points"] = len(jobs)
    judge(rep, done, ASP["T03"], "an interrupt at every point")
    # an interrupt and a failure
    jobs = []
    for lab, exe in exes[:5 if deep else 2]:
        for lab2, x, res in [p for p in probe if p[0] == lab][:3]:
            for k in range(1, res["points"] + 1, 1 if deep else 2):
                for f in r.sample(range(1, 40), 12 if deep else 4):
                    jobs.append((lab, exe, run_(x["args"], x["inp"], **dict(x["kw"], intat=k, kinds=1 | 2 | 8 | 32, faultat=f))))
    done = execute(jobs)
    judge(rep, done, ASP["T03"], "an interrupt and a failure")
    # without an interrupt nothing is reported as aborted
    jobs = enumerate_faults(exes[:2], bases[:5], 1 | 8 | 16 | 32)
    for a in ([], ["-h"], ["-V"], ["-x"], ["-p", "5x", "f"], ["-p", "0", "f"], ["-d", "", "f"]):
        jobs += [(lab, exe, run_(a, ("gen", 1, 5))) for lab, exe in exes]
    done = execute(jobs)
    judge(rep, done, ASP["T03"], "no interrupt")
    return rep.finish(assumptions=SURROUNDINGS + [
        "the interrupt is raised synchronously at every call the tool makes to the input layer, to libhmac and to the heap, not between machine instructions"])


def words(cfg, args=()):
    r = G.model("WordModel", cfg, workers=8, args=args)
    return list(G._emitted(r.out, "W"))


def units(cfgs):
    return tools(cfgs, driver="drv_units.c", mains=False)


def T04(rep, tier):
    deep = tier == "thorough"
    r = rng(404)
    exes = units([SYS, ASAN, EVP])
    lists = [w[0] for w in words("WordTypes4" if deep else "WordTypes")]
    names = [p + h + n for n in ("1", "224", "256", "512") for p in ("sha", "SHA") for h in ("", "-", "_")] + ["md5", "MD5"]
    near = ["md", "md55", "Md5", "mD5", "md-5", "md_5", "MD-5", "sha", "SHA", "sha0", "sha2", "sha3", "sha384", "Sha1", "sHA1", "shA1", "sha--1", "sha-_1",
            "sha11", "sha2240", "sha22", "sha-22", "sha_2", "sha 1", " md5", "md5 ", "sha2566", "sha51", "sha-5122", "SHA-51", "sha225", "sha215", "sha612",
            "sha124", "sha156", "sha522", "sha511", "sha2", "sha-", "sha_", "5", "1", "512", "-1", "_512", "x", "mdfive", "nd5", "me5", "tha1", "sga256", "sib512",
            "xha-224", "SHa1", "SHa-256", "MD4", "md4", "MD6", "md5x", "xmd5", "sha.1", "sha+256", "sha-1-", "SHA_512_", "sha512/256", "s", "m", "-", "_", "sha1sha1",
            "md5md5", "md5;sha1", "md5:sha1", "all", "md5\t", "SHA\u00b11"]
    for a in names + near:
        lists += [a, "bogus," + a, a + ",zz", "sha1," + a]
        # one changed character each
        for i in range(len(a)):
            lists += [a[:i] + c + a[i + 1:] for c in ("x", "-", "1", "2", chr(ord(a[i]) ^ 0x20), chr((ord(a[i]) + 1) % 128 or 1)) if c not in ",\x00"]
            lists.append(a[:i] + a[i + 1:])
            lists.append(a[:i] + r.choice("125-_sSmD") + a[i:])
    for x in names:
        for y in names if deep else r.sample(names, 8):
            lists.append(x + "," + y)
    calls = [dict(op="types", l=[x], lay=k % 2) for k, x in enumerate(dict.fromkeys(lists))]
    pool = names * 2 + near
    for i in range(6000 if deep else 900):
        n = r.randrange(1, 4)
        calls.append(dict(op="types", lay=i % 2, l=[",".join(r.choice(pool) for _ in range(r.randrange(1, 8))) for _ in range(n)]))
    for i in range(60):
        e = [r.choice(["", r.choice(pool)]) for _ in range(r.randrange(1, 5))]
        calls.append(dict(op="types", lay=i % 2, l=[",".join(e), r.choice(names)]))
    for i in range(10):
        calls.append(dict(op="types", lay=1, l=[",".join(r.choice(pool) for _ in range(200))]))
    calls.append(dict(op="types", l=[]))
    rep.sample(calls[50])
    rep.sample(calls[-20])
    done = call([exes[0] + (c,) for c in calls] + [exes[1 + i % 2] + (c,) for i, c in enumerate(calls) if i % 3 == 0 or deep])
    judge_units(rep, done, "digest type lists")
    return rep.finish(assumptions=SURROUNDINGS + ["lists with an empty element: either taken or refused, no promise"])


LETTERS = "KMGTPEZY"


def big_sizes(r, n):
    """Whole numbers around everything that matters."""
    out = set()
    for base in (1000, 1024):
        for k in range(0, 9):
            u = base ** k
            for top in (2 ** 63, 2 ** 64):
                q = top // u
                out |= {(q + d, base, k) for d in (-2, -1, 0, 1, 2) if q + d >= 0}
            for v in (0, 1, 2, 9, 10, 15, 16, 17, 99, 100, 999, 1000, 1023, 1024, 1025, 4095, 4096, 65535, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 10 ** 19, 10 ** 20):
                out.add((v, base, k))
            for i in range(n):
                out.add((r.randrange(0, 2 ** r.randrange(1, 66)), base, k))
    return sorted(out)


def size_text(v, base, k, r):
    if k == 0:
        return str(v) + r.choice(["", "B", " B"]) if base == 1000 else str(v)
    l = LETTERS[k - 1]
    l = l if r.random() < .6 else l.lower()
    sp = " " if r.random() < .5 else ""
    return str(v) + sp + l + ("B" if base == 1000 else r.choice(["", "iB"]))


def T05(rep, tier):
    deep = tier == "thorough"
    r = rng(505)
    exes = units([SYS, ASAN, ("fb", "ubsan", True)] if "ubsan" in build.SAN else [SYS, ASAN])
    ws = [w[0] for w in words("WordSize")]
    if not deep:
        r.shuffle(ws)
        short = [w for w in ws if len(w) <= 4]
        ws = short + ws[:9000]
    texts = list(dict.fromkeys(ws))
    for v, base, k in big_sizes(r, 60 if deep else 12):
        texts.append(size_text(v, base, k, r))
    # every unit in every spelling, with numbers that fit
    for i, l in enumerate(LETTERS):
        for c in (l, l.lower()):
            for sp in ("", " "):
                for suf in ("", "B", "iB", "b", "i", "ib", "IB", "iBx", "Bx", "x"):
                    for num in ("0", "1", "3", "15", "16", "17", "1.5", "0.1", "2.9", "15.99", "007"):
                        if deep or r.random() < .35 or suf in ("", "B", "iB") and num in ("1", "15", "16"):
                            texts.append(num + sp + c + suf)
    for c in map(chr, list(range(33, 127)) + [128, 176, 255]):
        texts += ["5" + c, "5 " + c, "5" + c + "B", "12 " + c + "iB", c + "5", "5.5" + c, "5K" + c, "5Ki" + c, "5 KB" + c]
    texts += ["18446744073709551615", "18446744073709551616", "18446744073709551614", "18446744073709551617", "18446744073709551625", "99999999999999999999",
              "184467440737095516150", "36893488147419103232", "18446744073709551615B", "000000000000000000000000000001", "00018446744073709551615",
              "9223372036854775807", "9223372036854775808", "1" + "0" * 40, "9" * 100, "0" * 200 + "7", "0.0", "0.9", "0.9K", "1.K", ".5K", "1..5K", "1.5.5K", "-1", "+1", " 1", "1 ",
              "1  K", "1\tK", "K", "", " ", "1K1", "1 1", "0x10", "1e3", "1,5K", "18014398509481983K", "18014398509481984K", "15.9E", "15.5 EiB", "16E", "15E", "18.4EB", "18EB", "19EB"]
    for i in range(4000 if deep else 600):
        ip = str(r.randrange(0, 10 ** r.randrange(1, 21)))
        fp = "".join(r.choice("0123456789") for _ in range(r.randrange(1, 12)))
        texts.append(ip + "." + fp + r.choice(["", " "]) + r.choice(["", r.choice(LETTERS + LETTERS.lower())]) + r.choice(["", "B", "iB"]))
    texts = list(dict.fromkeys(texts))
    calls = [dict(op="conv", s=t.encode("latin-1"), lay=k % 2) for k, t in enumerate(texts)]
    for c in calls:
        c["s"] = c["s"].decode("latin-1")
    for t in ("5", "1K", ""):
        calls += [dict(op="conv", s=t, null=1), dict(op="conv", s=t, null=2)]
    rep.sample(calls[700])
    rep.sample(calls[-100])
    jobs = [exes[0] + (c,) for c in calls] + [exes[1 + i % (len(exes) - 1)] + (c,) for i, c in enumerate(calls) if i % 4 == 0 or deep]
    judge_units(rep, call(jobs), "size strings")
    calls = []
    pick = texts if deep else r.sample(texts, 1500) + texts[-640:]
    for t in pick:
        c = dict(op="bufsize", s=t)
        if r.random() < .3:
            c["s2"] = r.choice(texts)
            if not c["s2"]:
                del c["s2"]
        calls.append(c)
    for v, base, k in big_sizes(r, 2):
        calls.append(dict(op="bufsize", s=size_text(v, base, k, r)))
    jobs = [exes[i % 2] + (c,) for i, c in enumerate(calls)]
    judge_units(rep, call(jobs), "process buffer sizes")
    return rep.finish(assumptions=["the text is read up to its terminator; a length other than that of the text is not tried"])


def T06(rep, tier):
    deep = tier == "thorough"
    r = rng(606)
    exes = units([SYS, ASAN, EVP])
    sizes = {0, 1, 9, 10, 99, 100, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 1, 2 ** 64 - 2, 10 ** 19}
    for base in (1000, 1024):
        for k in range(1, 7):
            u = base ** k
            for m in (1, 2, 5, 9, 10, 11, 12, 15, 17, 18, 99, 100, 101, 500, 512, 900, 999, 1000, 1023):
                for t in range(10) if m < 12 else (0, 5):
                    x = u * m + u * t // 10
                    sizes |= {x + d for d in (-1, 0, 1)}
                    if t:
                        sizes |= {x - u // 20, x + u // 20}
            sizes |= {u * base - u // 20, u * base - u // 21, u * base - 1, u * base - u // 2, 10 * u - u // 20 - 1, 10 * u - u // 20, 10 * u - 1}
    for i in range(8000 if deep else 1200):
        sizes.add(r.randrange(0, 2 ** r.randrange(1, 65)))
    sizes = sorted(s for s in sizes if 0 <= s < 2 ** 64)
    calls = []
    for s in sizes:
        for u in (1000, 1024):
            calls.append(dict(op="create", v=s, u=u, len=9 if r.random() < .7 else r.choice([10, 12, 16, 64, 200])))
    for s in r.sample(sizes, 60) + [0, 1023, 1024, 2 ** 64 - 1]:
        for n in range(0, 13):
            calls.append(dict(op="create", v=s, u=r.choice([1000, 1024]), len=n))
    rep.sample(calls[100])
    rep.sample(calls[-1])
    jobs = [exes[0] + (c,) for c in calls] + [exes[1 + i % 2] + (c,) for i, c in enumerate(calls) if i % 4 == 0 or deep]
    judge_units(rep, call(jobs), "sizes formatted")
    return rep.finish(assumptions=["units asked for: 1000 and 1024; the decimal point is that of the locale, here a full stop"])


def T07(rep, tier):
    deep = tier == "thorough"
    r = rng(707)
    exes = units([SYS, ASAN, EVP])
    calls = []
    for n in list(range(0, 80)) + [127, 128, 129, 200, 256, 1000]:
        for t in range(3 if deep else 1):
            d = bytes(r.randrange(256) for _ in range(n))
            for hs in sorted({0, 1, 2, n, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 2, 2 * n + 50} if n % 8 == 0 or n < 6 or deep else {2 * n, 2 * n + 1, 2 * n + 7}):
                if hs >= 0:
                    calls.append(dict(op="hex", d=d, hs=hs, null=0, lay=len(calls) % 2))
    # every value of a byte, at every position of a digest
    for n in (16, 20, 28, 32, 64):
        for k in range(0, 256):
            if deep or n == 16 or k % 5 == n % 5:
                calls.append(dict(op="hex", d=bytes((k + i * 37) % 256 for i in range(n)), hs=2 * n + 1, null=0, lay=k % 2))
        for i in range(20):
            d = bytes(r.randrange(256) for _ in range(n))
            for dh in (-1, 0, 1, 2):
                calls.append(dict(op="hex", d=d, hs=2 * n + 1 + dh, null=0, lay=i % 2))
        for nul in (1, 2):
            for hs in (0, 1, 2 * n + 1, 1000):
                calls.append(dict(op="hex", d=bytes(n), hs=hs, null=nul, lay=0))
    top = 2 ** 63
    for ds, hs in ((top, top + 5), (top - 1, 100), (top - 1, 33), (top, 33), (2 ** 64 - 1, 2 ** 64 - 1), (2 ** 63 + 16, 33), (16, top), (16, 2 ** 64 - 1), (2 ** 64 - 1, 33), (2 ** 64 - 1, 0),
                   (2 ** 62, 33), (2 ** 62, 1), (2 ** 62 + 16, 33), (2 ** 32 + 16, 33), (2 ** 63 - 1, 0), (2 ** 63 - 1, 1)):
        calls.append(dict(op="hex", d=bytes(range(16)), ds=ds, hs=hs, null=0, lay=0))
    rep.sample({k: v.hex() if isinstance(v, bytes) else v for k, v in calls[100].items()})
    jobs = [exes[0] + (c,) for c in calls] + [exes[1 + i % 2] + (c,) for i, c in enumerate(calls)]
    judge_units(rep, call(jobs), "digests as text")
    return rep.finish(assumptions=["buffers lie against inaccessible pages"])


def T08(rep, tier):
    deep = tier == "thorough"
    r = rng(808)
    own, sysg = units([OWN])[0], units([SYS])[0]
    asan = units([ASAN])[0]
    argvs = words("WordArgv7" if deep else "WordArgv")
    if not deep:
        short = [a for a in argvs if sum(map(len, a)) + len(a) <= 5]
        argvs = short + r.sample(argvs, min(len(argvs), 6000))
    calls = [dict(op="getopt", o="ab:", a=a) for a in argvs]
    # the options of the tool and other option strings
    for i in range(20000 if deep else 3000):
        o = r.choice(["d:hp:vV", "d:hp:vV", "ab:", "a:b:c", "xyz", "a:", ":ab:", "b:a", "ab:c:d"])
        al = [c for c in o if c != ":"] + ["q", "-", "?", "=", "1", "\u00e9"]
        a = []
        for k in range(r.randrange(0, 7)):
            m = r.randrange(10)
            a.append("-" if m == 0 else "--" if m == 1 else "" if m == 2 else "f%d" % k if m == 3 else "--" + r.choice(al) * r.randrange(1, 3)
                     if m == 4 else "-" + "".join(r.choice(al[:-4] if r.random() < .8 else al) for _ in range(r.randrange(1, 5))))
        calls.append(dict(op="getopt", o=o, a=a))
    seen, u = set(), []
    for c in calls:
        if len(c["a"]) > 30:
            continue
        k = json.dumps(c)
        if k not in seen:
            seen.add(k)
            u.append(c)
    rep.sample(u[300])
    rep.sample(u[-1])
    done = call([own + (c,) for c in u] + [asan + (c,) for i, c in enumerate(u) if i % 4 == 0 or deep])
    judge_units(rep, done, "arguments, built-in parser")
    done = call([sysg + (c,) for i, c in enumerate(u) if i % 3 == 0 and ":" != c["o"][0]])
    judge_units(rep, done, "arguments, parser of the system")
    # and through the tool
    te = tools([OWN, ("fb", "", True)])
    runs = []
    for i in range(1200 if deep else 250):
        al = ["-v", "-d", "-dsha1", "-p", "-p64", "-vd", "sha256", "-vvp", "100", "f", "-", "--", "-x", "-vx", "-h", "-V", "-vh", "-:", "-d:", "--foo", "-vdsha512", "-vp7"]
        runs.append(run_([r.choice(al) for _ in range(r.randrange(0, 6))], ("gen", 1, 20)))
    judge(rep, execute(jobs_of(runs, te)), ["command", "exact"], "command lines")
    return rep.finish(assumptions=["POSIXLY_CORRECT is set, so that the parser of the system does not permute arguments"])


def T09(rep, tier):
    deep = tier == "thorough"
    r = rng(909)
    exes = tools([SYS, OWN, EVP, ASAN])
    opts = [["-h"], ["-V"], ["-v"], ["-x"], ["-d", "sha1"], ["-dSHA256"], ["-d", "zz"], ["-d"], ["-p", "64"], ["-p1"], ["-p", "5x"], ["-p"],
            ["-p", "9999999999999999999"], ["-p", "99999999999999999999"], ["-p", "9E"], ["-p", "1 KiB"], ["-p", "0"], ["-p", "-1"], ["-p", ""],
            ["-d", ""], ["-vV"], ["-vh"], ["-vd", "sha224"], ["-hx"], ["-xh"], ["-vvvp", "3"], ["f"], ["-"], ["--"], ["g"]]
    runs = []
    inp = ("gen", 1, 50)
    for a in opts:
        runs += [run_(a, inp), run_(a + ["f"], inp)]
        for b in opts:
            runs += [run_(a + b + ["f"], inp), run_(a + b, inp)]
            if deep:
                for c in opts:
                    runs.append(run_(a + b + c + ["f"], inp))
    runs.append(run_([], inp))
    # the last value given counts, in any order
    bufs = ["64", "1", "50", "1K", "5x", "0", "9999999999999999999", "99999999999999999999", "7 B", "0.5K", "1.5", "8E", "7.9E", "9223372036854775807B", "1 YB", "-5", "1kib", "1KiBx"]
    lists = ["md5", "sha1,sha512", "zz", "SHA-224", "sha_256,sha256", "md5,md5,md5", "Sha1", "sha1,zz"]
    for i in range(4000 if deep else 700):
        a = []
        for k in range(r.randrange(1, 6)):
            m = r.randrange(5)
            a += [["-p", r.choice(bufs)], ["-d", r.choice(lists)], ["-v"], ["-p" + r.choice(bufs)], ["-d" + r.choice(lists)]][m]
        a += r.choice([["f"], ["f"], ["f"], ["f", "-h"], ["f", "g"], ["--", "-f"], ["-"], []])
        runs.append(run_(a, ("gen", i % 3, r.choice([0, 1, 49, 50, 51, 200])), **(dict(reads="10,1") if i % 5 == 0 else {})))
    # buffer sizes: every spelling and the bounds
    for b in bufs + [size_text(v, base, k, r) for v, base, k in r.sample(big_sizes(r, 0), 60)]:
        runs.append(run_(["-p", b, "-d", "sha1", "f"], ("gen", 1, 70)))
        runs.append(run_(["-d", "sha1", "-p", b, "f"], ("gen", 1, 0)))
    # buffers of every size, each with contents below, at and above it
    for k in sorted({2 ** i + d for i in range(0, 27 if deep else 25) for d in (-1, 0, 1)} | {1000 ** i * j for i in (1, 2) for j in (1, 3, 33)}):
        if k < 1:
            continue
        t = "%dK" % (k // 1024) if k % 1024 == 0 and r.random() < 0.6 else "%d" % k
        for n in r.sample([k - 1, k, k + 1, 2 * k, 3 * k + 7, min(k, 12345)], 2) + ([2 * k + 1] if k > 16384 else []):
            runs.append(run_(r.choice([["-p", t, "-d", "sha1", "f"], ["-d", "md5", "-p" + t, "f"]]), ("rec", k % 5, n)))
    # names of the source
    for n in ("f", "-", "a b", "x" * 200, "--", "-x", "\u00e9", "a'b", "../q"):
        runs += [run_(["--", n], ("gen", 1, 5)), run_(["-v", "--", n], ("gen", 1, 5)), run_(["-d", "sha1", n] if n[0] != "-" else ["--", n, n], ("gen", 1, 5))]
    rep.sample(run_line(runs[500]))
    done = execute(jobs_of(runs, exes, r) if not deep else jobs_of(runs, exes))
    judge(rep, done, ASP["T09"], "command lines")
    # nothing is read when nothing is asked for, whatever fails
    bases = [run_(a, inp) for a in (["-h"], ["-V"], ["-x"], ["-p"], [], ["-p", "5x", "f"])]
    jobs = enumerate_faults(exes[:2], bases, 1 | 16 | 32)
    judge(rep, execute(jobs), ["command"] if False else ["exact", "released"], "command lines with a failing operation")
    return rep.finish(assumptions=SURROUNDINGS)


def limited(exes, bases, points, r):
    """The runs with room for so many bytes on the output. points(run, text) gives the limits."""
    probe = execute([(lab, exe, b) for b in bases for lab, exe in exes])
    by = dict(exes)
    out = []
    for lab, b, res in probe:
        for n in sorted(set(points(b, res["out"]))):
            out.append((lab, by[lab], run_(b["args"], b["inp"], **dict(b["kw"], space=n))))
    return probe, out


def T10(rep, tier):
    deep = tier == "thorough"
    r = rng(110)
    exes = tools([SYS, OWN, EVP, LOW, ASAN])
    G.model("SumModel", "SumModel")
    asp = ASP["T10"]
    # runs of the model: the line that finds no room, cut at its beginning, its end and between
    bases, at = [], {}
    for s in printing("SumEmit"):
        b = from_script(dict(s, fail="", int=""), r.choice((1, 61, 64)), r.randrange(3), "sha1")
        bases.append(b)
        at[id(b)] = s["faultat"]
    rep.sample(dict(run=run_line(bases[0]), lines_with_room=at[id(bases[0])]))

    def line(b, text):
        ix = [m.start() for m in re.finditer(r"\w+ hash calculated", text)] + [len(text)]
        k = at[id(b)]
        if k + 1 >= len(ix):
            return []
        return [ix[k], ix[k] + 1, r.randrange(ix[k], ix[k + 1]), ix[k + 1] - 2, ix[k + 1] - 1]
    done, jobs = limited(exes[:1] if not deep else exes, bases, line, r)
    judge(rep, done + execute(jobs), asp, "runs of the model whose output finds no room")
    # every limit
    bases = [run_(["-d", ",".join(TYPES), "f"], ("gen", 1, 70)), run_(["f"], ("gen", 2, 5)), run_(["-v", "-d", "sha256", "f"], ("gen", 2, 0)),
             run_(["-d", "sha512,sha224", "-p", "7", "f"], ("gen", 3, 20), reads="3,1"), run_(["-p", "5x", "f"], ("gen", 2, 3)),
             run_(["-p", "99999999999999999999", "f"], ("gen", 2, 3)), run_(["-p", "9223372036854775808", "f"], ("gen", 2, 3)),
             run_(["f"], ("gen", 2, 5), reads="2,e"), run_(["f"], ("gen", 2, 5), fail="close"), run_(["f"], ("gen", 2, 5), fail="open"),
             run_(["-h"], ("gen", 2, 5)), run_(["-V"], ("gen", 2, 5)), run_(["-x"], ("gen", 2, 5)), run_([], ("gen", 2, 5))]
    for k, b in enumerate(bases):
        es = exes if k < 2 or deep else [exes[k % len(exes)]]
        done, jobs = limited(es, [b], lambda b, t: range(0, len(t) + 3), r)
        if not deep and len(es) > 1:
            jobs = [j for j in jobs if r.random() < 0.5]
        judge(rep, done + execute(jobs), asp, "every limit of the output: hmacsum %s" % " ".join(b["args"]))
    # no output at all, random runs
    runs = []
    for i in range(1500 if deep else 300):
        n = r.randrange(0, 300)
        kw = dict(closed=1) if r.random() < 0.3 else dict(space=r.choice([r.randrange(0, 500), r.randrange(0, 60), r.randrange(300, 900)]))
        if r.random() < 0.3:
            kw["reads"] = ",".join(str(r.choice(["e", "z", "f", 1, 2, 64])) for _ in range(r.randrange(1, 5)))
        if r.random() < 0.3:
            kw["kinds"], kw["faultat"] = 1 | 2 | 8, r.randrange(1, 50)
        if r.random() < 0.1:
            kw["fail"] = r.choice(["close", "size", "open"])
        runs.append(run_(["-d", r.choice(perms(r, 3)), "-p", str(r.choice([1, 7, 64, 100, 300, 32768])), "f"], ("gen", i % 3, n), **kw))
    judge(rep, execute(jobs_of(runs, exes, r)), asp, "no output, little output and other failures")
    return rep.finish(level="fault_enumeration", assumptions=SURROUNDINGS + [
        "the output ends at a file size limit (a write is cut short, later ones fail) or is closed"])
