#!/usr/bin/env python3
"""Tests of the machinery itself; not a check of /repo.
  selftest.py vectors   the specification of the digests against the examples of the RFCs and FIPS 180-4
  selftest.py corrupt   recorded traces of the real code with one field changed must be rejected
  selftest.py fixes     with each repair of /repo taken back (in a copy), its check must raise a violation
  selftest.py cover     TLC's coverage of the models: actions that were never taken"""
import copy, json, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vp import lib as L, tlc as T, build, p_py, tool as TO, report
from vp.common import *

M = b"abc"
M2 = b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"
M3 = b"abcdefghbcdefghicdefghijdefghijkefghijklfghijklmghijklmnhijklmnoijklmnopjklmnopqklmnopqrlmnopqrsmnopqrstnopqrstu"
VEC = [
    # RFC 1321, A.5
    ("md5", b"", "d41d8cd98f00b204e9800998ecf8427e"), ("md5", b"a", "0cc175b9c0f1b6a831c399e269772661"),
    ("md5", M, "900150983cd24fb0d6963f7d28e17f72"), ("md5", b"message digest", "f96b697d7cb7938d525a2f31aaf161d0"),
    ("md5", b"abcdefghijklmnopqrstuvwxyz", "c3fcd3d76192e4007dfb496cca67e13b"),
    ("md5", b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789", "d174ab98d277d9f5a5611c2c9f419d9f"),
    ("md5", b"1234567890" * 8, "57edf4a22be3c955ac49da2e2107b67a"),
    # FIPS 180-4 examples
    ("sha1", M, "a9993e364706816aba3e25717850c26c9cd0d89d"), ("sha1", M2, "84983e441c3bd26ebaae4aa1f95129e5e54670f1"),
    ("sha224", M, "23097d223405d8228642a477bda255b32aadbce4bda0b3f7e36c9da7"),
    ("sha224", M2, "75388b16512776cc5dba5da1fd890150b0c6455cb4f58b1952522525"),
    ("sha256", M, "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
    ("sha256", M2, "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1"),
    ("sha512", M, "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"),
    ("sha512", M3, "8e959b75dae313da8cf4f72814fc143f8f7779c6eb9f7fa17299aeadb6889018501d289e4900f7e4331b99dec4b5433ac7d329eeb6dd26545e96e55b874be909"),
]
HVEC = [
    # RFC 2202
    ("md5", b"\x0b" * 16, b"Hi There", "9294727a3638bb1c13f48ef8158bfc9d"), ("md5", b"Jefe", b"what do ya want for nothing?", "750c783e6ab0b503eaa86e310a5db738"),
    ("md5", b"\xaa" * 80, b"Test Using Larger Than Block-Size Key - Hash Key First", "6b1ab7fe4bd7bf8f0b62e6ce61b9d0cd"),
    ("sha1", b"\x0b" * 20, b"Hi There", "b617318655057264e28bc0b6fb378c8ef146be00"), ("sha1", b"Jefe", b"what do ya want for nothing?", "effcdf6ae5eb2fa2d27416d5f184df9c259a7c79"),
    ("sha1", b"\xaa" * 80, b"Test Using Larger Than Block-Size Key - Hash Key First", "aa4ae5e15272d00e95705637ce8a3b55ed402112"),
    # RFC 4231
    ("sha224", b"\x0b" * 20, b"Hi There", "896fb1128abbdf196832107cd49df33f47b4b1169912ba4f53684b22"),
    ("sha256", b"\x0b" * 20, b"Hi There", "b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7"),
    ("sha512", b"\x0b" * 20, b"Hi There", "87aa7cdea5ef619d4ff0b4241a1d6cb02379f4e2ce4ec2787ad0b30545e17cdedaa833b7d6b8a702038b274eaea3f4e4be9d914eeb61f1702e696c203a126854"),
    ("sha256", b"\xaa" * 131, b"Test Using Larger Than Block-Size Key - Hash Key First", "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54"),
    ("sha512", b"\xaa" * 131, b"Test Using Larger Than Block-Size Key - Hash Key First", "80b24263c7c1a3ebb71493c1dd7be8b49b46d1f41b4aeec1121b013783f8f3526b56d037e05f2598bd0fd2215d6a1e5295e64f73f63f0aec8b915a985d786598"),
]


def event(c, out):
    return dict(c, ret=1, out=list(bytes.fromhex(out)), fired=False, crash="", live=0, errs=0)


def vectors():
    ok = 0
    tr = [[event(L.calc(a, L.lit(m)), o)] for a, m, o in VEC] + [[event(L.hmac(a, L.lit(k), L.lit(m)), o)] for a, k, m, o in HVEC]
    reset = dict(op="reset", keep=False, live=0)
    v = L.judge([("vector", [reset] + t) for t in tr], "compute", ["digest"])
    assert not v.violations, v.violations[0]
    wrong = copy.deepcopy(tr)
    for i, t in enumerate(wrong):
        t[0]["out"][i % len(t[0]["out"])] ^= 1 << i % 8
    n = 0
    for t in wrong:
        n += len(L.judge([("wrong", [reset] + t)], "compute", ["digest"]).violations)
    assert n == len(wrong), (n, len(wrong))
    print("vectors: %d published examples accepted, %d with one wrong bit rejected" % (len(tr), n))


def other(x, r):
    """A different value of the same kind."""
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + r.choice([-1, 1, 2])
    if isinstance(x, str):
        return dict(kept="null", null="kept").get(x, x + "x")
    if isinstance(x, list):
        y = list(x)
        if y and isinstance(y[0], int):
            y[r.randrange(len(y))] ^= 1 << r.randrange(7)
            return y
        return y[:-1] if y else [1]
    return x


def corrupt():
    r = random.Random(7)
    # library
    from vp import p_lib
    ts = []
    for a in L.ALGS:
        ts.append([L.init(a), L.update(a, L.gen(1, 0, 70)), L.update(a, L.null(3)), L.final(a, hs=3), L.final(a), L.free(a), L.free(a),
                   L.calc(a, L.gen(1, 0, 70)), L.hmac(a, L.gen(2, 0, 5), L.gen(1, 0, 7)), L.init(a), L.init(a), L.free(a)])
    items = p_lib.run_all(ts, [("fb", ""), ("evp2", "")])
    allasp = sorted({x for p in p_lib.ASP.values() for x in p} - {"value"})
    assert not L.judge(items, "compute", allasp).violations
    tally = {}
    for lab, t in items:
        for i, e in enumerate(t):
            if e["op"] == "reset":
                continue
            for f in [k for k in e if k not in ("op", "alg", "c", "d", "k", "hs", "e", "lay", "ref", "ctx", "outnull", "fired", "ops", "crash")]:
                if r.random() > 0.35:
                    continue
                u = copy.deepcopy(t)
                u[i][f] = other(u[i][f], r)
                if u[i][f] == t[i][f]:
                    continue
                bad = bool(L.judge([(lab, u)], "compute", allasp).violations)
                k = "lib." + e["op"] + "." + f
                w = tally.setdefault(k, [0, 0])
                w[0 if bad else 1] += 1
    # Python module
    exes = p_py.modules([("fb", "", "")])
    op, g = p_py.op, p_py.g
    hs = [[op("make", "md5"), op("update", "md5", d=g(1, 0, 5)), op("update", "md5", val="str", d=g(1, 5, 5)), op("final", "md5"), op("drop", "md5")],
          [op("raw", "md5"), op("update", "md5", d=g(1, 0, 5)), op("reinit", "md5"), op("reinit", "md5"), op("drop", "md5", pend=True)],
          [op("calc", "sha1", d=g(1, 0, 5)), op("hmac", "sha512", d=g(1, 0, 5), k=g(2, 0, 9)), op("hmac", "md5", kval="int", d=g(1, 0, 5))]]
    done = p_py.execute(p_py.spread(hs, exes, 0, True))
    asp = sorted({x for p in p_py.ASP.values() for x in p})
    for lab, h, evs in done:
        for i, e in enumerate(evs):
            if e["op"] == "reset":
                continue
            for f in ("kind", "exc", "out", "exact", "live", "errs", "refs", "unraisable", "grow"):
                if f not in e:
                    continue
                u = copy.deepcopy(evs)
                u[i][f] = other(u[i][f], r) if f not in ("live",) else u[i][f] + 1
                if f in ("unraisable", "errs", "refs", "grow"):
                    u[i][f] = 1
                if u[i][f] == e[f]:
                    continue
                rep = report.Report("SELF", "quick")
                p_py.judge(rep, [(lab, h, u)], asp, "corrupted")
                w = tally.setdefault("py." + e["op"] + "." + f, [0, 0])
                w[0 if rep.viol else 1] += 1
    # threads that share Python objects
    ge = p_py.modules([("fb", "", "")], gates=True)[0]
    hs = p_py.longest(p_py.schedules("ShareThree", "transitions"))
    r.shuffle(hs)
    done = p_py.share_run([ge + (p_py.share_job(h, L.ALGS[i % 5], r, None, p_py.SMALL),) for i, h in enumerate(hs[:40])])
    for lab, h, tr in done:
        for n in range(4):
            u = copy.deepcopy(tr)
            i = r.randrange(1, len(u))
            f = r.choice([k for k in u[i] if k not in ("e", "c", "crash")])
            if f == "out" and not u[i]["out"]:
                continue
            if n == 3:
                # the work of two calls overlaps: an entry moved before what came before it
                js = [j for j in range(2, len(u)) if u[j]["e"] == "in" and u[j - 1]["e"] in ("out", "in") and u[j - 1]["t"] != u[j]["t"] and u[j - 1]["x"] == u[j]["x"]]
                if not js:
                    continue
                i, f = js[0], "moved"
                u[i - 1], u[i] = u[i], u[i - 1]
            else:
                u[i][f] = other(u[i][f], r)
                if isinstance(u[i][f], int) and u[i][f] < 0:
                    continue
            rep = report.Report("SELF", "quick")
            try:
                p_py.share_judge(rep, [(lab, h, u)], "corrupted")
                bad = bool(rep.viol)
            except Broken:
                bad = True      # not even a trace
            w = tally.setdefault("share." + u[i]["e"] + "." + f, [0, 0])
            w[0 if bad else 1] += 1
    for k, (a, b) in sorted(tally.items()):
        print("%-28s rejected %3d  accepted %3d" % (k, a, b))
    print("corrupt: %d rejected, %d accepted" % (sum(a for a, _ in tally.values()), sum(b for _, b in tally.values())))


def fixes(only=()):
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if not m or (only and m.group(2) not in only and m.group(1) not in only):
            continue
        pid, commit, what = m.groups()
        t = tempfile.mkdtemp(prefix="fixes", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", "/repo", t], check=True)
            c = os.path.join(t, "repo")
            r = subprocess.run(["git", "-C", c, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-commit", commit], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                print(pid, commit, "cannot be taken back alone:", r.stdout.decode()[:200])
                continue
            subprocess.run(["cp", "-a", V, t], check=True)
            r = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && cd %s/verif && python3 check.py %s quick" % (c, t, pid)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1800)
            o = r.stdout.decode(errors="replace").strip().split("\n")
            print("%s %s: exit %d, %d VIOLATION lines: %s" % (pid, commit, r.returncode, sum("VIOLATION" in x for x in o), o[0][:160]), flush=True)
        finally:
            shutil.rmtree(t)


def cover():
    env = {}
    cfgs = [("CtxModel", "CtxModel"), ("Streaming", "Streaming"), ("HmacCalc", "HmacCalc"), ("SumModel", "SumModel"), ("PyModel", "PyModel")]
    for mod, cfg in cfgs:
        r = T.tlc(os.path.join(SPEC, mod + ".tla"), os.path.join(SPEC, "cfg", cfg + ".cfg"), env, 8, 600, ["-coverage", "1"], "4g")
        acts = re.findall(r"<(\w+) line (\d+)[^>]*>: (\d+):(\d+)", r.out)
        last = {}
        for n, line, a, b in acts:
            last[(n, line)] = (a, b)
        print(mod, cfg, "states", r.distinct, " ".join("%s:%s" % (k[0], v[1]) for k, v in last.items()))
        zero = [z for z in re.findall(r"\n  +(?:\|)*line (\d+), col (\d+) to line (\d+), col (\d+) of module (\w+): 0\n", r.out)]
        print("   expressions never evaluated:", sorted({"%s:%s" % (z[4], z[0]) for z in zero}))


if __name__ == "__main__":
    what = sys.argv[1] if len(sys.argv) > 1 else "vectors"
    dict(vectors=vectors, corrupt=corrupt, fixes=lambda: fixes(sys.argv[2:]), cover=cover)[what]()
