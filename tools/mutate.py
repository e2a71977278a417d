#!/usr/bin/env python3
"""mutate.py N SEED [FILE-PATTERN]: changes one token of one line of /repo's sources at random (in a scratch
copy), keeps what compiles, and runs the checks that concern the file until one reports it.
Survivors are printed: either they change nothing, or a check is missing."""
import glob, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, S = int(sys.argv[1]), int(sys.argv[2])
PAT = sys.argv[3] if len(sys.argv) > 3 else ""
r = random.Random(S)
LIB = "C07 C01 D02 C05 D01 D03 E01 C02 C06 C04 C03 D04".split()
TOOL = {"mount_handle": [], "digest_hash": ["T07", "T01", "T02"], "hmac_handle": ["T01", "T02", "T05", "T04", "T03", "T09"],
        "hmacsum": ["T09", "T01", "T02", "T03", "T08"], "hmactools_getopt": ["T08", "T09"], "byte_size": ["T05", "T06"],
        "hmacinput": ["T04", "T05", "T09"], "hmactools_": ["T09", "T02", "T01", "T03"]}
PY = "P02 P01 P03 P04".split()


def checks(f):
    if f.startswith("libhmac/"):
        return LIB
    if f.startswith("pyhmac/"):
        return PY
    for k, v in TOOL.items():
        if k in os.path.basename(f):
            return v + [x for x in ["T%02d" % i for i in range(1, 11)] if x not in v]
    return ["T%02d" % i for i in range(1, 11)]


REL = [("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), (" < ", " <= "), (" > ", " >= "), ("&&", "||"), ("||", "&&"), ("+=", "-="), (" + ", " - "),
       (" - ", " + "), ("<<=", ">>="), ("|=", "&="), (" & ", " | "), (" ^ ", " | ")]


def mutants(line):
    out = []
    for a, b in REL:
        i = line.find(a)
        if i >= 0 and not (a in ("<=", ">=") and line[i - 1:i] in "<>"):
            out.append(line.replace(a, b, 1))
    for m in re.finditer(r"(?<![\w.%\"])(\d+|0x[0-9a-fA-F]+)\b", line):
        v = int(m.group(1), 0)
        for w in (v + 1, v - 1):
            if w >= 0:
                out.append(line[:m.start()] + (hex(w) if m.group(1).startswith("0x") else str(w)) + line[m.end():])
    if re.match(r"\t+[\w\->\[\]\. \*\(\)]+ [|+&^-]?= .*;\s*$", line) or re.match(r"\t+(goto|continue|break)\b.*;\s*$", line):
        out.append("\t;\n")
    if re.match(r"\t+return\( .* \);", line):
        out += [re.sub(r"return\( .* \)", "return( %s )" % x, line) for x in ("1", "-1", "0") if "( %s )" % x not in line]
    return out


def sites():
    fs = [f for d in ("libhmac", "hmactools", "pyhmac") for f in sorted(glob.glob("/repo/%s/*.c" % d))]
    res = []
    for f in fs:
        if PAT and not re.search(PAT, f):
            continue
        depth = 0
        incomment = False
        skip = []
        for n, l in enumerate(open(f).readlines()):
            if "/*" in l:
                incomment = True
            if incomment:
                incomment = "*/" not in l
                continue
            if l.startswith("#"):
                w = l[1:].strip()
                if w.startswith("if"):
                    skip.append("WINAPI" in w or "WIDE" in w or "WINCRYPT" in w or "DEBUG" in w)
                elif w.startswith("el") and skip:
                    skip[-1] = False if w.startswith("else") else ("WINAPI" in w or "WINCRYPT" in w)
                elif w.startswith("endif") and skip:
                    skip.pop()
                continue
            if any(skip) or not l.startswith("\t") or '"' in l or "LIBCERROR" in l:
                continue
            for m in mutants(l):
                res.append((f[6:], n, l, m))
    return res


def main():
    ss = sites()
    print(len(ss), "mutants possible", flush=True)
    done = 0
    # a file first, then a line of it: the large tables do not dominate
    by = {}
    for s in ss:
        by.setdefault(s[0], {}).setdefault(s[1], []).append(s)
    while done < N:
        f = r.choice(sorted(by))
        s = r.choice(by[f][r.choice(sorted(by[f]))])
        t = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
        try:
            c = t + "/repo"
            subprocess.run(["cp", "-a", "/repo", c], check=True)
            p = os.path.join(c, s[0])
            ls = open(p).readlines()
            assert ls[s[1]] == s[2]
            ls[s[1]] = s[3]
            open(p, "w").writelines(ls)
            subprocess.run(["cp", "-a", V, t], check=True)
            done += 1
            desc = "%s:%d  %s  ->  %s" % (s[0], s[1] + 1, s[2].strip(), s[3].strip())
            hit, t0 = None, time.time()
            for pid in checks(s[0]):
                x = subprocess.run(["python3", "check.py", pid, "quick"], cwd=t + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env=dict(os.environ, VP_REPO=c, VERIF_SEED="1", VERIF_TIER="quick"))
                if x.returncode == 1 and b"VIOLATION" in x.stdout:
                    hit = pid
                    break
                if x.returncode != 0:
                    o = x.stdout.decode(errors="replace")
                    hit = ("does not build" if "error:" in o and "undefined" not in o or "warning: " in o else "NO ANSWER " + pid + " " + o[-300:])
                    break
            print("%-9s %4.0fs %s" % (hit or "SURVIVED", time.time() - t0, desc), flush=True)
        finally:
            shutil.rmtree(t, True)


main()
