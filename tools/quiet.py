#!/usr/bin/env python3
"""quiet.py [NAME..] [-- PID..]: applies each behaviour-preserving edit of tools/quiet/ to a
scratch copy of /repo and runs the checks on it: every one has to stay quiet."""
import glob, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("VP_REPO", "/repo")
a = sys.argv[1:]
pids = a[a.index("--") + 1:] if "--" in a else None
names = a[:a.index("--")] if "--" in a else a
names = names or sorted(os.path.basename(p)[:-5] for p in glob.glob(V + "/tools/quiet/*.diff"))
LIB = "D01 D02 D03 E01 C01 C02 C03 C04 C05 C06 C07 P01 P02 T01 T02".split()
TOOL = ["T%02d" % i for i in range(1, 11)]
bad = 0
for n in names:
    t = tempfile.mkdtemp(prefix="quiet-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", BASE, t + "/repo"], check=True)
        subprocess.run(["cp", "-a", V, t + "/verif"], check=True)
        subprocess.run(["git", "-C", t + "/repo", "apply", V + "/tools/quiet/%s.diff" % n], check=True)
        want = pids or (TOOL if n.startswith("tool") else ["P01", "P02", "P03", "P04"] if n.startswith("python") else LIB)
        for p in want:
            t0 = time.time()
            r = subprocess.run(["python3", "check.py", p, "quick"], cwd=t + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, VP_REPO=t + "/repo", VERIF_SEED="1", VERIF_TIER="quick"))
            ok = r.returncode == 0 and b"VIOLATION" not in r.stdout
            bad += not ok
            print("%-20s %s %s %.0fs %s" % (n, p, "quiet" if ok else "ALARM rc=%d" % r.returncode, time.time() - t0,
                                            "" if ok else r.stdout.decode(errors="replace")[-700:]), flush=True)
    finally:
        shutil.rmtree(t, True)
sys.exit(1 if bad else 0)
