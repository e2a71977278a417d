#!/usr/bin/env python3
"""plant.py DIR: takes over a planted bug prepared in DIR (patch.diff, demo.py, meta.json,
other files) into seeded/<name of DIR>, if it applies, builds, passes the tests and is
shown by its demonstration. Everything happens in a copy bound over /repo in a mount
namespace of its own. plant.py --check ID...: verifies again. plant.py --run ID [PID [tier]]:
runs a check on a tree with the bug."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(V, "tools/kit")
SHIMS = ["vp_tool.c", "vp_tool.h", "vp_wrap.c", "vp_wrap.h", "libcerror.c", "config_base.h", "drv_tool.c", "drv_units.c", "include"]


def isolated(copy, cmd, timeout=900, env=None):
    return subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && %s" % (copy, cmd)], timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)


def fresh():
    t = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo", t], check=True)
    c = os.path.join(t, "repo")
    subprocess.run(["git", "-C", c, "checkout", "-q", "-f", "HEAD", "--", "."], check=True)
    return t, c


def verify(d):
    t, c = fresh()
    demo = os.path.join(t, "demo")
    shutil.copytree(d, demo)
    for x in ("patch.diff", "meta.json"):
        os.unlink(os.path.join(demo, x))
    try:
        r = isolated(c, "bash /opt/vp/build.sh >/dev/null 2>&1; cd /repo && timeout 300 bash %s/demo.sh" % demo)
        if r.returncode != 0:
            return "demo fails on the unchanged tree: " + r.stdout.decode(errors="replace")[-800:]
        r = subprocess.run(["git", "-C", c, "apply", os.path.join(os.path.abspath(d), "patch.diff")], stderr=subprocess.PIPE)
        if r.returncode:
            return "does not apply: " + r.stderr.decode()
        r = isolated(c, "bash /opt/vp/test.sh /tmp/plant-out.json >/dev/null 2>&1; grep -c PASS /repo/_build/results.lines")
        if r.stdout.decode().strip() != "1":
            return "tests fail: " + r.stdout.decode()
        r = isolated(c, "cd /repo && timeout 300 bash %s/demo.sh" % demo)
        if r.returncode == 0:
            return "demo passes with the change"
        print("  ", r.stdout.decode(errors="replace").strip().split("\n")[-1][:150])
        return None
    finally:
        shutil.rmtree(t)


def main():
    if sys.argv[1] == "--check":
        for i in sys.argv[2:]:
            print(i, verify(os.path.join(V, "seeded", i)) or "ok", flush=True)
        return
    if sys.argv[1] == "--run":
        i = sys.argv[2]
        d = os.path.join(V, "seeded", i)
        pid = sys.argv[3] if len(sys.argv) > 3 else json.load(open(os.path.join(d, "meta.json")))["property"]
        tier = sys.argv[4] if len(sys.argv) > 4 else "quick"
        t, c = fresh()
        try:
            subprocess.run(["git", "-C", c, "apply", os.path.join(d, "patch.diff")], check=True)
            # the verification tree is copied so that evidence is not touched
            subprocess.run(["cp", "-a", V, t], check=True)
            r = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && cd %s/verif && python3 check.py %s %s" % (c, t, pid, tier)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1800)
            o = r.stdout.decode(errors="replace").strip().split("\n")
            v = [l for l in o if "VIOLATION" in l]
            print("%s %s: exit %d, %d VIOLATION lines; %s" % (i, pid, r.returncode, len(v), (o[0] if r.returncode == 1 else o[-1])[:230]), flush=True)
        finally:
            shutil.rmtree(t)
        return
    src = os.path.abspath(sys.argv[1])
    name = os.path.basename(src)
    dst = os.path.join(V, "seeded", name)
    shutil.rmtree(dst, True)
    shutil.copytree(src, dst)
    k = os.path.join(dst, "kit")
    os.makedirs(k, exist_ok=True)
    shutil.copy(os.path.join(KIT, "kit.py"), k)
    for s in SHIMS:
        p = os.path.join(V, "shim", s)
        (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, os.path.join(k, s))
    with open(os.path.join(dst, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    r = verify(dst)
    print(name, r or "ok", flush=True)
    if r:
        shutil.move(dst, src + ".rejected") if not os.path.exists(src + ".rejected") else shutil.rmtree(dst)
        sys.exit(1)


main()
