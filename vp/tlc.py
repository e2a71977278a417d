"""Runs TLC."""
import os, re, shutil
from .common import *

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
_n = [0]


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.bad = re.findall(r'(?s)<<\s*"BAD",\s*(\d+),\s*(.*?)>>\s*\n', out)

    def clean(self):
        return self.rc == 0 and "No error has been found" in self.out


def tlc(module, cfg=None, env=None, workers=1, timeout=800, args=(), heap="2g"):
    """module: path of the .tla file. Everything TLC writes goes to scratch."""
    _n[0] += 1
    d = sub("tlc%d" % _n[0])
    cfg = cfg or module[:-4] + ".cfg"
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d,
           "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC", "-metadir", d, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", cfg] + list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = run(cmd, timeout=timeout, env=e, cwd=os.path.dirname(module))
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return TlcResult(r.returncode, r.stdout.decode(errors="replace") + r.stderr.decode(errors="replace"))
