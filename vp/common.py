"""Paths, scratch space and process helpers shared by the checks."""
import os, subprocess, sys, tempfile, shutil, atexit, json, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SHIM = os.path.join(VERIF, "shim")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
JOBS = 8

_scratch = None


class Broken(Exception):
    """The machinery could not decide: neither held nor violated."""


class Enough:
    """Counts what the code under test did that ends a process or never answers. When
    that is enough, no more of it is run: what was seen is judged and reported."""
    weight, limit = 0, 12

    @classmethod
    def add(cls, n=1):
        cls.weight += n

    @classmethod
    def reached(cls):
        return cls.weight >= cls.limit


def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="w", dir=base)
        if not os.environ.get("VP_KEEP"):
            atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def sub(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


def run(cmd, timeout=600, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.PIPE)
    if "input" not in kw:
        kw.setdefault("stdin", subprocess.DEVNULL)
    return subprocess.run(cmd, timeout=timeout, **kw)


def pmap(f, items, jobs=JOBS):
    items = list(items)
    if not items:
        return []
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        return list(ex.map(f, items))


def log(*a):
    print(*a, flush=True)
