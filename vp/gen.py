"""Histories generated by TLC from the specification."""
import json, os, random, re
from .common import *
from . import tlc as T
from .lib import *

MODELS = []      # (module/cfg, distinct states, transitions) of every TLC run of this check


def model(module, cfg, env=None, workers=8, args=(), timeout=600, heap="4g"):
    """Runs TLC on a model; anything but success is a failure of the machinery (the
    models do not depend on the code)."""
    r = T.tlc(os.path.join(SPEC, module + ".tla"), os.path.join(SPEC, "cfg", cfg + ".cfg"), env, workers,
              timeout, args, heap)
    if r.rc != 0 or "Error:" in r.out:
        raise Broken("model %s/%s: %s" % (module, cfg, r.out[-2000:]))
    g = re.search(r"number of states generated: (\d+)", r.out)
    MODELS.append(dict(model=module + "/" + cfg, distinct=r.distinct,
                       generated=int(g.group(1)) if g and not r.generated else r.generated))
    return r


def _emitted(out, tag):
    for l in out.split("\n"):
        if l.startswith('"@' + tag):
            s = json.loads(l)
            yield json.loads(s[1 + len(tag):])


def _calls(h):
    r = []
    for c in h:
        e = dict(c)
        for f in ("d", "k"):
            if e[f]["k"] == "none":
                del e[f]
        e["hs"] = {-1: "M", -2: "U", -3: "S", -4: "V"}.get(e["hs"], e["hs"])
        r.append(e)
    return r


def histories(cfg, emit, args=(), workers=1, seed=None):
    a = list(args)
    if seed is not None:
        a += ["-seed", str(seed)]
    r = model("CtxModel", cfg, dict(EMIT=emit), workers, a)
    for x in _emitted(r.out, "T"):
        yield dict(h=_calls(x["h"]), k=x["k"], s={int(k): v for k, v in x["s"].items()} if isinstance(x["s"], dict)
                   else {i: v for i, v in enumerate(x["s"])})


def closing(slots, alg=None):
    """Calls that use up what a history left: the digest of every open context, then
    release; and a fresh use of an empty reference."""
    r = []
    for s, v in sorted(slots.items()):
        if v["st"] == "open":
            r += [update(v["alg"], gen(s, v["m"], 3), c=s), final(v["alg"], c=s), free(v["alg"], c=s)]
        elif v["st"] != "null":
            r += [free(v["alg"], c=s)]
        if alg:
            a = v.get("alg", alg)
            r += [init(a, c=s), update(a, gen(s, 0, 5), c=s), final(a, c=s), free(a, c=s)]
    return r


def retarget(calls, a0, a):
    """The same history for another algorithm of the same block size."""
    r = []
    for e in calls:
        e = dict(e)
        if e["alg"] == a0:
            e["alg"] = a
            if isinstance(e["hs"], int) and e["hs"] > 0:
                e["hs"] += DLEN[a] - DLEN[a0]
        r.append(e)
    return r


def fills(bsize, which):
    r = model("Streaming", "Fill%d%s" % (bsize, which), workers=1)
    return [tuple(x) for x in _emitted(r.out, "F")]


def tours(trans, bsize, rng, length):
    """Walks over the fill level graph that take every transition at least once."""
    todo = {}
    for f, k, g in trans:
        todo.setdefault(f, []).append(k)
    for f in todo:
        rng.shuffle(todo[f])
    out, left = [], sum(len(v) for v in todo.values())
    while left:
        f, w = 0, []
        while len(w) < length and left:
            if todo.get(f):
                k = todo[f].pop()
                left -= 1
            else:
                g = rng.choice([x for x in todo if todo[x]])
                k = (g - f) % bsize
                if k == 0:
                    k = bsize
            w.append(k)
            f = (f + k) % bsize
        out.append(w)
    return out
