"""Runs histories of operations on the real Python module pyhmac. Every line of the
input is one history; every line of the output answers one operation."""
import ctypes, gc, itertools, json, os, queue, sys, threading

sys.path.insert(0, os.environ["VP_PY_DIR"])
import pyhmac

lib = ctypes.PyDLL(os.path.join(os.environ["VP_PY_DIR"], "pyhmac.so"))
for n in ("vp_live", "vp_errors_live", "vp_ops"):
    getattr(lib, n).restype = ctypes.c_long
call_begin, call_end, ops_seen, live, errors_live = lib.vp_call_begin, lib.vp_call_end, lib.vp_ops, lib.vp_live, lib.vp_errors_live
call_begin.argtypes = (ctypes.c_int, ctypes.c_long)

unraisable = [0]


def hook(x):
    unraisable[0] += 1


sys.unraisablehook = hook


def gen(d):
    p, o, n = d["p"], d["o"], d["n"]
    return bytearray((((i % 65536) * 167 + (i // 256) * 13 + p * 59 + 7) % 256) for i in range(o, o + n))


class Sub(bytes):
    pass


class Lies:
    @property
    def __class__(self):
        return bytes


class ClassRaises:
    @property
    def __class__(self):
        raise ZeroDivisionError("class")


class ReprRaises(Exception):
    def __repr__(self):
        raise ZeroDivisionError("repr")


class ClassRaisesOdd:
    @property
    def __class__(self):
        raise ReprRaises("odd")


class Blank:
    pass


def value(kind, d):
    b = gen(d)
    return dict(bytes=lambda: bytes(b), sub=lambda: Sub(b), str=lambda: b.decode("latin-1"), bytearray=lambda: b,
                memoryview=lambda: memoryview(b), int=lambda: 65, none=lambda: None, list=lambda: list(b),
                float=lambda: 1.5, object=Blank, tuple=lambda: tuple(b), bool=lambda: True, type=lambda: bytes,
                lies=Lies, classraises=ClassRaises, reprraises=ClassRaisesOdd)[kind]()


class Pending(KeyError):
    pass


def raiser():
    raise KeyError("vp")


def nothing():
    pass


objs = {}
absent = object()


def args_of(c, k, d):
    """Positional and keyword arguments."""
    a = [k, d] if c["op"] == "hmac" else [d]
    n = ["key", "data"] if c["op"] == "hmac" else ["data"]
    f = c["form"]
    if f == "pos":
        return a, {}
    if f == "kw":
        return [], dict(zip(n, a))
    if f == "mix":
        return a[:-1], {n[-1]: a[-1]} if len(a) > 1 else {}
    if f == "none":
        return [], {}
    if f == "extra":
        return a + [b"x"], {}
    if f == "unknown":
        return a[:-1], {"dat": a[-1]}
    if f == "dup":
        return a, {n[-1]: a[-1]}
    raise AssertionError(f)


def do(c, k, d, box):
    """One operation; the answer goes to box so that nothing else holds it."""
    op, o = c["op"], c["o"]
    if op in ("reinit", "update", "final") and o not in objs:
        box.append(None)
        return
    if op == "make":
        objs[o] = getattr(pyhmac, c["alg"] + "_context")()
        box.append("obj")
    elif op == "raw":
        t = getattr(pyhmac, c["alg"] + "_context")
        objs[o] = t.__new__(t)
        box.append("obj")
    elif op == "reinit":
        box.append(objs[o].__init__())
    elif op == "drop":
        if c["pend"]:
            (objs.pop(o, None), raiser())
        else:
            objs.pop(o, None)
            nothing()
            len(objs)
        box.append(None)
    elif op == "update":
        a, w = args_of(c, k, d)
        box.append(objs[o].update(*a, **w))
    elif op == "final":
        if c["form"] == "pos":
            box.append(objs[o].finalize())
        elif c["form"] == "extra":
            box.append(objs[o].finalize(b"x"))
        else:
            box.append(objs[o].finalize(x=1))
    elif op == "calc":
        a, w = args_of(c, k, d)
        box.append(getattr(pyhmac, c["alg"] + "_calculate")(*a, **w))
    elif op == "hmac":
        a, w = args_of(c, k, d)
        box.append(getattr(pyhmac, c["alg"] + "_calculate_hmac")(*a, **w))
    elif op == "version":
        box.append(pyhmac.get_version())


def operands(c):
    k = value(c.get("kval", "bytes"), c["k"]) if c["op"] == "hmac" else None
    d = value(c.get("val", "bytes"), c["d"]) if c["op"] in ("update", "calc", "hmac") else None
    return k, d


count = sys.getrefcount


def answer(c, counted=True, ready=None):
    k, d = ready or operands(c)
    before = count(k) + count(d)
    errs = errors_live()
    unraisable[0] = 0
    box, exc = [], ""
    fired = 0
    if counted:
        call_begin(c.get("kinds", 0) or 127, c.get("at", 0))
    try:
        do(c, k, d, box)
    except BaseException as e:
        exc = type(e).__name__
    finally:
        if counted:
            fired = call_end()
    after = count(k) + count(d)
    r = dict(kind="exc" if exc else "", exc=exc, out=[], exact=0, fired=fired, live=live() if counted else 0,
             errs=errors_live() - errs if counted else 0, refs=after - before, unraisable=unraisable[0], ops=ops_seen() if counted else 0)
    if not exc:
        x = box[0]
        if isinstance(x, bytes):
            r.update(kind="bytes", exact=int(type(x) is bytes), out=list(x))
        elif x is None:
            r["kind"] = "none"
        elif x == "obj" and c["op"] in ("make", "raw"):
            r["kind"] = "obj" if type(objs.get(c["o"])) is getattr(pyhmac, c["alg"] + "_context") else "other"
        elif isinstance(x, str):
            r.update(kind="str", ok=int(x == c.get("expect")))
        else:
            r["kind"] = "other"
    return r


def clear():
    while objs:
        try:
            objs.popitem()
            len(objs)
        except Exception:
            pass


def quiet(h, prepared):
    for c, (k, d) in zip(h, prepared):
        call_begin(c.get("kinds", 0) or 127, c.get("at", 0))
        try:
            do(c, k, d, [])
        except BaseException:
            pass
        finally:
            call_end()
    clear()


def growth(h):
    """Blocks of the interpreter per repetition of the history."""
    prepared = [operands(c) for c in h]
    for i in range(4):
        quiet(h, prepared)
    least = 1 << 30
    # what the interpreter keeps for itself comes to an end; a leak comes every time
    for n in (16, 20, 24) + (50,) * 12:
        gc.collect()
        a = sys.getallocatedblocks()
        for i in range(n):
            quiet(h, prepared)
        gc.collect()
        least = min(least, (sys.getallocatedblocks() - a) // n)
        if least <= 0:
            break
    return max(0, least)


def parallel(hs, rounds):
    """Histories of threads of their own, on objects of their own."""
    out = [None] * len(hs)
    hs = [[[(c, operands(c)) for c in u] for u in h] for h in hs]
    bar = threading.Barrier(len(hs))

    def work(i):
        bar.wait()
        # only answers not seen before are kept, so that the threads do little else
        w, seen = [], set()
        for j in range(rounds):
            for u in hs[i]:
                x = [answer(c, False, ready) for c, ready in u]
                key = (id(u), repr(x))
                if key not in seen:
                    seen.add(key)
                    w.append((u, x))
        out[i] = w
    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(hs))]
    sys.setswitchinterval(1e-5)
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sys.setswitchinterval(0.005)
    for o in list(objs):
        objs.pop(o, None)
    return out


def share(c):
    """Threads that share objects: they call what the schedule says, and go on within the
    library when it says so."""
    steps, ops = c["steps"], c["ops"]
    gate = ctypes.CDLL(os.path.join(os.environ["VP_PY_DIR"], "pyhmac.so"))
    calls, numbers = {}, itertools.count()

    def call(t, w, ready):
        i = next(numbers)
        x = dict(w)
        gate.vp_gate_event(8, i)
        box, exc = [], ""
        kind, out = "none", []
        try:
            if w["op"] in ("update", "final", "reinit") and w["o"] not in objs:
                kind = "absent"
            else:
                do(w, ready[0], ready[1], box)
        except KeyError:
            kind = "absent"
        except BaseException as e:
            kind, exc = "exc", type(e).__name__
        else:
            if kind == "none" and box:
                y = box[0]
                if isinstance(y, bytes):
                    kind, out = "bytes", list(y)
                elif y is not None:
                    kind = "obj" if y == "obj" else "other"
        box = None
        gate.vp_gate_event(9, i)
        x.update(t=t, kind=kind, exc=exc, out=out)
        calls[i] = x

    gate.vp_gate_reset(1)
    gate.vp_gate_me(0)
    for w in c["start"]:
        call(0, w, operands(w))
    n = max(ops["threads"], 1)
    queues = [queue.SimpleQueue() for t in range(n + 1)]
    todo = [0] * (n + 1)

    def work(t):
        gate.vp_gate_me(t)
        while True:
            j = queues[t].get()
            if j is None:
                return
            call(t, *j)
    ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(1, n + 1)]
    for t in ts:
        t.start()
    for s in steps:
        if s["a"] == "call":
            t = s["t"]
            todo[t] += 1
            queues[t].put((s["w"], operands(s["w"])))
            gate.vp_gate_wait(t, todo[t], 6)
        else:
            if gate.vp_gate_wait(s["t"], todo[s["t"]], 6) == 1:
                gate.vp_gate_go(s["t"])
                gate.vp_gate_wait(s["t"], todo[s["t"]], 6)
    gate.vp_gate_open()
    hang = 0
    for t in range(1, n + 1):
        queues[t].put(None)
    for t in ts:
        t.join(20)
        if t.is_alive():
            hang = 1
            break
    if not hang:
        for w in c["end"]:
            call(0, w, operands(w))
    a = (ctypes.c_int * (3 * 4096))()
    k = gate.vp_gate_events(a)
    put(dict(events=[[a[3 * i], a[3 * i + 1], a[3 * i + 2]] for i in range(k)], calls=[calls.get(i) for i in range(next(numbers))], hang=hang))
    if hang:
        os._exit(0)
    objs.clear()


# Chaining values from the compression functions of libcrypto, as in drv_big.c
WIT = dict(md5=("MD5", 4, 32), sha1=("SHA1", 5, 32), sha224=("SHA224", 8, 32), sha256=("SHA256", 8, 32), sha512=("SHA512", 8, 64))


def big(c):
    """A message of n zero bytes, more than 32 bits can tell."""
    crypto = ctypes.CDLL("libcrypto.so.3")
    n, x, a, how = c["n"], c["x"], c["alg"], c["how"]
    name, words, bits = WIT[a]
    blk = 128 if a == "sha512" else 64
    z = bytes(n)
    key = b"" if how != "hmac" else bytes(gen(dict(p=9, o=0, n=20)))
    st = ctypes.create_string_buffer(512)
    getattr(crypto, name + "_Init")(st)
    up = getattr(crypto, name + "_Update")
    up.argtypes = (ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t)
    base = n - x
    tail = z[base:]
    if how == "bigkey":
        key = bytes(gen(dict(p=3, o=0, n=20)))
    if how == "hmac":
        up(st, bytes(b ^ 0x36 for b in key.ljust(blk, b"\0")), blk)
    if base:
        up(st, z, base)
    ret, out = 1, b""
    try:
        if how == "calc":
            out = getattr(pyhmac, a + "_calculate")(z)
        elif how == "hmac":
            out = getattr(pyhmac, a + "_calculate_hmac")(key, z)
        elif how == "bigkey":
            out = getattr(pyhmac, a + "_calculate_hmac")(z, key)
        else:
            o = getattr(pyhmac, a + "_context")()
            o.update(z)
            out = o.finalize()
    except Exception:
        ret = -1
    w = int.from_bytes
    raw = st.raw
    if bits == 32:
        v = [w(raw[i * 4:i * 4 + 4], "little") for i in range(words)]
        h = [[y >> 16, y & 65535] for y in v]
    else:
        v = [w(raw[i * 8:i * 8 + 8], "little") for i in range(words)]
        h = [[y >> 48, y >> 32 & 65535, y >> 16 & 65535, y & 65535] for y in v]
    size = base + len(tail) + (blk if how == "hmac" else 0)
    put(dict(op="stream", kind=how if how in ("hmac", "bigkey") else "hash", alg=a, ret=ret,
             n=[size >> 48, size >> 32 & 65535, size >> 16 & 65535, size & 65535], h=h, t=list(tail), key=list(key), out=list(out)))


def put(x):
    sys.stdout.write(json.dumps(x) + "\n")
    sys.stdout.flush()


def main():
    for line in sys.stdin:
        h = json.loads(line)
        clear()
        if "big" in h:
            big(h["big"])
            continue
        if "share" in h:
            share(h["share"])
            continue
        if "par" in h:
            for w in parallel(h["par"], h["rounds"]):
                for u, x in w:
                    put(dict(unit=[c for c, _ in u], answers=x))
            continue
        put(dict(live=live()))
        for c in h["ops"]:
            put(answer(c))
        clear()
        if h.get("grow"):
            put(dict(grow=growth(h["ops"])))


main()
