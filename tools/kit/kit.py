"""Builds /repo's sources for a demonstration and runs them. Self-contained."""
import atexit, ctypes, glob, hashlib, hmac, json, os, re, shutil, subprocess, sys, tempfile
REPO = os.environ.get("KIT_REPO", os.getcwd())
KIT = os.path.dirname(os.path.abspath(__file__))
W = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, W, True)
LOW = ["HAVE_LIBCRYPTO", "HAVE_OPENSSL_MD5_H", "HAVE_OPENSSL_SHA_H"]
EVP = ["HAVE_LIBCRYPTO", "HAVE_OPENSSL_EVP_H", "HAVE_EVP_MD5", "HAVE_EVP_SHA1", "HAVE_EVP_SHA224", "HAVE_EVP_SHA256", "HAVE_EVP_SHA512", "HAVE_EVP_DIGESTINIT_EX2"]
EVP1 = EVP[:-1]
SUBST = {"VERSION": "20241028", "PACKAGE": "libhmac", "HAVE_SYS_TYPES_H": "1", "HAVE_INTTYPES_H": "1", "HAVE_STDINT_H": "1", "HAVE_WCHAR_H": "1",
         "HAVE_SIZE32_T": "0", "HAVE_SSIZE32_T": "0", "HAVE_SIZE64_T": "0", "HAVE_SSIZE64_T": "0", "HAVE_OFF64_T": "0", "HAVE_WIDE_CHARACTER_TYPE": "0"}
ALGS = dict(md5=16, sha1=20, sha224=28, sha256=32, sha512=64)


def template(src, dst):
    t = re.sub(r"@([A-Z_0-9]+)@", lambda m: SUBST.get(m.group(1), m.group(0)), open(src).read())
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    open(dst, "w").write(t)


def headers(defs):
    d = os.path.join(W, "inc%d" % abs(hash(tuple(defs))))
    os.makedirs(d, exist_ok=True)
    base = open(os.path.join(KIT, "config_base.h")).read()
    open(os.path.join(d, "config.h"), "w").write(base + "".join("#define %s 1\n" % x for x in defs))
    for n in ("definitions", "features", "types"):
        template(os.path.join(REPO, "include/libhmac/%s.h.in" % n), os.path.join(d, "libhmac/%s.h" % n))
    template(os.path.join(REPO, "include/libhmac.h.in"), os.path.join(d, "libhmac.h"))
    template(os.path.join(REPO, "common/types.h.in"), os.path.join(d, "types.h"))
    template(os.path.join(REPO, "libhmac/libhmac_definitions.h.in"), os.path.join(d, "libhmac_definitions.h"))
    return ["-DHAVE_CONFIG_H", "-w"] + ["-I" + x for x in (d, os.path.join(KIT, "include"), KIT, REPO + "/include", REPO + "/common", REPO + "/libhmac", REPO + "/hmactools")]


def cc(args):
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(r.stdout.decode()[:3000])
        sys.exit("cannot compile")


def lib(defs=(), flags=("-O2", "-g"), extra=()):
    """libhmac as a shared library, by ctypes."""
    out = os.path.join(W, "libhmac%d.so" % len(os.listdir(W)))
    cc(["gcc", "-shared", "-fPIC"] + list(flags) + headers(list(defs)) + sorted(glob.glob(REPO + "/libhmac/*.c")) + [KIT + "/libcerror.c"] + list(extra) + ["-o", out, "-lcrypto", "-lpthread"])
    return ctypes.CDLL(out)


def program(main, defs=(), flags=("-O2", "-g"), cc_="gcc"):
    out = os.path.join(W, "prog%d" % len(os.listdir(W)))
    cc([cc_] + list(flags) + headers(list(defs)) + sorted(glob.glob(REPO + "/libhmac/*.c")) + [KIT + "/libcerror.c", main, "-o", out, "-lcrypto", "-lpthread"])
    return out


def tool(defs=(), getopt=True, driver="drv_tool.c", flags=("-O2", "-g")):
    out = os.path.join(W, "tool%d" % len(os.listdir(W)))
    ops = ["signal", "sigaction", "malloc", "calloc", "realloc", "free"] + ["libhmac_%s_%s%s" % (a, c, o) for a in ALGS for c in ("context_", "") for o in ("initialize", "update", "finalize", "free")]
    h = headers(list(defs)) + list(flags) + (["-DHAVE_GETOPT=1"] if getopt else [])
    objs = []
    for s in sorted(glob.glob(REPO + "/hmactools/*.c")):
        if driver != "drv_tool.c" and s.endswith("/hmacsum.c"):
            continue
        o = os.path.join(W, os.path.basename(out) + os.path.basename(s)[:-2] + ".o")
        cc(["gcc"] + h + ["-Dmain=hmacsum_main", "-c", s, "-o", o])
        objs.append(o)
    cc(["gcc"] + h + objs + sorted(glob.glob(REPO + "/libhmac/*.c")) + [os.path.join(KIT, x) for x in (driver, "vp_tool.c", "vp_wrap.c", "libcerror.c")]
       + ["-Wl," + ",".join("--wrap=" + x for x in ops), "-o", out, "-lcrypto", "-lpthread"])
    return out


def runs(exe, lines):
    """Each line: (args, words). Gives the driver's answers."""
    t = "".join(" ".join(["arg=" + a.encode().hex() for a in args] + [words]) + "\n" for args, words in lines)
    r = subprocess.run([exe], input=t.encode(), stdout=subprocess.PIPE)
    return [json.loads(l) for l in r.stdout.decode("latin-1").split("\n")[:-1]]


def calls(exe, lines):
    r = subprocess.run([exe], input="".join(" " + l + "\n" for l in lines).encode(), stdout=subprocess.PIPE)
    return [json.loads(l) for l in r.stdout.decode("latin-1").split("\n")[:-1]]


def pattern(p, n):
    return bytes(((i % 65536) * 167 + (i // 256) * 13 + p * 59 + 7) & 255 for i in range(n))


def digests(out):
    return re.findall(r"(\w+) hash calculated over data:\s*(\S*)", out)


class Ctx:
    """A context of libhmac."""
    def __init__(self, l, alg):
        self.l, self.alg, self.p = l, alg, ctypes.c_void_p()
        self.e = ctypes.c_void_p()

    def op(self, name, *a):
        return getattr(self.l, "libhmac_%s_%s" % (self.alg, name))(*a, ctypes.byref(self.e))

    def init(self):
        return self.op("initialize", ctypes.byref(self.p))

    def update(self, data, n=None):
        return self.op("update", self.p, data, ctypes.c_size_t(len(data) if n is None else n))

    def final(self, n=None):
        n = ALGS[self.alg] if n is None else n
        b = ctypes.create_string_buffer(max(n, 1) + 80)
        r = self.op("finalize", self.p, b, ctypes.c_size_t(n))
        return r, b.raw[:ALGS[self.alg]]

    def free(self):
        return self.op("free", ctypes.byref(self.p))


def calc(l, alg, data):
    b = ctypes.create_string_buffer(80)
    e = ctypes.c_void_p()
    r = getattr(l, "libhmac_%s_calculate" % alg)(data, ctypes.c_size_t(len(data)), b, ctypes.c_size_t(ALGS[alg]), ctypes.byref(e))
    return r, b.raw[:ALGS[alg]]


def calc_hmac(l, alg, key, data):
    b = ctypes.create_string_buffer(80)
    e = ctypes.c_void_p()
    r = getattr(l, "libhmac_%s_calculate_hmac" % alg)(key, ctypes.c_size_t(len(key)), data, ctypes.c_size_t(len(data)), b, ctypes.c_size_t(ALGS[alg]), ctypes.byref(e))
    return r, b.raw[:ALGS[alg]]


def H(alg, data):
    return hashlib.new(alg, data).digest()


def HM(alg, key, data):
    return hmac.new(key, data, alg).digest()


def check(cond, what):
    if not cond:
        print("BROKEN: " + what)
        sys.exit(1)


PRE = """import sys, ctypes, os
sys.path.insert(0, os.environ["PYD"])
import pyhmac
so = ctypes.PyDLL(os.path.join(os.environ["PYD"], "pyhmac.so"))
so.vp_live.restype = so.vp_errors_live.restype = ctypes.c_long
so.vp_call_begin.argtypes = (ctypes.c_int, ctypes.c_long)
"""


def pymodule(defs=(), flags=("-O2", "-g")):
    """The Python module; with what vp_wrap.c can do (fail the k-th allocation, count blocks)."""
    out = os.path.join(W, "py%d" % len(os.listdir(W)))
    os.makedirs(out)
    inc = subprocess.run(["/usr/bin/python3", "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], stdout=subprocess.PIPE).stdout.decode().strip()
    cc(["gcc", "-shared", "-fPIC", "-Wl,-Bsymbolic"] + list(flags) + headers(list(defs)) + ["-I" + REPO + "/pyhmac", "-I" + inc] + sorted(glob.glob(REPO + "/libhmac/*.c")) + sorted(glob.glob(REPO + "/pyhmac/*.c"))
       + [KIT + "/libcerror.c", KIT + "/vp_wrap.c", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free", "-o", out + "/pyhmac.so", "-lcrypto", "-lpthread"])
    return out


def py(d, code, timeout=250, **env):
    """Runs code in an interpreter of its own; what it prints, or the way it died."""
    r = subprocess.run(["/usr/bin/python3", "-B", "-c", PRE + code], env=dict(os.environ, PYD=d, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.stdout.decode().strip() if r.returncode == 0 else "exit %d: %s" % (r.returncode, r.stdout.decode()[-300:])
