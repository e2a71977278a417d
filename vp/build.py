"""Builds libhmac, hmactools and pyhmac from the current working tree of /repo in the
configurations that its configure script can produce, against stand-ins for the
libyal libraries that are not available here (/verif/shim)."""
import glob, os, re, shutil, threading
from .common import *

LOW = ["HAVE_LIBCRYPTO", "HAVE_OPENSSL_MD5_H", "HAVE_OPENSSL_SHA_H"]
EVPN = ["HAVE_LIBCRYPTO", "HAVE_OPENSSL_EVP_H", "HAVE_EVP_MD5", "HAVE_EVP_SHA1",
        "HAVE_EVP_SHA224", "HAVE_EVP_SHA256", "HAVE_EVP_SHA512"]
# name -> (defines, wrap groups, extra include dirs, extra shim sources, libraries, fallback?)
CONFIGS = {
    "fb":     dict(defs=[], wraps=[], libs=[]),
    "fbloop": dict(defs=[], wraps=[], libs=[], loops=True),
    "low":    dict(defs=LOW, wraps=["low"], libs=["-lcrypto"]),
    "evp2":   dict(defs=EVPN + ["HAVE_EVP_DIGESTINIT_EX2"], wraps=["evp"], libs=["-lcrypto"]),
    "evp1":   dict(defs=EVPN, wraps=["evp"], libs=["-lcrypto"]),
    # a 32-bit build over a C library of its own (shim/m32); only with the "compiler" m32
    "fb32":   dict(defs=[], wraps=[], libs=[], m32=True),
    "evpold": dict(defs=EVPN + ["HAVE_EVP_MD_CTX_INIT", "HAVE_EVP_MD_CTX_CLEANUP"], wraps=["old"],
                   libs=["-lcrypto"], oldssl=True),
}
FALLBACK = ("fb", "fbloop", "fb32")
GCC_INC = run(["gcc", "-print-file-name=include"]).stdout.decode().strip()
ALLOC_WRAPS = ["malloc", "calloc", "realloc", "free"]
MEM_WRAPS = ["memcpy", "memset"]
EVP_WRAPS = ["EVP_MD_CTX_new", "EVP_MD_CTX_free", "EVP_DigestInit_ex2", "EVP_DigestInit_ex",
             "EVP_DigestUpdate", "EVP_DigestFinal_ex"]
LOW_WRAPS = [a + "_" + b for a in ("MD5", "SHA1", "SHA224", "SHA256", "SHA512")
             for b in ("Init", "Update", "Final")]

SAN = {
    "": (["gcc"], ["-O2", "-g"]),
    "nb": (["gcc"], ["-O1", "-g", "-fno-builtin"]),
    "clang": (["clang"], ["-O2", "-g"]),
    "asan": (["gcc"], ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                       "-fno-omit-frame-pointer"]),
    "msan": (["clang"], ["-O1", "-g", "-fsanitize=memory", "-fno-sanitize-recover=all"]),
    "m32": (["gcc"], ["-m32", "-O2", "-g", "-ffreestanding", "-nostdinc", "-isystem", os.path.join(SHIM, "m32/include"), "-isystem", GCC_INC,
                     "-include", "m32.h", "-fno-stack-protector", "-fno-pic", "-no-pie", "-D__thread=", "-DVP_M32"]),
    "tsan": (["gcc"], ["-O1", "-g", "-fsanitize=thread"]),
}
SUBST = {"VERSION": "20241028", "PACKAGE": "libhmac", "HAVE_SYS_TYPES_H": "1", "HAVE_INTTYPES_H": "1",
         "HAVE_STDINT_H": "1", "HAVE_WCHAR_H": "1", "HAVE_SIZE32_T": "0", "HAVE_SSIZE32_T": "0",
         "HAVE_SIZE64_T": "0", "HAVE_SSIZE64_T": "0", "HAVE_OFF64_T": "0",
         "HAVE_WIDE_CHARACTER_TYPE": "0"}

_lock = threading.Lock()
_done = {}


def version():
    m = re.search(r"\[libhmac\],\s*\[(\d+)\]", open(os.path.join(REPO, "configure.ac")).read())
    return m.group(1) if m else "20241028"


def _template(src, dst, extra=None):
    t = open(src).read()
    s = dict(SUBST)
    s["VERSION"] = version()
    s.update(extra or {})
    t = re.sub(r"@([A-Z_0-9]+)@", lambda m: s.get(m.group(1), m.group(0)), t)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "w") as f:
        f.write(t)


_headers = {}
_hlock = threading.Lock()


def headers(cfg):
    """Generated headers of a configuration, in a directory of its own, written once."""
    with _hlock:
        if cfg not in _headers:
            _headers[cfg] = _write_headers(cfg)
        return _headers[cfg]


def _write_headers(cfg):
    d = sub("inc-" + cfg)
    c = CONFIGS[cfg]
    with open(os.path.join(SHIM, "config_base.h")) as f:
        base = f.read().replace("20241028", version())
    if c.get("m32"):
        base = base.replace("SIZEOF_LONG 8", "SIZEOF_LONG 4").replace("SIZEOF_SIZE_T 8", "SIZEOF_SIZE_T 4")
    with open(os.path.join(d, "config.h"), "w") as f:
        f.write(base + "".join("#define %s 1\n" % x for x in c["defs"]))
    for n in ("definitions", "features", "types"):
        p = os.path.join(REPO, "include/libhmac/%s.h" % n)
        _template(p + ".in", os.path.join(d, "libhmac/%s.h" % n))
    _template(os.path.join(REPO, "include/libhmac.h.in"), os.path.join(d, "libhmac.h"))
    _template(os.path.join(REPO, "common/types.h.in"), os.path.join(d, "types.h"))
    p = os.path.join(d, "libhmac_definitions.h")
    _template(os.path.join(REPO, "libhmac/libhmac_definitions.h.in"), p)
    if c.get("loops"):
        t = open(p).read()
        t = re.sub(r"(?m)^#define\s+LIBHMAC_UNFOLLED_LOOPS.*$", "", t)
        open(p, "w").write(t)
    return d


def incs(cfg, hdr):
    c = CONFIGS[cfg]
    i = []
    if c.get("oldssl"):
        i.append(os.path.join(SHIM, "oldssl"))
    i += [hdr, os.path.join(SHIM, "include"), SHIM,
          os.path.join(REPO, "include"), os.path.join(REPO, "common"), os.path.join(REPO, "libhmac")]
    return ["-I" + x for x in i]


class BuildError(Broken):
    pass


def cc(cmd, what):
    r = run(cmd, timeout=300)
    if r.returncode != 0:
        raise BuildError("cannot compile %s\n%s" % (what, r.stderr.decode(errors="replace")[:4000]))


def wraps(cfg, san):
    w = list(ALLOC_WRAPS)
    if san == "nb":
        w += MEM_WRAPS
    g = CONFIGS[cfg]["wraps"]
    if "evp" in g:
        w += EVP_WRAPS
    if "low" in g:
        w += LOW_WRAPS
    return w


def wrap_defs(cfg, san):
    g = CONFIGS[cfg]["wraps"]
    d = []
    if "evp" in g:
        d.append("-DVP_EVP")
    if "low" in g:
        d.append("-DVP_LOW")
    if "old" in g:
        d.append("-DVP_OLD")
    if san == "nb":
        d.append("-DVP_NOBUILTIN")
    return d


def objects(cfg, san, pic=False):
    """The objects of libhmac in a configuration."""
    key = ("obj", cfg, san, pic)
    with _lock:
        ev = _done.get(key)
        if ev is None:
            ev = _done[key] = [threading.Event(), None, None]
            mine = True
        else:
            mine = False
    if not mine:
        ev[0].wait()
        if ev[2]:
            raise ev[2]
        return ev[1]
    try:
        hdr = headers(cfg)
        out = sub("obj-%s-%s%s" % (cfg, san or "o2", "-pic" if pic else ""))
        comp, flags = SAN[san]
        objs = []

        def one(src):
            o = os.path.join(out, os.path.basename(src)[:-2] + ".o")
            cc(comp + flags + (["-fPIC"] if pic else []) + ["-w", "-DHAVE_CONFIG_H", "-Wno-deprecated-declarations"]
               + incs(cfg, hdr) + ["-c", src, "-o", o], src)
            return o
        objs = pmap(one, sorted(glob.glob(os.path.join(REPO, "libhmac", "*.c"))), 4)
        ev[1] = (hdr, objs)
        return ev[1]
    except BaseException as e:
        ev[2] = e
        raise
    finally:
        ev[0].set()


def program(name, srcs, cfg, san="", wrap=True, extra=(), link=(), libhmac=True, incdirs=()):
    """Links shim sources against libhmac in a configuration."""
    comp, flags = SAN[san]
    hdr, objs = objects(cfg, san)
    if not libhmac:
        objs = []
    exe = os.path.join(sub("bin"), "%s-%s-%s" % (name, cfg, san or "o2"))
    src = [os.path.join(SHIM, s) if not s.startswith("/") else s for s in srcs]
    src.append(os.path.join(SHIM, "libcerror.c"))
    if wrap:
        src.append(os.path.join(SHIM, "vp_wrap.c"))
    if CONFIGS[cfg].get("oldssl"):
        src.append(os.path.join(SHIM, "vp_oldssl.c"))
    cmd = comp + flags + ["-w", "-DHAVE_CONFIG_H"] + wrap_defs(cfg, san) + ["-I" + x for x in incdirs] \
        + incs(cfg, hdr) + list(extra) + src + objs
    if wrap:
        cmd += ["-Wl," + ",".join("--wrap=" + w for w in wraps(cfg, san))]
    if san == "m32":
        cmd += [os.path.join(SHIM, "m32/libc.c"), "-nostdlib", "-static", "-o", exe]
    else:
        cmd += ["-o", exe] + list(link) + CONFIGS[cfg]["libs"] + ["-lpthread"]
    cc(cmd, name + " (" + cfg + ")")
    return exe


_runs32 = []


def runs32():
    """Whether 32-bit programs can be built and run here (they need no libraries)."""
    with _hlock:
        if not _runs32:
            d = sub("m32-probe")
            with open(os.path.join(d, "p.c"), "w") as f:
                f.write('int main( void ) { char b[ 8 ]; if( fgets( b, 8, stdin ) == NULL ) { return( 1 ); } printf( "%s%d", b, (int) sizeof( void * ) ); return( 0 ); }\n')
            comp, flags = SAN["m32"]
            try:
                r = run(comp + flags + ["-w", os.path.join(d, "p.c"), os.path.join(SHIM, "m32/libc.c"), "-nostdlib", "-static", "-o", os.path.join(d, "p")], timeout=60)
                ok = r.returncode == 0
                if ok:
                    r = run([os.path.join(d, "p")], input=b"x\n", timeout=20)
                    ok = r.returncode == 0 and r.stdout == b"x\n4"
            except OSError:
                ok = False
            _runs32.append(ok)
        return _runs32[0]


ALG_NAMES = ("md5", "sha1", "sha224", "sha256", "sha512")
TOOL_WRAPS = ["signal", "sigaction"] + ["libhmac_%s_%s%s" % (a, c, o) for a in ALG_NAMES for c in ("context_", "")
                                        for o in ("initialize", "update", "finalize", "free")]


def tool(cfg, san="", getopt=True, driver="drv_tool.c", mains=True):
    """hmactools, with its main renamed, against the scripted surroundings."""
    comp, flags = SAN[san]
    hdr, objs = objects(cfg, san)
    tag = "%s-%s-%s" % (cfg, san or "o2", "sys" if getopt else "own")
    out = sub("tool-%s-%s" % (driver[:-2], tag))
    defs = ["-DHAVE_GETOPT=1"] if getopt else []
    hd = os.path.join(REPO, "hmactools")
    common = comp + flags + ["-w", "-DHAVE_CONFIG_H"] + defs + incs(cfg, hdr) + ["-I" + hd]

    def one(src):
        o = os.path.join(out, os.path.basename(src)[:-2] + ".o")
        cc(common + ["-Dmain=hmacsum_main", "-c", src, "-o", o], src)
        return o
    own = [s for s in sorted(glob.glob(os.path.join(hd, "*.c"))) if mains or os.path.basename(s) != "hmacsum.c"]
    tobjs = pmap(one, own, 4)
    exe = os.path.join(out, "run")
    src = [os.path.join(SHIM, x) for x in (driver, "vp_tool.c", "libcerror.c", "vp_wrap.c")]
    if CONFIGS[cfg].get("oldssl"):
        src.append(os.path.join(SHIM, "vp_oldssl.c"))
    cc(common + wrap_defs(cfg, san) + src + tobjs + objs
       + ["-Wl," + ",".join("--wrap=" + w for w in wraps(cfg, san) + TOOL_WRAPS), "-o", exe]
       + CONFIGS[cfg]["libs"] + ["-lpthread"], "hmactools (%s)" % tag)
    return exe


PYTHON = "/usr/bin/python3"


def python(cfg, san="", gates=False):
    """The Python module, as pyhmac.so in a directory of its own; with vp_wrap in it, or
    vp_gate."""
    comp, flags = SAN[san]
    hdr, objs = objects(cfg, san, pic=True)
    out = sub("py-%s-%s%s" % (cfg, san or "o2", "-gate" if gates else ""))
    pd = os.path.join(REPO, "pyhmac")
    inc = sysconfig_include()
    common = comp + flags + ["-fPIC", "-w", "-DHAVE_CONFIG_H"] + incs(cfg, hdr) + ["-I" + pd, "-I" + inc]

    def one(src):
        o = os.path.join(out, os.path.basename(src)[:-2] + ".o")
        cc(common + ["-c", src, "-o", o], src)
        return o
    pobjs = pmap(one, sorted(glob.glob(os.path.join(pd, "*.c"))), 4)
    src = [os.path.join(SHIM, x) for x in ("libcerror.c", "vp_wrap.c")]
    names = wraps(cfg, san) + ["PyBytes_FromStringAndSize"]
    if gates:
        src.append(os.path.join(SHIM, "vp_gate.c"))
        names += ["libhmac_%s_context_%s" % (a, o) for a in ALG_NAMES for o in ("initialize", "update", "finalize", "free")]
    if CONFIGS[cfg].get("oldssl"):
        src.append(os.path.join(SHIM, "vp_oldssl.c"))
    # unresolved names are the interpreter's, but not all of them may be: found out on import
    cc(common + wrap_defs(cfg, san) + ["-DVP_PY", "-shared"] + src + pobjs + objs
       + ["-Wl,-Bsymbolic", "-Wl," + ",".join("--wrap=" + w for w in names),
          "-o", os.path.join(out, "pyhmac.so")] + CONFIGS[cfg]["libs"] + ["-lpthread"], "pyhmac (%s)" % cfg)
    return out


def sysconfig_include():
    r = run([PYTHON, "-I", "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"])
    return r.stdout.decode().strip()
