"""Builds libraries and harnesses from /repo's current working tree (nothing is written in /repo)."""
import concurrent.futures as cf, hashlib, json, os, shutil, subprocess, sys, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "shim"))
import gen_shim

ENV = dict(os.environ, LC_ALL="C")
for v in ("CFLAGS", "NISTFLAGS", "LDFLAGS", "MAKEFLAGS", "CC", "CPATH", "C_INCLUDE_PATH"):
    ENV.pop(v, None)
AVX = ["-mavx2", "-mbmi2", "-mpopcnt", "-march=x86-64-v3", "-mtune=generic"]

class BuildError(Exception):
    pass

def run(cmd, cwd=None, what=""):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, errors="replace")
    if r.returncode:
        raise BuildError("%s failed: %s\n%s" % (what or cmd[0], " ".join(cmd), (r.stdout + r.stderr)[-4000:]))
    return r.stdout

def compile_cached(cmd):
    """Compile unless the same preprocessed text was compiled with the same flags before."""
    s, o = cmd[cmd.index("-c") + 1], cmd[cmd.index("-o") + 1]
    pre = subprocess.run(cmd[:cmd.index("-c")] + ["-E", "-P", s], env=ENV, capture_output=True)
    if pre.returncode:
        return run(cmd, what="compile")
    flags = [a for a in cmd[:cmd.index("-c")] if not a.startswith(("-I", "-D"))]
    key = hashlib.sha256(("\0".join(flags) + "\0" + os.path.splitext(s)[1]).encode() + b"\1" + pre.stdout).hexdigest()[:32]
    cd = os.environ.get("VF_OBJS") or os.path.join(BUILD, "objs")
    c = os.path.join(cd, key + ".o")
    if not os.path.exists(c):
        run(cmd, what="compile")
        os.makedirs(cd, exist_ok=True)
        t = "%s.%d.%s" % (c, os.getpid(), hashlib.md5(o.encode()).hexdigest()[:8])
        shutil.copyfile(o, t)
        os.rename(t, c)
    else:
        os.utime(c)
        shutil.copyfile(c, o)

def prune_objs(n=6000):
    cd = os.path.join(BUILD, "objs")
    try:
        fs = sorted((os.path.getmtime(p), p) for p in glob.glob(os.path.join(cd, "*.o")))
    except OSError:
        return
    for _, p in fs[:-n]:
        try:
            os.unlink(p)
        except OSError:
            pass

def make_var(d, var):
    out = run(["make", "-s", "--no-print-directory", "-C", os.path.join(REPO, d), "--eval", "vfprint: ; @echo $(%s)" % var, "vfprint"], what="reading %s/Makefile" % d)
    return out.split()

_src = {}
def sources(impl, var="SOURCESKECCAK"):
    if (impl, var) not in _src:
        l = [s[:-2] + ".c" if s.endswith(".o") else s for s in make_var(impl, var)]
        if not l:
            raise BuildError("no %s in %s/Makefile" % (var, impl))
        _src[impl, var] = [os.path.join(REPO, impl, s) for s in l]
    return _src[impl, var]

_th = None
def tree_hash():
    global _th
    if _th is None:
        h = hashlib.sha256()
        for d in ("ref", "avx2"):
            for root, dirs, files in os.walk(os.path.join(REPO, d)):
                dirs.sort()
                for f in sorted(files):
                    p = os.path.join(root, f)
                    if f.endswith((".so", ".o", ".req", ".rsp")) or "." not in f and f != "Makefile" or os.path.islink(p) and not os.path.exists(p):
                        continue
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    h.update(open(p, "rb").read())
                    h.update(b"\1")
        for f in ("build.py", "shim/gen_shim.py", "shim/stub_xof.c", "shim/port/support.c", "shim/port/string.h"):
            p = os.path.join(VERIF, f)
            if os.path.exists(p):
                h.update(open(p, "rb").read())
        _th = h.hexdigest()[:20]
    return _th

# variant -> settings
def variant(name):
    v = dict(cc="gcc", cflags=["-O3", "-fomit-frame-pointer"], ld=[], defs=[], stub=False, impls=("ref", "avx2"), ks=(2, 3, 4), shim=True)
    if name == "std":
        pass
    elif name == "stub":          # fips202 layer replaced by the programmable XOF stub
        v.update(stub=True)
    elif name == "stubbmi":
        v.update(stub=True, defs=["-DBMI"], impls=("avx2",))
    elif name == "fuzzstub":
        v.update(variant("fuzz"), stub=True)
    elif name == "bmi":
        v.update(defs=["-DBMI"], impls=("avx2",))
    elif name == "fuzz":
        v.update(cc="clang", cflags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=fuzzer-no-link,undefined", "-fno-sanitize=shift-base", "-fno-sanitize-recover=undefined"])
    elif name == "asan":
        v.update(cc="clang", cflags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=alignment,shift-base,pointer-overflow", "-fno-sanitize-recover=undefined"])
    elif name == "trace":         # edge callbacks for the schedule explorer
        v.update(cc="clang", cflags=["-O1", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"])
    elif name == "trace0":
        v.update(variant("trace"))
        v["cflags"] = ["-O0"] + v["cflags"][1:]
    elif name.startswith("ct:"):
        # as cfg:, with calls of sha3_512 routed through a hook
        p = name.split(":")
        v.update(cc=p[1], cflags=p[2:], wrap="sha3_512")
    elif name.startswith("cfg:"):
        # cfg:<cc>:<flag>:<flag>...
        p = name.split(":")
        v.update(cc=p[1], cflags=p[2:])
        if "-flto" in p or any(a.startswith("-flto") for a in p):
            v["ld"] = p[2:]
    else:
        raise BuildError("unknown variant " + name)
    return v

def k_independent(path):
    """True for the hash layer: no dependence on KYBER_K in the file or in what it includes."""
    b = os.path.basename(path)
    if not (b.startswith("fips202") or "keccak4x" in path):
        return False
    r = subprocess.run(["gcc", "-w", "-E", "-P", "-mavx2", "-DKYBER_K=VF_K_MARK", path], env=ENV, capture_output=True, text=True)
    if r.returncode or "VF_K_MARK" in r.stdout:
        return False
    r2 = subprocess.run(["gcc", "-w", "-M", "-mavx2", path], env=ENV, capture_output=True, text=True)
    return "params.h" not in r2.stdout

def slug(name):
    return name.replace(":", "_").replace("=", "-").replace(",", "-").replace("/", "-")

def build_variant(name):
    """-> (dir, skipped) with <dir>/<impl>_<k>.so"""
    v = variant(name)
    top = os.path.join(BUILD, "libs-" + tree_hash())
    d = os.path.join(top, slug(name))
    if os.path.exists(os.path.join(d, "ok.json")):
        return d, json.load(open(os.path.join(d, "ok.json")))
    os.makedirs(BUILD, exist_ok=True)
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    skipped = {}
    jobs = []
    for impl in v["impls"]:
        rd = os.path.join(REPO, impl)
        iflags = (AVX if impl == "avx2" else [])
        base = [v["cc"]] + v["cflags"] + iflags + ["-fPIC", "-w", "-I" + rd] + v["defs"]
        srcs = sources(impl)
        weak = []
        if v["stub"]:
            # the real hash layer stays linkable with weak symbols, for functions the stub does not replace
            weak = [s for s in srcs if os.path.basename(s) in ("fips202.c", "fips202x4.c")  or "keccak4x" in s]
            srcs = [s for s in srcs if os.path.basename(s) not in ("fips202.c", "fips202x4.c") and "keccak4x" not in s]
            srcs = srcs + [os.path.join(VERIF, "shim", "stub_xof.c")]
        for k in v["ks"]:
            shim = os.path.join(tmp, "shim_%s_%d.c" % (impl, k))
            if v["shim"]:
                sk = gen_shim.generate(rd, impl, k, shim, iflags + v["defs"], tmp)
                if sk:
                    skipped["%s_%d" % (impl, k)] = sk
            else:
                open(shim, "w").write("")
            objs = []
            kdep = [s for s in srcs] + weak + [shim]
            for s in kdep:
                o = os.path.join(tmp, "%s_%d_%s.o" % (impl, k, os.path.basename(s).replace(".", "_")))
                inst = base
                if os.path.basename(s).startswith("shim_"):
                    inst = [a for a in base if not a.startswith(("-fsanitize", "-fno-sanitize"))]
                if "keccak4x" in s and "-fsanitize=fuzzer-no-link,undefined" in inst:   # 15 s to compile with both
                    inst = [a.replace(",undefined", "") for a in inst if not a.startswith("-fno-sanitize")]
                objs.append((o, inst + ["-DKYBER_K=%d" % k, "-c", s, "-o", o]))
            jobs.append((impl, k, v, objs))
    # sources that do not depend on KYBER_K are compiled once per implementation
    shared, cmds = {}, []
    for n, (impl, k, vv, objs) in enumerate(jobs):
        new = []
        for o, c in objs:
            s = c[c.index("-c") + 1]
            if k_independent(s):
                if (impl, s) not in shared:
                    shared[impl, s] = o
                    cmds.append(c)
                new.append((shared[impl, s], c))
            else:
                cmds.append(c)
                new.append((o, c))
        jobs[n] = (impl, k, vv, new)
    cmds.sort(key=lambda c: 0 if "keccak4x" in c[c.index("-c") + 1] else 1)
    with cf.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(compile_cached, c) for c in cmds]
        for f in futs:
            f.result()
        def link(j):
            impl, k, v, objs = j
            for o, c in objs:
                if v["stub"] and (os.path.basename(c[c.index("-c") + 1]).startswith("fips202") or "keccak4x" in c[c.index("-c") + 1]) and not os.path.exists(o + ".w"):
                    open(o + ".w", "w").close()
                    run(["objcopy", "--weaken", o], what="objcopy")
            out = os.path.join(tmp, "%s_%d.so" % (impl, k))
            san = []    # sanitizer runtimes come from the main executable
            extra = []
            if v.get("wrap"):
                extra = wrap_objs(v["wrap"], [o for o, _ in objs], os.path.join(tmp, "wrap_%s_%d" % (impl, k)))
            run([v["cc"], "-shared", "-Wl,-Bsymbolic", "-Wl,-z,noexecstack"] + san + v["ld"] + [o for o, _ in objs] + ["-o", out] + extra, what="link")
        if v["stub"]:
            for j in jobs:
                link(j)
        else:
            list(ex.map(link, jobs))
    for f in glob.glob(os.path.join(tmp, "*.o")) + glob.glob(os.path.join(tmp, "*.o.w")):
        os.unlink(f)
    json.dump(skipped, open(os.path.join(tmp, "ok.json"), "w"))
    os.makedirs(top, exist_ok=True)
    if os.path.isdir(d):
        shutil.rmtree(d, ignore_errors=True)
    os.rename(tmp, d)
    # drop libraries of older trees
    prune_objs()
    for o in sorted(glob.glob(os.path.join(BUILD, "libs-*")), key=os.path.getmtime)[:-6]:
        if o != top:
            shutil.rmtree(o, ignore_errors=True)
    return d, skipped

def wrap_objs(fn, objs, base):
    """Route calls of a hash function made from other objects through vf_g_hook."""
    names = set()
    for ln in run(["nm"] + sorted(set(objs)), what="nm").splitlines():
        p = ln.split()
        if len(p) == 3 and p[1] == "T" and (p[2] == fn or p[2].endswith("_" + fn)):
            names.add(p[2])
    if len(names) != 1:
        return []
    n = names.pop()
    open(base + ".c", "w").write("""#include <stdint.h>
#include <stddef.h>
__attribute__((visibility("default"))) void (*vf_g_hook)(uint8_t *, const uint8_t *, size_t);
void __real_%s(uint8_t *h, const uint8_t *in, size_t n);
void __wrap_%s(uint8_t *h, const uint8_t *in, size_t n) { __real_%s(h, in, n); if (vf_g_hook) vf_g_hook(h, in, n); }
""" % (n, n, n))
    run(["gcc", "-O1", "-fPIC", "-c", base + ".c", "-o", base + ".o"], what="wrapper")
    return [base + ".o", "-Wl,--wrap=" + n]

def entropy_libs():
    """The entropy source compiled once per platform branch, with its OS calls redirected to the scripted OS of the harness."""
    top = os.path.join(BUILD, "libs-" + tree_hash())
    d = os.path.join(top, "entropy")
    if os.path.exists(os.path.join(d, "ok.json")):
        return d, json.load(open(os.path.join(d, "ok.json")))
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    ren = []
    for s in ("syscall", "getrandom", "getentropy", "open", "open64", "openat", "read", "__read_chk", "close", "abort", "exit", "_exit", "_Exit", "__assert_fail", "raise", "sched_yield", "usleep", "nanosleep", "sleep", "poll"):
        ren += ["--redefine-sym", "%s=vf_%s" % (s, s)]
    branches = {"linux": [], "netbsd": ["-U__linux__", "-U__linux", "-Ulinux", "-D__NetBSD__"], "generic": ["-U__linux__", "-U__linux", "-Ulinux"],
                "windows": ["-U__linux__", "-D_WIN32", "-I" + os.path.join(VERIF, "shim", "win")]}
    skipped = {}
    for impl in ("ref", "avx2"):
        src = os.path.join(REPO, impl, "randombytes.c")
        for b, fl in branches.items():
            o = os.path.join(tmp, "%s_%s" % (impl, b))
            try:
                run(["gcc" if b == "linux" else "clang", "-O2", "-fPIC", "-w", "-fno-builtin"] + fl + ["-I" + os.path.join(REPO, impl), "-c", src, "-o", o + ".o"], what="compile")
                run(["objcopy"] + ren + [o + ".o"], what="objcopy")
                run(["gcc", "-shared", "-Wl,-Bsymbolic", o + ".o", "-o", o + ".so"], what="link")
            except BuildError as e:
                skipped["%s_%s" % (impl, b)] = str(e)[-300:]
            if "%s_%s" % (impl, b) not in skipped and b != "windows":
                run(["clang", "-O1", "-fPIC", "-w", "-fno-builtin", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"] + fl + ["-I" + os.path.join(REPO, impl), "-c", src, "-o", o + "_trace.o"], what="compile")
                run(["objcopy"] + ren + [o + "_trace.o"], what="objcopy")
                run(["gcc", "-shared", "-Wl,-Bsymbolic", o + "_trace.o", "-o", o + "_trace.so"], what="link")
            run(["gcc", "-O2", "-fPIC", "-w", "-I" + os.path.join(REPO, impl), "-shared", "-Wl,-Bsymbolic", src, "-o", os.path.join(tmp, impl + "_real.so")], what="compile")
    json.dump(skipped, open(os.path.join(tmp, "ok.json"), "w"))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(top, exist_ok=True)
    os.rename(tmp, d)
    return d, skipped

def port_images():
    """Static images of the portable sources for 32-bit x86 and big-endian MIPS."""
    top = os.path.join(BUILD, "libs-" + tree_hash())
    d = os.path.join(top, "port")
    if os.path.exists(os.path.join(d, "ok.json")):
        return d, json.load(open(os.path.join(d, "ok.json")))
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    P = os.path.join(VERIF, "shim", "port")
    x86 = ["-m32", "-fno-pic", "-fcf-protection=none", "-mstackrealign"]
    mips = ["clang", "--target=mips-none-elf", "-mcpu=mips32r2", "-msoft-float", "-mno-abicalls", "-G0", "-fno-pic"]
    kinds = [("gcc32_O3", "i386", ["gcc"] + x86 + ["-O3"]), ("gcc32_O1_uchar", "i386", ["gcc"] + x86 + ["-O1", "-funsigned-char"]), ("clang32_Os", "i386", ["clang"] + x86 + ["-Os"]),
             ("mips_O2", "mips", mips + ["-O2"]), ("mips_Os", "mips", mips + ["-Os"])]
    skipped, out = {}, []
    def one(a):
        (nm, arch, cmd), k = a
        o = os.path.join(tmp, "%s_%d" % (nm, k))
        objs = []
        try:
            for s in sources("ref") + [os.path.join(P, "support.c")]:
                objs.append(o + "_" + os.path.basename(s) + ".o")
                run(cmd + ["-ffreestanding", "-fno-builtin", "-fno-stack-protector", "-w", "-isystem", P, "-I" + os.path.join(REPO, "ref"), "-DKYBER_K=%d" % k, "-c", s, "-o", objs[-1]], what="compile")
            if arch == "mips":
                run(["ld.lld-18", "-static", "-e", "_start"] + objs + ["-o", o], what="link")
            else:
                run(["ld", "-m", "elf_i386", "-static", "-e", "_start", "-z", "noexecstack", "-Ttext-segment=0x8048000"] + objs + ["-o", o], what="link")
            return (nm, arch, k, None)
        except BuildError as e:
            return (nm, arch, k, str(e)[-300:])
        finally:
            for x in objs:
                if os.path.exists(x):
                    os.unlink(x)
    sources("ref")
    with cf.ThreadPoolExecutor(8) as ex:
        for nm, arch, k, err in ex.map(one, [(a, k) for a in kinds for k in (2, 3, 4)]):
            if err:
                skipped["%s_%d" % (nm, k)] = err
            else:
                out.append("%s_%d %s %d" % (nm, k, arch, k))
    open(os.path.join(tmp, "images.txt"), "w").write("\n".join(out) + "\n")
    json.dump(skipped, open(os.path.join(tmp, "ok.json"), "w"))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(top, exist_ok=True)
    os.rename(tmp, d)
    return d, skipped

def kat_libs():
    """The NIST generator and its file writer as shared objects, with stdio opens, the KEM and OpenSSL's block cipher redirected to the harness."""
    top = os.path.join(BUILD, "libs-" + tree_hash())
    d = os.path.join(top, "kat")
    if os.path.exists(os.path.join(d, "ok.json")):
        return d, json.load(open(os.path.join(d, "ok.json")))
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    nd = os.path.join(REPO, "ref", "nistkat")
    base = ["gcc", "-O2", "-fPIC", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-builtin", "-I" + os.path.join(REPO, "ref"), "-I" + nd]
    cmds = []
    r = os.path.join(tmp, "rng")
    run(base + ["-c", os.path.join(nd, "rng.c"), "-o", r + ".o"], what="compile")
    run(["gcc", "-shared", "-Wl,-Bsymbolic", r + ".o", "-lcrypto", "-o", r + ".so"], what="link")
    ren = []
    for s in ("EVP_CIPHER_CTX_new", "EVP_EncryptInit_ex", "EVP_aes_256_ecb", "EVP_EncryptUpdate", "EVP_CIPHER_CTX_free"):
        ren += ["--redefine-sym", "%s=vf_%s" % (s, s)]
    # -O0: an index that is too narrow for the request is not silently widened by the optimiser
    run(base + ["-O0", "-c", os.path.join(nd, "rng.c"), "-o", r + "_stub.o"], what="compile")
    run(["objcopy"] + ren + [r + "_stub.o"], what="objcopy")
    run(["gcc", "-shared", "-Wl,-Bsymbolic", r + "_stub.o", "-lcrypto", "-o", r + "_stub.so"], what="link")
    for k in (2, 3, 4):
        o = os.path.join(tmp, "kat%d" % k)
        run(base + ["-DKYBER_K=%d" % k, "-Dmain=vf_kat_main", "-c", os.path.join(nd, "PQCgenKAT_kem.c"), "-o", o + ".o"], what="compile")
        ren = []
        for s in ("fopen", "fopen64", "printf", "puts", "putchar", "perror", "exit", "abort", "remove", "unlink", "rename"):
            ren += ["--redefine-sym", "%s=vf_%s" % (s, s)]
        ns = "pqcrystals_kyber%d_ref_" % (256 * k)
        for s in ("keypair", "enc", "dec"):
            ren += ["--redefine-sym", "%s%s=vf_kem_%s" % (ns, s, s)]
        run(["objcopy"] + ren + [o + ".o"], what="objcopy")
        run(["gcc", "-shared", "-Wl,-Bsymbolic", o + ".o", r + ".o", "-lcrypto", "-o", o + ".so"], what="link")
        # the program as it ships, for a complete run
        run(["gcc", "-O3", "-w", "-I" + os.path.join(REPO, "ref"), "-DKYBER_K=%d" % k, "-o", os.path.join(tmp, "gen%d" % k)]
            + sources("ref") + [os.path.join(nd, "rng.c"), os.path.join(nd, "PQCgenKAT_kem.c"), "-lcrypto"], what="compile")
    json.dump({}, open(os.path.join(tmp, "ok.json"), "w"))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(top, exist_ok=True)
    os.rename(tmp, d)
    return d, {}

CCW = """#!/bin/bash
args=()
for a in "$@"; do
  case "$a" in -march=native) a=-march=x86-64-v3 ;; -mtune=native) a=-mtune=generic ;; esac
  args+=("$a")
done
exec gcc "${args[@]}"
"""
API_TU = """
#include <stddef.h>
#include "api.h"
struct vf_api { int k; size_t pk, sk, ct, kc, ec, ss; int (*kd)(uint8_t *, uint8_t *, const uint8_t *), (*kp)(uint8_t *, uint8_t *), (*ed)(uint8_t *, uint8_t *, const uint8_t *, const uint8_t *), (*en)(uint8_t *, uint8_t *, const uint8_t *), (*de)(uint8_t *, const uint8_t *, const uint8_t *); };
#define E(K, N) { K, N##PUBLICKEYBYTES, N##SECRETKEYBYTES, N##CIPHERTEXTBYTES, N##KEYPAIRCOINBYTES, N##ENCCOINBYTES, N##BYTES, N##keypair_derand, N##keypair, N##enc_derand, N##enc, N##dec },
__attribute__((visibility("default"))) const struct vf_api vf_api_IMPL[] = {
E(2, pqcrystals_kyber512_IMPL_) E(3, pqcrystals_kyber768_IMPL_) E(4, pqcrystals_kyber1024_IMPL_) };
"""
HASH_TU = """
#include <stddef.h>
#include "fips202.h"
#ifdef X4
#include "fips202x4.h"
#define F4(f) f
#else
#define F4(f) NULL
#endif
struct vf_hash { void (*s128)(uint8_t *, size_t, const uint8_t *, size_t), (*s256)(uint8_t *, size_t, const uint8_t *, size_t), (*h256)(uint8_t *, const uint8_t *, size_t), (*h512)(uint8_t *, const uint8_t *, size_t);
  void (*x128)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t), (*x256)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t);
  size_t r128, r256, r3256, r3512; };
__attribute__((visibility("default"))) const struct vf_hash vf_hash_IMPL = { shake128, shake256, sha3_256, sha3_512, F4(shake128x4), F4(shake256x4), SHAKE128_RATE, SHAKE256_RATE, SHA3_256_RATE, SHA3_512_RATE };
"""
PROTO_TU = """
#include <stddef.h>
#include "api.h"
#include "kem.h"
#define P2(a, b) a##b
#define P1(a, b) P2(a, b)
#define N(x) P1(pqcrystals_NAME_IMPL_, x)
_Static_assert(CRYPTO_SECRETKEYBYTES == N(SECRETKEYBYTES) && CRYPTO_PUBLICKEYBYTES == N(PUBLICKEYBYTES) && CRYPTO_CIPHERTEXTBYTES == N(CIPHERTEXTBYTES) && CRYPTO_BYTES == N(BYTES), "kem.h and api.h disagree on a length");
void *vf_t[] = { crypto_kem_keypair_derand, crypto_kem_keypair, crypto_kem_enc_derand, crypto_kem_enc, crypto_kem_dec };
"""

def shared_libs():
    """All shared libraries as the Makefiles make them (in a scratch copy), one static link of everything, and the API tables."""
    top = os.path.join(BUILD, "libs-" + tree_hash())
    d = os.path.join(top, "shared")
    if os.path.exists(os.path.join(d, "ok.json")):
        return d
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    problems = {}
    src = os.path.join(tmp, "src")
    for impl in ("ref", "avx2"):
        shutil.copytree(os.path.join(REPO, impl), os.path.join(src, impl), symlinks=True, ignore=shutil.ignore_patterns("*.so", "*.o", "*.req", "*.rsp", "lib", "test_*[0-9]", "PQCgenKAT_kem*[0-9]"))
    w = os.path.join(tmp, "cc")
    open(w, "w").write(CCW)
    os.chmod(w, 0o755)
    def mk(impl):
        run(["make", "-j5", "-s", "-C", os.path.join(src, impl), "CC=" + w, "shared"], what="make shared in " + impl)
        out = []
        for root, ds, fs in os.walk(os.path.join(src, impl)):
            for f in fs:
                if f.endswith(".so"):
                    shutil.copy(os.path.join(root, f), os.path.join(tmp, "%s__%s" % (impl, f)))
                    out.append("%s__%s" % (impl, f))
        return out
    def static():
        objs, jobs = [], []
        for impl in ("ref", "avx2"):
            rd = os.path.join(REPO, impl)
            fl = AVX if impl == "avx2" else []
            hashes = [s for s in sources(impl) if k_independent(s)]
            for s in sources(impl):
                if s in hashes:
                    o = os.path.join(tmp, "st_%s_%s.o" % (impl, os.path.basename(s)))
                    jobs.append(["gcc", "-O2", "-fPIC", "-w", "-fno-common"] + fl + ["-I" + rd, "-c", s, "-o", o])
                    objs.append(o)
                else:
                    for k in (2, 3, 4):
                        o = os.path.join(tmp, "st_%s_%d_%s.o" % (impl, k, os.path.basename(s)))
                        jobs.append(["gcc", "-O2", "-fPIC", "-w", "-fno-common"] + fl + ["-I" + rd, "-DKYBER_K=%d" % k, "-c", s, "-o", o])
                        objs.append(o)
            o = os.path.join(tmp, "api_%s.o" % impl)
            t = os.path.join(tmp, "api_%s.c" % impl)
            open(t, "w").write(API_TU.replace("IMPL", impl))
            try:
                run(["gcc", "-O1", "-fPIC", "-Werror=incompatible-pointer-types", "-I" + rd, "-c", t, "-o", o], what="API header of " + impl)
                run(["gcc", "-shared", o, "-o", os.path.join(tmp, "api_%s.so" % impl)], what="API table")
                objs.append(o)
            except BuildError as e:
                problems["API header of " + impl] = str(e)[-1500:]
            o = os.path.join(tmp, "hash_%s.o" % impl)
            t = os.path.join(tmp, "hash_%s.c" % impl)
            open(t, "w").write(HASH_TU.replace("IMPL", impl))
            try:
                run(["gcc", "-O1", "-fPIC", "-Werror=incompatible-pointer-types"] + fl + (["-DX4"] if impl == "avx2" else []) + ["-I" + rd, "-c", t, "-o", o], what="hash headers of " + impl)
                run(["gcc", "-shared", o, "-o", os.path.join(tmp, "hash_%s.so" % impl)], what="hash table")
                objs.append(o)
            except BuildError as e:
                problems["hash headers of " + impl] = str(e)[-1500:]
            for k in (2, 3, 4):
                t = os.path.join(tmp, "proto_%s_%d.c" % (impl, k))
                open(t, "w").write(PROTO_TU.replace("IMPL", impl).replace("NAME", "kyber%d" % (256 * k)))
                try:
                    run(["gcc", "-fsyntax-only"] + fl + ["-DKYBER_K=%d" % k, "-I" + rd, t], what="prototypes")
                except BuildError as e:
                    problems["kem.h against api.h of %s, K=%d" % (impl, k)] = str(e)[-1500:]
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        t = os.path.join(tmp, "rb_stub.c")
        open(t, "w").write("#include <stdint.h>\n#include <stddef.h>\n__attribute__((visibility(\"default\"))) void (*vf_static_rb)(uint8_t *, size_t);\nvoid randombytes(uint8_t *out, size_t n) { vf_static_rb(out, n); }\n")
        run(["gcc", "-O1", "-fPIC", "-c", t, "-o", t[:-2] + ".o"], what="entropy stub")
        objs.append(t[:-2] + ".o")
        r = subprocess.run(["gcc", "-shared", "-Wl,-Bsymbolic", "-Wl,-z,noexecstack", "-Wl,-z,defs"] + objs + ["-o", os.path.join(tmp, "all_static.so")], env=ENV, capture_output=True, text=True, errors="replace")
        if r.returncode:
            problems["static link of all parameter sets and implementations"] = r.stderr[-1500:]
    with cf.ThreadPoolExecutor(3) as ex:
        a, b, c = ex.submit(mk, "ref"), ex.submit(mk, "avx2"), ex.submit(static)
        libs = a.result() + b.result()
        c.result()
    shutil.rmtree(src, ignore_errors=True)
    for f in glob.glob(os.path.join(tmp, "*.o")):
        os.unlink(f)
    syms = []
    for l in sorted(libs):
        for ln in run(["nm", "-D", os.path.join(tmp, l)], what="nm").splitlines():
            p = ln.split()
            syms.append("%s %s %s" % (l, p[-2], p[-1]))
    open(os.path.join(tmp, "symbols.txt"), "w").write("\n".join(syms) + "\n")
    open(os.path.join(tmp, "libs.txt"), "w").write("\n".join(sorted(libs)) + "\n")
    open(os.path.join(tmp, "problems.txt"), "w").write("".join("%s\t%s\n" % (k, v.replace("\n", " | ")) for k, v in problems.items()))
    json.dump({}, open(os.path.join(tmp, "ok.json"), "w"))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(top, exist_ok=True)
    os.rename(tmp, d)
    return d

def newer(out, deps):
    return os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(p) for p in deps)

def harness(src, fuzz=False, extra=(), ldflags=(), tag="", linker=None):
    """Compile props/<src>.cpp with the engine and the model."""
    e = os.path.join(VERIF, "engine")
    hd = os.path.join(BUILD, "bin")
    os.makedirs(hd, exist_ok=True)
    s = os.path.join(VERIF, "props", src + ".cpp")
    hdrs = glob.glob(os.path.join(e, "*.hpp")) + glob.glob(os.path.join(VERIF, "props", "*.hpp"))
    sfx = ("_fuzz" if fuzz else "") + tag
    cxx = ["clang++", "-fsanitize=fuzzer-no-link,undefined", "-DENGINE_FUZZ"] if fuzz else ["g++"]
    # the engine and model are never instrumented
    plain = ["clang++", "-DENGINE_FUZZ"] if fuzz else ["g++"]
    def obj(path, name, cc):
        o = os.path.join(hd, name + sfx + ".o")
        if not newer(o, [path] + hdrs + [os.path.abspath(__file__)]):
            t = o + ".%d" % os.getpid()
            run(cc + ["-std=c++17", "-O2", "-march=x86-64-v3", "-w", "-I" + e, "-I" + os.path.join(VERIF, "props")] + (["-O3"] if "model" in name else []) + list(extra) + ["-c", path, "-o", t], what="compile harness")
            os.rename(t, o)
        return o
    with cf.ThreadPoolExecutor(3) as ex:
        objs = list(ex.map(lambda a: obj(*a), [(os.path.join(e, "engine.cpp"), "engine", plain), (os.path.join(e, "model.cpp"), "model", plain), (s, src, plain)]))
    out = os.path.join(hd, src + sfx)
    if not newer(out, objs):
        t = out + ".%d" % os.getpid()
        if fuzz:
            run(["clang++", "-fsanitize=fuzzer,undefined", "-rdynamic"] + objs + ["-ldl", "-lpthread"] + list(ldflags) + ["-o", t], what="link harness")
        else:
            run((linker or ["g++"]) + ["-rdynamic"] + objs + ["-ldl", "-lpthread"] + list(ldflags) + ["-o", t], what="link harness")
        os.rename(t, out)
    return out
