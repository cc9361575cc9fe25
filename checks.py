"""The table of checks."""
import os
import build
from check import Check
LEVEL = {}
_T = {}
def reg(c):
    _T[c.pid] = c
    return c
def get(pid):
    if pid not in _T:
        raise SystemExit("unknown property " + pid)
    return _T[pid]
reg(Check("C01", "c01", fuzz_runs=(60000, 4000000)))
reg(Check("C02", "c02", fuzz_runs=(20000, 1500000)))
reg(Check("C03", "c03", fuzz_runs=(40000, 3000000)))
reg(Check("C04", "c04", fuzz_runs=(40000, 3000000)))
reg(Check("C09", "c09", fuzz_runs=(1000000, 6000000)))
reg(Check("C10", "c10", fuzz_runs=(400000, 6000000)))
reg(Check("C19", "c19", fuzz_runs=(800000, 20000000)))
reg(Check("C20", "c20", fuzz_runs=(20000, 2000000)))
reg(Check("C05", "c05", fuzz_runs=(8000, 800000)))
reg(Check("C07", "c07", fuzz_runs=(8000, 800000)))
reg(Check("C12", "c12", fuzz_runs=(20000, 2000000)))
reg(Check("C11", "c11", fuzz_runs=(40000, 4000000)))
reg(Check("C13", "c13", libs=("stub", "std"), optional_libs=("stubbmi", "bmi"), fuzz_runs=(16000, 2000000), fuzz_libs=(("stub", "fuzzstub"),)))
def _entropy(c, env, res):
    import build
    d, sk = build.entropy_libs()
    env["VF_ENTROPY"] = d
    for k, v in sk.items():
        res.notes["branch %s not built" % k] = v
reg(Check("C08", "c08", libs=(), pre=_entropy))
def _kat(c, env, res):
    import build
    d, sk = build.kat_libs()
    env["VF_KAT"] = d
reg(Check("C17", "c17", libs=(), pre=_kat))
_SAN = dict(ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=1")
reg(Check("C15", "c15", passes=[
    dict(name="guard", libs=("std",), optional=("bmi",), env=dict(VF_MEM="0")),
    dict(name="sanitizers", libs=("asan",), env=dict(VF_MEM="1", **_SAN), linker=["clang++", "-fsanitize=address,undefined", "-fsanitize-link-c++-runtime"], tag="_asan"),
    dict(name="memcheck", libs=("std",), env=dict(VF_MEM="2"), wrap=["valgrind", "-q", "--log-file=/dev/null", "--child-silent-after-fork=yes", "--undef-value-errors=yes"]),
]))
reg(Check("C18", "c18", libs=(), pre=_kat))

def _shared(c, env, res):
    import build
    env["VF_SHARED"] = build.shared_libs()
reg(Check("C16", "c16", pre=_shared))

_O3, _OS = "ct:gcc:-O3:-fomit-frame-pointer", "ct:gcc:-Os"
_VG = ["valgrind", "-q", "--log-file=" + os.path.join(build.BUILD, "ctlog.%p"), "--child-silent-after-fork=no", "--undef-value-errors=yes", "--error-limit=no"]
_TE = dict(VF_CT="taint", VF_CTLOG=os.path.join(build.BUILD, "ctlog"))
reg(Check("C14", "c14", passes=[
    dict(name="taint O3", libs=(_O3,), env=_TE, wrap=_VG),
    dict(name="taint Os", libs=(_OS,), env=_TE, wrap=_VG),
    dict(name="taint clang O1", libs=("ct:clang:-O1",), env=_TE, wrap=_VG),
    dict(name="taint clang Os", libs=("ct:clang:-Os",), env=_TE, wrap=_VG),
    dict(name="taint clang O3", libs=("ct:clang:-O3",), env=_TE, wrap=_VG, tier="thorough"),
    dict(name="taint clang O0", libs=("ct:clang:-O0",), env=_TE, wrap=_VG, tier="thorough"),
    dict(name="taint clang O2", libs=("ct:clang:-O2",), env=_TE, wrap=_VG, tier="thorough"),
    dict(name="taint gcc O0", libs=("ct:gcc:-O0",), env=_TE, wrap=_VG, tier="thorough"),
    dict(name="taint gcc O1", libs=("ct:gcc:-O1",), env=_TE, wrap=_VG, tier="thorough"),
    dict(name="taint gcc O2", libs=("ct:gcc:-O2",), env=_TE, wrap=_VG, tier="thorough"),
    dict(name="stepping", libs=(_O3, _OS), env=dict(VF_CT="step")),
]))
reg(Check("C06", "c06", libs=("std", "trace", "trace0"), pre=_entropy))
CFGS = ["gcc:-O0", "gcc:-O1:-DNDEBUG", "gcc:-O2:-funsigned-char", "gcc:-Os", "gcc:-O3:-flto:-fno-semantic-interposition", "gcc:-O3:-DBMI:-DNDEBUG:-march=haswell",
        "gcc:-O2:-ftrivial-auto-var-init=pattern:-mstackrealign", "clang:-O0", "clang:-O1:-funsigned-char", "clang:-O3", "clang:-Os:-std=c99", "clang:-O2:-DBMI:-ftrivial-auto-var-init=pattern"]
CFGS_MORE = ["gcc:-Og", "gcc:-O3:-march=x86-64-v3:-fno-strict-aliasing", "gcc:-O3:-fwrapv:-fno-inline", "gcc:-O3:-fstack-protector-all:-D_FORTIFY_SOURCE=2", "gcc:-O3:-funroll-all-loops:-mtune=skylake",
             "gcc:-O1:-mincoming-stack-boundary=3", "gcc:-O3:-std=c99:-DNDEBUG:-fno-pic:-mcmodel=large", "gcc:-O0:-DBMI", "clang:-O2", "clang:-Oz:-DBMI", "clang:-O3:-flto", "clang:-O0:-DBMI:-funsigned-char", "clang:-O3:-fwrapv:-fno-vectorize", "gcc:-Ofast"]
reg(Check("C21", "c21", passes=[dict(name="", libs=("std",), optional=tuple("cfg:" + x for x in CFGS), tier="quick"), dict(name="all builds", libs=("std",), optional=tuple("cfg:" + x for x in CFGS + CFGS_MORE), tier="thorough")]))

def _port(c, env, res):
    import build
    d, sk = build.port_images()
    env["VF_PORT"] = d
    for k, v in sk.items():
        res.notes["image %s not built" % k] = v
reg(Check("C22", "c22", pre=_port))
reg(Check("C23", "c23", libs=("std", "trace", "trace0"), pre=_entropy))
def _both(c, env, res):
    _entropy(c, env, res)
    _kat(c, env, res)
reg(Check("C24", "c24", libs=("std",), pre=_both))
