"""Generates the per-(implementation,K) shim that exposes the repository's internal functions
under stable names, keeping only those that exist in the current tree with the documented type."""
import os, re, subprocess, sys

# name -> (C type, where)   where: 'b' both, 'r' ref only, 'a' avx2 only
FUNCS = [
 ("poly_compress", "void(uint8_t*, const poly*)", "b"),
 ("poly_decompress", "void(poly*, const uint8_t*)", "b"),
 ("poly_tobytes", "void(uint8_t*, const poly*)", "b"),
 ("poly_frombytes", "void(poly*, const uint8_t*)", "b"),
 ("poly_frommsg", "void(poly*, const uint8_t*)", "b"),
 ("poly_tomsg", "void(uint8_t*, const poly*)", "b"),
 ("poly_getnoise_eta1", "void(poly*, const uint8_t*, uint8_t)", "b"),
 ("poly_getnoise_eta2", "void(poly*, const uint8_t*, uint8_t)", "b"),
 ("poly_ntt", "void(poly*)", "b"),
 ("poly_invntt_tomont", "void(poly*)", "b"),
 ("poly_basemul_montgomery", "void(poly*, const poly*, const poly*)", "b"),
 ("poly_tomont", "void(poly*)", "b"),
 ("poly_reduce", "void(poly*)", "b"),
 ("poly_add", "void(poly*, const poly*, const poly*)", "b"),
 ("poly_sub", "void(poly*, const poly*, const poly*)", "b"),
 ("polyvec_compress", "void(uint8_t*, const polyvec*)", "b"),
 ("polyvec_decompress", "void(polyvec*, const uint8_t*)", "b"),
 ("polyvec_tobytes", "void(uint8_t*, const polyvec*)", "b"),
 ("polyvec_frombytes", "void(polyvec*, const uint8_t*)", "b"),
 ("polyvec_ntt", "void(polyvec*)", "b"),
 ("polyvec_invntt_tomont", "void(polyvec*)", "b"),
 ("polyvec_basemul_acc_montgomery", "void(poly*, const polyvec*, const polyvec*)", "b"),
 ("polyvec_reduce", "void(polyvec*)", "b"),
 ("polyvec_add", "void(polyvec*, const polyvec*, const polyvec*)", "b"),
 ("verify", "int(const uint8_t*, const uint8_t*, size_t)", "b"),
 ("cmov", "void(uint8_t*, const uint8_t*, size_t, uint8_t)", "b"),
 ("cmov_int16", "void(int16_t*, int16_t, uint16_t)", "b"),
 ("gen_matrix", "void(polyvec*, const uint8_t*, int)", "b"),
 ("indcpa_keypair_derand", "void(uint8_t*, uint8_t*, const uint8_t*)", "b"),
 ("indcpa_enc", "void(uint8_t*, const uint8_t*, const uint8_t*, const uint8_t*)", "b"),
 ("indcpa_dec", "void(uint8_t*, const uint8_t*, const uint8_t*)", "b"),
 ("kyber_shake256_prf", "void(uint8_t*, size_t, const uint8_t*, uint8_t)", "b"),
 ("kyber_shake256_rkprf", "void(uint8_t*, const uint8_t*, const uint8_t*)", "b"),
 ("kyber_shake128_absorb", "void(keccak_state*, const uint8_t*, uint8_t, uint8_t)", "b"),
 ("poly_cbd_eta1", "void(poly*, const uint8_t*)", "r"),
 ("poly_cbd_eta2", "void(poly*, const uint8_t*)", "r"),
 ("poly_cbd_eta1", "void(poly*, const __m256i*)", "a"),
 ("poly_cbd_eta2", "void(poly*, const __m256i*)", "a"),
 ("montgomery_reduce", "int16_t(int32_t)", "r"),
 ("barrett_reduce", "int16_t(int16_t)", "r"),
 ("ntt", "void(int16_t*)", "r"),
 ("invntt", "void(int16_t*)", "r"),
 ("basemul", "void(int16_t*, const int16_t*, const int16_t*, int16_t)", "r"),
 ("poly_nttunpack", "void(poly*)", "a"),
 ("rej_uniform_avx", "unsigned int(int16_t*, const uint8_t*)", "a"),
 ("poly_getnoise_eta1_4x", "void(poly*, poly*, poly*, poly*, const uint8_t*, uint8_t, uint8_t, uint8_t, uint8_t)", "a"),
 ("poly_getnoise_eta1122_4x", "void(poly*, poly*, poly*, poly*, const uint8_t*, uint8_t, uint8_t, uint8_t, uint8_t)", "a"),
 ("shake128_init", "void(keccak_state*)", "b"), ("shake256_init", "void(keccak_state*)", "b"),
 ("shake128_absorb", "void(keccak_state*, const uint8_t*, size_t)", "b"), ("shake256_absorb", "void(keccak_state*, const uint8_t*, size_t)", "b"),
 ("shake128_finalize", "void(keccak_state*)", "b"), ("shake256_finalize", "void(keccak_state*)", "b"),
 ("shake128_squeeze", "void(uint8_t*, size_t, keccak_state*)", "b"), ("shake256_squeeze", "void(uint8_t*, size_t, keccak_state*)", "b"),
 ("shake128_absorb_once", "void(keccak_state*, const uint8_t*, size_t)", "b"), ("shake256_absorb_once", "void(keccak_state*, const uint8_t*, size_t)", "b"),
 ("shake128_squeezeblocks", "void(uint8_t*, size_t, keccak_state*)", "b"), ("shake256_squeezeblocks", "void(uint8_t*, size_t, keccak_state*)", "b"),
 ("shake128", "void(uint8_t*, size_t, const uint8_t*, size_t)", "b"), ("shake256", "void(uint8_t*, size_t, const uint8_t*, size_t)", "b"),
 ("sha3_256", "void(uint8_t*, const uint8_t*, size_t)", "b"), ("sha3_512", "void(uint8_t*, const uint8_t*, size_t)", "b"),
 ("shake128x4_absorb_once", "void(keccakx4_state*, const uint8_t*, const uint8_t*, const uint8_t*, const uint8_t*, size_t)", "a"),
 ("shake256x4_absorb_once", "void(keccakx4_state*, const uint8_t*, const uint8_t*, const uint8_t*, const uint8_t*, size_t)", "a"),
 ("shake128x4_squeezeblocks", "void(uint8_t*, uint8_t*, uint8_t*, uint8_t*, size_t, keccakx4_state*)", "a"),
 ("shake256x4_squeezeblocks", "void(uint8_t*, uint8_t*, uint8_t*, uint8_t*, size_t, keccakx4_state*)", "a"),
 ("shake128x4", "void(uint8_t*, uint8_t*, uint8_t*, uint8_t*, size_t, const uint8_t*, const uint8_t*, const uint8_t*, const uint8_t*, size_t)", "a"),
 ("shake256x4", "void(uint8_t*, uint8_t*, uint8_t*, uint8_t*, size_t, const uint8_t*, const uint8_t*, const uint8_t*, const uint8_t*, size_t)", "a"),
 ("KeccakP1600times4_InitializeAll", "void(void*)", "a"),
 ("KeccakP1600times4_AddBytes", "void(void*, unsigned, const unsigned char*, unsigned, unsigned)", "a"),
 ("KeccakP1600times4_AddLanesAll", "void(void*, const unsigned char*, unsigned, unsigned)", "a"),
 ("KeccakP1600times4_OverwriteBytes", "void(void*, unsigned, const unsigned char*, unsigned, unsigned)", "a"),
 ("KeccakP1600times4_OverwriteLanesAll", "void(void*, const unsigned char*, unsigned, unsigned)", "a"),
 ("KeccakP1600times4_OverwriteWithZeroes", "void(void*, unsigned, unsigned)", "a"),
 ("KeccakP1600times4_PermuteAll_12rounds", "void(void*)", "a"),
 ("KeccakP1600times4_PermuteAll_24rounds", "void(void*)", "a"),
 ("KeccakP1600times4_ExtractBytes", "void(const void*, unsigned, unsigned char*, unsigned, unsigned)", "a"),
 ("KeccakP1600times4_ExtractLanesAll", "void(const void*, unsigned char*, unsigned, unsigned)", "a"),
 ("KeccakP1600times4_ExtractAndAddBytes", "void(const void*, unsigned, const unsigned char*, unsigned char*, unsigned, unsigned)", "a"),
 ("KeccakP1600times4_ExtractAndAddLanesAll", "void(const void*, const unsigned char*, unsigned char*, unsigned, unsigned)", "a"),
 ("KeccakF1600times4_FastLoop_Absorb", "size_t(void*, unsigned, unsigned, unsigned, const unsigned char*, size_t)", "a"),
 ("KeccakP1600times4_12rounds_FastLoop_Absorb", "size_t(void*, unsigned, unsigned, unsigned, const unsigned char*, size_t)", "a"),
]
PRE = r'''
#include <stddef.h>
#include <stdint.h>
#if __has_include("align.h")
#include <immintrin.h>
#include "align.h"
#endif
#include "params.h"
#if __has_include("kem.h")
#include "kem.h"
#endif
#include "poly.h"
#include "polyvec.h"
#include "indcpa.h"
#if __has_include("ntt.h")
#include "ntt.h"
#endif
#if __has_include("reduce.h")
#include "reduce.h"
#endif
#if __has_include("verify.h")
#include "verify.h"
#endif
#if __has_include("cbd.h")
#include "cbd.h"
#endif
#if __has_include("fips202.h")
#include "fips202.h"
#endif
#if __has_include("fips202x4.h")
#include "fips202x4.h"
#endif
#if __has_include("symmetric.h")
#include "symmetric.h"
#endif
#if __has_include("rejsample.h")
#include "rejsample.h"
#endif
#if __has_include("keccak4x/KeccakP-1600-times4-SnP.h")
#include "keccak4x/KeccakP-1600-times4-SnP.h"
#endif
'''

def generate(repo_dir, impl, k, out, cflags, wd):
    """Write shim C file `out`; returns the list of functions left out."""
    w = {"ref": "r", "avx2": "a"}[impl]
    fs = [(n, t) for n, t, x in FUNCS if x in ("b", w)]
    probe = os.path.join(wd, "probe_%s_%d.c" % (impl, k))
    lines = PRE.split("\n")
    base = len(lines)
    for n, t in fs:
        lines.append('_Static_assert(__builtin_types_compatible_p(__typeof__(%s), %s), "t"); extern __typeof__(%s) %s __attribute__((weak));' % (n, t, n, n))
    lines.append('_Static_assert(sizeof(poly)==512,"poly"); _Static_assert(sizeof(polyvec)==512*KYBER_K,"polyvec");')
    open(probe, "w").write("\n".join(lines) + "\n")
    r = subprocess.run(["gcc", "-w", "-fmax-errors=0", "-fsyntax-only", "-DKYBER_K=%d" % k, "-I" + repo_dir] + cflags + [probe], capture_output=True, text=True)
    bad = set(int(m.group(1)) for m in re.finditer(r"probe_%s_%d\.c:(\d+):\d+: error" % (impl, k), r.stderr))
    polybad = len(lines) in bad
    skipped, keep = [], []
    for i, (n, t) in enumerate(fs):
        if base + i + 1 in bad or (polybad and "poly" in t):
            skipped.append(n)
        else:
            keep.append(n)
    if any(b <= base for b in bad) or (r.returncode and not bad):
        # headers themselves do not parse in this arrangement: expose nothing
        skipped, keep = [n for n, _ in fs], []
        src = "#include <stddef.h>\n#include <stdint.h>\n"
    else:
        src = PRE
    for n in keep:
        src += "extern __typeof__(%s) %s __attribute__((weak));\n" % (n, n)
    src += "struct vf_entry { const char *name; void *p; };\n__attribute__((visibility(\"default\"))) const struct vf_entry vf_table[] = {\n"
    for n in keep:
        src += '  {"%s", (void*)%s},\n' % (n, n)
    src += "  {0, 0}};\n"
    if keep:
        src += "__attribute__((visibility(\"default\"))) const size_t vf_keccak_state_size = sizeof(keccak_state);\n"
    open(out, "w").write(src)
    return skipped

if __name__ == "__main__":
    print(generate(*sys.argv[1:3], int(sys.argv[3]), sys.argv[4], [], "/tmp"))
