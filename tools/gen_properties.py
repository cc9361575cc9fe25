#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

prop("C01", "Encapsulation and decapsulation always agree on the shared secret",
 "For every key pair produced from any 64 bytes of coins and every encapsulation to that public key with any 32 bytes of coins, decapsulating the ciphertext with the secret key returns the same 32-byte shared secret, and every call returns 0. This holds for each of the three parameter sets, through the deterministic and the randomized entry points, for any number of encapsulations to one key, and when key generation, encapsulation and decapsulation are performed by different implementations (portable and vectorised).",
 ["inputs", "histories"], "all 64-byte key coins, all 32-byte encapsulation coins, both implementations in every role, parameter sets 512/768/1024, randomized and deterministic API",
 "test_kyber does 1000 random round trips per build inside one implementation, test_vectors 10000 fixed ones; never across implementations, never with structured coins, and 10^4 samples leave rarer input classes unvisited.",
 ["ref/kem.c", "ref/indcpa.c", "avx2/kem.c", "avx2/indcpa.c", "ref/poly.c", "ref/polyvec.c", "avx2/poly.c", "avx2/polyvec.c"],
 [("re-encryption with coins derived from the decrypted message", "ref/kem.c crypto_kem_dec"), ("noise small against the rounding threshold", "ref/indcpa.c indcpa_enc/indcpa_dec")],
 ["return values and shared secrets of keypair/enc/dec"])

prop("C02", "Key generation, encapsulation, decapsulation are exactly ML-KEM",
 "For every input the deterministic operations output exactly the bytes the ML-KEM standard prescribes for the parameter set: key pair from 64 bytes of coins, ciphertext and shared secret from any canonical public key and 32 bytes of coins, and the shared secret (true or rejection key) from a generated secret key and any ciphertext. Both implementations satisfy this.",
 ["inputs"], "all key coins, all canonical public keys (honest or not), all encapsulation coins, all ciphertext byte strings; three parameter sets, two implementations",
 "test_vectors hashes the outputs of one fixed chain of 10000 generated inputs; a deviation confined to other inputs (structured coins, public keys that are not generated honestly, particular ciphertexts) leaves the hash unchanged, and the tests have no independent specification to compare to.",
 ["ref/kem.c", "ref/indcpa.c", "ref/symmetric-shake.c", "avx2/kem.c", "avx2/indcpa.c", "avx2/symmetric-shake.c"],
 [("domain separation and hashing order", "ref/kem.c, ref/symmetric-shake.c"), ("matrix/noise generation order and nonces", "ref/indcpa.c, avx2/indcpa.c"), ("packing", "ref/polyvec.c, ref/poly.c")],
 ["pk, sk, ct, ss bytes of the *_derand and dec entry points"])

prop("C03", "Any modified ciphertext is implicitly rejected with the keyed rejection secret",
 "Decapsulating any byte string of ciphertext length that is not exactly an honest encapsulation to that key returns 0 and yields SHAKE256(z || ciphertext), where z is the last 32 bytes of the secret key, never the honest shared secret. The unmodified ciphertext is always accepted, and no choice or combination of differing bytes (cancelling, equal, counted, aligned or at the ends) is treated as equal.",
 ["inputs"], "all secret keys, all ciphertexts at any Hamming distance from an honest one, including every single-bit change, differences that cancel under xor or addition, splices of two honest ciphertexts and ciphertexts for other keys",
 "test_kyber flips one random byte 1000 times and only checks that the secrets differ; test_vectors decapsulates uniformly random strings, which differ from the re-encryption almost everywhere. Nothing covers ciphertexts that differ in few or correlated bytes or checks the value for them.",
 ["ref/kem.c", "ref/verify.c", "avx2/kem.c", "avx2/verify.c", "ref/symmetric-shake.c"],
 [("constant-time comparison of the whole ciphertext", "ref/verify.c verify, avx2/verify.c verify"), ("rejection key and conditional move", "ref/kem.c crypto_kem_dec, ref/symmetric-shake.c")],
 ["shared secret returned by dec"])

prop("C04", "Portable and vectorised implementations are the same function on all bytes",
 "For every byte string of the right length passed as coins, public key, secret key or ciphertext, including public and secret keys with coefficients outside [0,q) and inconsistent secret keys, the portable and the AVX2 implementation of a parameter set return identical bytes and return codes.",
 ["inputs"], "all argument byte strings of the documented lengths, canonical or not; three parameter sets",
 "The tests compare the two implementations only through the hash of the same 10000 honest vectors; a disagreement on keys that no honest generation outputs is invisible, although the API accepts them.",
 ["ref/indcpa.c", "ref/poly.c", "ref/ntt.c", "avx2/indcpa.c", "avx2/poly.c", "avx2/polyvec.c", "avx2/rejsample.c", "avx2/ntt.S", "avx2/invntt.S", "avx2/basemul.S", "avx2/shuffle.S", "avx2/fq.S"],
 [("same arithmetic in different coefficient order and reduction schedule", "avx2/ntt.S, avx2/invntt.S, avx2/basemul.S"), ("unpacking of 12-bit coefficients without range check", "ref/poly.c poly_frombytes, avx2/shuffle.S")],
 ["outputs of both implementations' entry points"])

prop("C05", "Operations are pure: no hidden state, inputs untouched, placement irrelevant",
 "The result of every deterministic operation is a function of its input bytes only: it does not depend on earlier calls of any operation or parameter set, on previous contents of output buffers, stack or heap, or on the address or alignment of any argument. No operation writes to its input buffers, and each fills its documented output bytes completely.",
 ["histories", "inputs"], "all finite sequences of API calls over several keys and parameter sets, all buffer alignments, all prior contents of outputs and stack",
 "Each test runs one fixed order of calls with compiler-aligned local arrays and never replays an earlier call in a different context or compares input buffers afterwards.",
 ["ref/kem.c", "ref/indcpa.c", "ref/fips202.c", "avx2/kem.c", "avx2/indcpa.c", "avx2/poly.c", "avx2/polyvec.c", "avx2/fips202x4.c"],
 [("only automatic storage, const tables", "ref/*.c, avx2/*.c"), ("unaligned loads for caller memory, aligned local buffers", "avx2/indcpa.c gen_matrix, avx2/poly.c, avx2/polyvec.c")],
 ["outputs and input buffers around each call"])

prop("C06", "Concurrent calls do not interfere under any interleaving",
 "When several threads run key generation, encapsulation, decapsulation, hashing or the entropy source at the same time, on shared read-only inputs and separate outputs, every call returns exactly what it returns when run alone (for the entropy source: the bytes the operating system delivered to it), under every interleaving of their execution.",
 ["schedules"], "all interleavings (at basic-block granularity) of 2 to 4 threads, each performing any sequence of API calls on shared or separate inputs",
 "All existing tests are single-threaded.",
 ["ref/kem.c", "ref/indcpa.c", "ref/fips202.c", "avx2/indcpa.c", "avx2/fips202x4.c", "ref/randombytes.c"],
 [("no writable static storage in the computation", "ref/*.c, avx2/*.c"), ("the only static is the entropy file descriptor of the fallback source", "ref/randombytes.c")],
 ["outputs of each thread's calls"])

prop("C07", "Randomized operations use exactly the drawn entropy, all of it, and nothing else",
 "Randomized key generation draws exactly 64 bytes and randomized encapsulation exactly 32 bytes from the entropy source, and their outputs equal those of the deterministic operation on the drawn bytes in order; decapsulation and the deterministic operations draw none. Every single bit of the drawn entropy affects the output.",
 ["inputs", "histories"], "all entropy byte streams and all sequences of randomized and deterministic calls; every bit position of the drawn bytes",
 "test_kyber and test_vectors never look at how much entropy is drawn or whether it is all used: a generator that ignores half of its seed, reuses coins between calls or hashes in something else still round-trips.",
 ["ref/kem.c", "avx2/kem.c", "ref/randombytes.h", "avx2/randombytes.h"],
 [("coins buffer filled then handed to the deterministic operation", "ref/kem.c crypto_kem_keypair, crypto_kem_enc; avx2/kem.c same")],
 ["calls to the entropy source and outputs of keypair/enc"])

prop("C08", "The entropy source fills every requested byte from the OS or aborts",
 "For every requested length and every sequence of operating-system results (short reads, interruptions, errors, failing opens), the entropy function returns only after every requested byte holds the next byte delivered by the operating system, in order, with nothing written outside the buffer; a permanent failure terminates the process rather than return. This holds for each of the supported platform code paths.",
 ["fault_sequences", "inputs", "configurations"], "all lengths (0, 1, larger than one OS request), all finite sequences of short counts, EINTR and other errors at every call, on the getrandom, NetBSD, /dev/urandom and Windows code paths",
 "The tests call it with 32 or 64 bytes on a healthy Linux kernel, which always delivers everything at once; no retry, short-read or error branch, and none of the other platform branches, is ever executed.",
 ["ref/randombytes.c", "avx2/randombytes.c"],
 [("retry loop advancing by the delivered count", "ref/randombytes.c"), ("abort on any error but EINTR", "ref/randombytes.c")],
 ["system-call results injected beneath randombytes; the buffer and process fate"],
 state=[("fd", "descriptor of the fallback source, opened once", "ref/randombytes.c")])

prop("C09", "SHA3-256, SHA3-512, SHAKE128, SHAKE256 conform to FIPS 202 for any chunking",
 "For every message and output length the one-shot hash functions return the FIPS 202 value, and the incremental SHAKE interface returns the same stream for every way of splitting the message into absorb calls and the output into squeeze calls, including empty pieces and pieces ending exactly at block boundaries. Block-wise squeezing and absorb-once produce the same stream, and independent states do not affect each other.",
 ["inputs", "histories"], "all messages, output lengths, and splits into absorb/squeeze/squeeze-blocks calls, in both shipped hash libraries",
 "Kyber itself hashes a handful of fixed lengths, so the tests never exercise most lengths, multi-piece absorption across block boundaries or incremental squeezing; there is no SHA-3 test in the repository although the hash libraries are built as public shared objects.",
 ["ref/fips202.c", "avx2/fips202.c"],
 [("sponge position bookkeeping", "ref/fips202.c keccak_absorb, keccak_squeeze"), ("padding and domain bytes", "ref/fips202.c keccak_finalize, keccak_absorb_once")],
 ["digests and output streams of the fips202 API"], state=[("keccak_state.pos", "position inside the current block", "ref/fips202.h")])

prop("C10", "Four-way SHAKE: each lane equals the single-lane function, lanes independent",
 "For every four messages of equal length and every output length, each lane of the four-way SHAKE128/SHAKE256 functions (one-shot, and absorb-once followed by any sequence of block squeezes) equals the FIPS 202 value of that lane's message and depends on no other lane. The shipped four-way Keccak state functions (adding, overwriting, extracting bytes or lanes at any offset, 24- and 12-round permutations, fast absorb loops) act on each lane like their single-lane definitions.",
 ["inputs", "histories"], "all quadruples of messages, lengths, output lengths and split of squeezes; all sequences of state operations with any instance, offset and length",
 "Kyber only uses lengths 33 and 34 with 1 to 3 blocks; other lengths (multi-block input, lengths that are or are not multiples of 8, partial last block) and most state functions of the shipped library are never run by any test.",
 ["avx2/fips202x4.c", "avx2/keccak4x/KeccakP-1600-times4-SIMD256.c"],
 [("gathered lane-interleaved absorption", "avx2/fips202x4.c keccakx4_absorb_once"), ("vectorised permutation", "avx2/keccak4x/KeccakP-1600-times4-SIMD256.c")],
 ["output streams and extracted state bytes per lane"])

prop("C11", "Ring arithmetic is exact in Z_q[X]/(X^256+1) over the whole input ranges",
 "Transforming, multiplying pointwise, accumulating and transforming back equals multiplication in Z_q[X]/(X^256+1), with no coefficient ever wrong because of overflow, for all coefficient values that the operations document or that can be unpacked from bytes, including all-maximal and all-minimal vectors. Scalar reductions return the documented congruent representative for every input in their documented range, and addition, subtraction, reduction and domain conversion are exact coefficient-wise.",
 ["inputs"], "all polynomials with coefficients in the documented ranges (unpacked values up to 4095, noise, decompressed values, extremes), every scalar input of the reductions (exhaustively), both implementations, every vector length",
 "Tests only reach arithmetic through honest keys and ciphertexts, whose coefficients are uniform or tiny: worst-case sums, extreme coefficients and range boundaries, where missing reductions overflow 16 bits, practically never occur.",
 ["ref/reduce.c", "ref/ntt.c", "ref/poly.c", "ref/polyvec.c", "avx2/ntt.S", "avx2/invntt.S", "avx2/basemul.S", "avx2/fq.S", "avx2/consts.c", "avx2/poly.c", "avx2/polyvec.c"],
 [("Montgomery and Barrett reduction", "ref/reduce.c, avx2/fq.inc"), ("lazy reduction schedule of the transforms", "ref/ntt.c, avx2/ntt.S, avx2/invntt.S"), ("accumulated base multiplication", "ref/polyvec.c, avx2/basemul.S, avx2/polyvec.c")],
 ["polynomial-level functions, compared modulo q"])

prop("C12", "Serialisation and lossy compression are exact for every coefficient value",
 "Encoding then decoding any polynomial with coefficients below q returns it, every 12-bit string decodes to coefficients with those values, and message encoding maps bits to 0 and (q+1)/2 and decodes every coefficient by exact rounding. Compression of every coefficient value at every position equals the exact rounding formula of the standard, decompression likewise, compressing a decompressed value returns it, and the error of a compress-decompress trip never exceeds the standard's bound.",
 ["inputs"], "every coefficient value in the accepted range at every coefficient position and vector index, every compressed value, every message, any neighbouring coefficients; parameter sets 512/768/1024, both implementations",
 "Honest ciphertexts visit values at random positions; an error for one coefficient value at one vector position, or only for the boundary value q-1 or a negative representative, survives 10000 vectors with high probability.",
 ["ref/poly.c", "ref/polyvec.c", "avx2/poly.c", "avx2/polyvec.c", "avx2/shuffle.S"],
 [("division replaced by multiplication and shift", "ref/poly.c poly_compress, poly_tomsg; ref/polyvec.c polyvec_compress; avx2/poly.c; avx2/polyvec.c"), ("bit packing", "ref/poly.c poly_tobytes/poly_frombytes, avx2/shuffle.S")],
 ["packed bytes and decoded coefficients"])

prop("C13", "Sampling follows the specified map from every XOF and PRF output",
 "For every possible output of the extendable-output and pseudo-random functions, matrix entries are exactly the accepted 12-bit candidates in order (as many further blocks being drawn as needed, each entry from its own stream for its row and column), and noise coefficients are exactly the centered binomial value of the corresponding bits. Keys and ciphertexts computed from any such streams equal those of the specification computed from the same streams.",
 ["inputs"], "all byte streams in place of SHAKE128(seed,x,y) and SHAKE256(key,nonce): many rejected candidates, acceptance exactly at block ends, several extra blocks, only some of four parallel entries needing more, all-ones/all-zeros noise; transposed and not; all nonces",
 "Real SHAKE output needs a second extra block with negligible probability and produces only typical candidate patterns and noise, so the tests cannot reach long rejection runs, unequal lane progress or extreme noise.",
 ["ref/indcpa.c", "ref/cbd.c", "avx2/indcpa.c", "avx2/rejsample.c", "avx2/cbd.c", "avx2/poly.c", "ref/symmetric-shake.c", "avx2/symmetric-shake.c"],
 [("rejection sampling loops", "ref/indcpa.c gen_matrix/rej_uniform, avx2/indcpa.c gen_matrix, avx2/rejsample.c"), ("centered binomial sampler", "ref/cbd.c, avx2/cbd.c")],
 ["keys, ciphertexts and secrets computed over a substituted hash layer; sampler functions"])

prop("C14", "Execution trace and memory addresses do not depend on secrets",
 "For every operation, the sequence of executed instructions, the addresses of all memory accesses and the operands of variable-time division are the same for any two secret inputs that agree on the public data: the secret key in decapsulation (including whether the ciphertext is accepted or rejected), the message and coins in encapsulation, and the noise seed in key generation; compiled by gcc or clang, with the project's flags or optimised for size. Comparison and conditional-copy helpers do not depend on the compared or copied contents or on the condition.",
 ["inputs", "configurations"], "all pairs of secrets with equal public data, for each operation, parameter set and implementation, as compiled by gcc or clang with the project's flags, without optimisation or optimised for size",
 "Functional tests observe only outputs; an early-exit comparison, a secret-dependent branch, table lookup or division returns the same bytes.",
 ["ref/kem.c", "ref/verify.c", "ref/poly.c", "ref/polyvec.c", "ref/cbd.c", "ref/indcpa.c", "avx2/verify.c", "avx2/cbd.c", "avx2/poly.c"],
 [("branch-free compare and conditional move", "ref/verify.c, avx2/verify.c"), ("division-free compression", "ref/poly.c, ref/polyvec.c"), ("branch-free message expansion", "ref/poly.c poly_frommsg via cmov_int16")],
 ["instruction and address traces of two runs"])

prop("C15", "Memory safety: no access outside the documented buffers, no undefined behaviour",
 "For every input bytes and every permitted length, no operation of the KEM, hashing or helper interfaces reads or writes outside the documented extent of its arguments (plus documented padding), reads uninitialised memory into its result, or executes undefined behaviour, wherever the buffers are placed.",
 ["inputs"], "all argument bytes (valid or garbage), all message and output lengths of the hash functions, all placements of each buffer against unmapped memory on either side",
 "valgrind runs cover honest inputs with stack arrays in which small over-reads stay inside the frame, and only the lengths Kyber itself uses; no sanitizer or guard page is used.",
 ["ref/kem.c", "ref/indcpa.c", "ref/fips202.c", "ref/poly.c", "ref/polyvec.c", "avx2/indcpa.c", "avx2/poly.c", "avx2/polyvec.c", "avx2/fips202x4.c", "avx2/rejsample.c", "avx2/shuffle.S"],
 [("fixed-size buffers with documented padding", "avx2/poly.h, avx2/polyvec.h, avx2/cbd.h"), ("vector loads limited to argument extent", "avx2/poly.c, avx2/polyvec.c, avx2/fips202x4.c")],
 ["faults at guard pages, canaries around outputs, sanitizer reports"])

prop("C16", "All libraries coexist in one process under the published names and sizes",
 "Every parameter set and both implementations can be linked into one program together with the hash libraries: every function declared by the published API and hash headers is exported under that name with that prototype, with lengths equal to what the functions read and write, no symbol outside the project's namespace is defined, no symbol is defined by two of the libraries, and none is missing. In such a program any interleaving of calls to all of them gives the same results as each alone.",
 ["programs", "histories"], "all programs that link any combination of the shipped libraries through the published headers, and all call sequences across them",
 "Each test program links exactly one parameter set of one implementation with its own objects, never the shared libraries, and never includes the published API header.",
 ["ref/api.h", "avx2/api.h", "ref/params.h", "avx2/params.h", "ref/fips202.h", "avx2/fips202.h", "avx2/fips202x4.h", "ref/Makefile", "avx2/Makefile", "avx2/keccak4x/KeccakP-1600-times4-SnP.h"],
 [("name-spacing macros", "ref/params.h, avx2/params.h, ref/fips202.h, avx2/fips202.h, avx2/fips202x4.h, avx2/consts.h"), ("published constants", "ref/api.h, avx2/api.h")],
 ["symbol tables of the shared libraries, results of generated programs linked against all of them"])

prop("C17", "The NIST test generator is the specified CTR_DRBG for any call sequence",
 "After initialisation with any 48-byte entropy input and optional personalization string, any sequence of requests of any lengths returns exactly the bytes of AES-256 CTR_DRBG without derivation function, and re-initialisation restarts the stream independently of the past. The seed expander returns for any seed, diversifier, maximum length and sequence of request sizes the AES-256 counter stream it documents, and reports misuse (null output, lengths beyond the remainder or limit) with the documented error codes without producing output.",
 ["histories", "inputs"], "all entropy inputs, personalization strings and request-length sequences including counter-byte carries; all seeds, diversifiers, maximum lengths and request sequences of the expander",
 "The tests only run the KAT programs and look at the exit status; outputs are not compared and the expander is never called.",
 ["ref/nistkat/rng.c", "ref/nistkat/rng.h"],
 [("counter increment and update", "ref/nistkat/rng.c randombytes, AES256_CTR_DRBG_Update"), ("buffered expander", "ref/nistkat/rng.c seedexpander")],
 ["output bytes and return codes of the generator and expander"],
 state=[("DRBG_ctx", "key, counter block and reseed counter", "ref/nistkat/rng.c")])

prop("C18", "KAT request and response files are complete, well-formed and correct",
 "Running the KAT generator produces a request and a response file whose records carry consecutive counts, the generator's seeds, and public key, secret key, ciphertext and shared secret equal to those of the standard under the generator's deterministic randomness, in the documented text format, with the return status telling success. The text helpers are exact: writing any byte string as hexadecimal and reading it back returns it, and a marker is found exactly where it occurs in the stream, whatever precedes it.",
 ["inputs", "histories"], "all records of the generated files for the three parameter sets; all byte strings and lengths, all file contents with markers at any position, partial matches and malformed or short hexadecimal fields",
 "The test only checks the exit status of the program; the files are neither read back nor compared.",
 ["ref/nistkat/PQCgenKAT_kem.c", "ref/nistkat/rng.c", "ref/kem.c"],
 [("FindMarker / ReadHex / fprintBstr", "ref/nistkat/PQCgenKAT_kem.c"), ("request-response loop with self-check", "ref/nistkat/PQCgenKAT_kem.c main")],
 ["generated .req/.rsp files; helper functions on generated files"])

prop("C19", "Comparison and conditional-copy helpers are exact for every length and content",
 "The comparison helper reports equal exactly when all compared bytes are equal, for every length (including 0 and lengths that are not multiples of a vector width), every alignment and every pattern of differences, and looks at nothing beyond the length. The conditional copies leave the destination unchanged for condition 0 and make it equal to the source for condition 1, for every content, length, alignment and value, touching nothing else.",
 ["inputs"], "all lengths 0..several kilobytes, all difference patterns (exhaustive single positions and bits, cancelling and dense patterns), all alignments, both condition values, all 16-bit values",
 "Inside the KEM the helpers run only with ciphertext and key lengths; tests reach them through honest or randomly modified ciphertexts, so short, odd-length or specially structured inputs are never tried.",
 ["ref/verify.c", "avx2/verify.c"],
 [("vector loop with scalar tail", "avx2/verify.c verify, cmov"), ("accumulated difference", "ref/verify.c")],
 ["return value and destination bytes"])

prop("C20", "Secrets bind to the whole public key, message and rejection value",
 "Changing any single bit of the public key, of the encapsulated message coins or of the key-generation coins changes the derived shared secret (or the key pair) unpredictably, while the rejection secret depends on every bit of the stored rejection value and of the ciphertext but not on the true message. The secret key has the documented layout: its parts equal the public key, its hash and the second half of the coins, and altering the stored public key or stored hash makes decapsulation of honest ciphertexts reject.",
 ["inputs"], "every bit position of public key, message coins, key coins, stored hash, stored public key, stored rejection value and ciphertext; all keys",
 "No test flips bits of public keys, coins or parts of the secret key and observes what changes; a construction that hashes only part of the public key or coins still round-trips.",
 ["ref/kem.c", "avx2/kem.c", "ref/symmetric-shake.c", "avx2/symmetric-shake.c"],
 [("hashing of the public key into the shared secret", "ref/kem.c crypto_kem_enc_derand"), ("stored hash and rejection value", "ref/kem.c crypto_kem_keypair_derand, crypto_kem_dec")],
 ["shared secrets and keys before and after a bit change"])

prop("C21", "Results do not depend on compiler, optimisation level or build option",
 "For every input, builds of the same sources with any supported compiler (gcc, clang), optimisation level, char signedness, link-time or whole-program compilation, stack alignment and the optional bit-manipulation sampling path give identical results for all entry points.",
 ["configurations", "inputs"], "all combinations of compiler, optimisation level and code-generation options that the sources accept, and all inputs",
 "The tests run one binary per parameter set, built by one compiler at -O3.",
 ["ref/kem.c", "ref/indcpa.c", "ref/poly.c", "ref/verify.c", "avx2/rejsample.c", "avx2/poly.c", "avx2/polyvec.c", "avx2/verify.c", "avx2/keccak4x/KeccakP-1600-times4-SIMD256.c"],
 [("no implementation-defined or undefined constructs that matter", "ref/*.c, avx2/*.c"), ("alternative sampling path", "avx2/rejsample.c #ifdef BMI")],
 ["outputs of the entry points of each build"])

prop("C22", "The portable implementation is portable: word size, byte order, alignment rules",
 "For every input the portable implementation, compiled for a platform with 32-bit words, with big-endian byte order, with strict alignment of loads and stores, or with other char signedness, returns the same bytes and status from key generation, encapsulation, decapsulation, hashing, comparison and conditional copies as on a 64-bit little-endian machine, wherever its byte arguments are placed and whatever memory held before.",
 ["configurations", "inputs"], "all conforming platforms (data model, byte order, alignment), all inputs, all placements of byte arguments",
 "The tests run on the 64-bit little-endian machine at hand only, where a native-order word load, a too narrow shift operand or a misaligned access has no effect.",
 ["ref/fips202.c", "ref/kem.c", "ref/indcpa.c", "ref/poly.c", "ref/polyvec.c", "ref/cbd.c", "ref/verify.c", "ref/reduce.c", "ref/symmetric-shake.c"],
 [("explicit byte-order loads and stores", "ref/fips202.c load64, store64; ref/cbd.c load32_littleendian"), ("fixed-width types for all arithmetic", "ref/reduce.c, ref/poly.c")],
 ["outputs of the entry points on each platform"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
