#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below for the checks registered in checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
T = {
"C01": ("property-based testing (choice-sequence generators, shrinking) + coverage-guided fuzzing; oracle: round trip across implementations", "Generated keys/coins, structured and uniform, both implementations in each role; not exhaustive over 2^768 inputs."),
"C02": ("property-based testing + coverage-guided fuzzing against an independent FIPS 203 model", "Byte-exact agreement with a definition-level model on generated inputs; trusts the model (itself validated against hashlib and the committed test-vector sums)."),
"C03": ("property-based testing with exhaustive single-bit perturbation, structured perturbations, fuzzing; oracle: SHAKE256(z||ct)", "Every single-bit change for generated keys, plus generated multi-byte and cancelling differences."),
"C04": ("differential property-based testing and fuzzing of the two implementations", "Identical outputs on generated arbitrary byte strings; a deviation common to both is C02's business."),
"C05": ("stateful property-based testing: random API histories against replayed results", "Purity, input preservation and placement independence on generated histories."),
"C06": ("property-based testing over generated thread schedules (harness-owned scheduler on edge callbacks) + free-running threads", "Interleavings at instrumented-edge granularity are generated and replayable; hand-written assembly blocks are atomic between edges."),
"C07": ("property-based testing with a recording entropy stub; metamorphic bit flips", "Exact draw counts and equality with the deterministic operation; every entropy bit flipped."),
"C08": ("fault-injection property-based testing: generated OS result sequences under each platform branch", "OS calls are wrapped; fault sequences generated up to dozens of results, small ones enumerated exhaustively."),
"C09": ("stateful property-based testing + fuzzing against an independent FIPS 202 model", "Generated messages, chunkings; exhaustive small lengths."),
"C10": ("stateful property-based testing against the single-lane model", "Generated quadruples, lengths, state-operation sequences."),
"C11": ("property-based testing with extreme-value generators; exhaustive scalar enumeration; schoolbook oracle", "Scalar reductions exhaustively over 16-bit and (thorough) 32-bit ranges; polynomials generated incl. all extremes."),
"C12": ("exhaustive enumeration of coefficient values and positions + generated polynomials; exact rounding oracle", "Every value at every position in both implementations; joint contents generated."),
"C13": ("property-based testing over a substituted XOF/PRF (generated output streams); specification model oracle", "Generated streams incl. long rejection runs; end-to-end through the API with the hash layer replaced at link level."),
"C14": ("relational property-based testing: single-stepped instruction traces and memory traces of input pairs", "Two-run trace equality on generated secret pairs, as compiled here; not a proof for all secrets."),
"C15": ("property-based testing and fuzzing with guard pages, canaries, Address/UB/Memory sanitizers", "Exact-extent buffers against unmapped pages on either side, generated inputs."),
"C16": ("property-based testing over generated programs and call sequences linked against all shared libraries", "Generated link sets and histories; symbol tables inspected for every library."),
"C17": ("stateful property-based testing against an independent AES-256 CTR_DRBG model", "Generated request histories."),
"C18": ("property-based testing of the text helpers; generated files parsed and recomputed with the model", "All records of the generated files for the three sets recomputed; helpers on generated inputs."),
"C19": ("property-based testing with exhaustive small lengths and single differences", "Exhaustive positions/bits for all lengths up to a bound, generated patterns beyond."),
"C20": ("metamorphic property-based testing: single-bit changes at every position", "Every bit position of each argument for generated keys."),
"C22": ("differential property-based testing of the portable sources on 32-bit x86 and on a big-endian strict-alignment machine (MIPS32, interpreted)", "Generated inputs and placements; the platforms listed; a stand-in C library and the interpreter are trusted."),
"C21": ("differential property-based testing across generated build configurations", "Builds from a configuration grammar compared on generated inputs."),
}
os.environ.setdefault("LC_ALL", "C")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = [i for i in ids if i in checks._T]
m = dict(version=1, setup_cmd="python3 setup.py",
  checks=[dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
               technique=T[i][0], level=checks.LEVEL.get(i, "exploration"), level_note=T[i][1]) for i in have],
  not_applicable=[dict(property=i, reason="no check registered yet") for i in ids if i not in have],
  notes="All checks build from /repo's working tree into /verif/build (ignored by git); replays go to /verif/replays. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
