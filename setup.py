#!/usr/bin/env python3
"""setup_cmd: builds the framework and checks the reference model against independent sources (hashlib, committed sums)."""
import sys, os
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build, subprocess, hashlib, random
def main():
    exe = build.harness("selftest", tag="_st")
    # hash layer of the model against hashlib
    rnd = random.Random(1)
    q, want = [], []
    for i in range(400):
        n = rnd.choice([0, 1, 71, 72, 73, 135, 136, 137, 167, 168, 169, 200, 335, 336, 337, rnd.randrange(1200)])
        m = bytes(rnd.randrange(256) for _ in range(n)); o = rnd.choice([0, 1, 32, 135, 136, 137, 168, 169, 500])
        for a in ("sha3_256", "sha3_512", "shake_128", "shake_256"):
            q.append("%s %d %s" % (a, o, m.hex() or "-"))
            h = hashlib.new(a, m)
            want.append(h.hexdigest(o) if a.startswith("shake") else h.hexdigest())
    r = subprocess.run([exe, "hash"], input="\n".join(q) + "\n", capture_output=True, text=True)
    assert r.stdout.split("\n")[:-1] == want, "model hash functions disagree with hashlib"
    # whole model against the committed sums of the 10000 test vectors
    sums = dict((l.split()[1], l.split()[0]) for l in open(os.path.join(build.REPO, "SHA256SUMS")) if len(l.split()) == 2)
    procs = [(k, subprocess.Popen([exe, "vectors", str(k)], stdout=subprocess.PIPE)) for k in (2, 3, 4)]
    for k, p in procs:
        h = hashlib.sha256()
        for b in iter(lambda: p.stdout.read(1 << 20), b""):
            h.update(b)
        p.wait()
        name = "tvecs%d" % (256 * k)
        ok = h.hexdigest() == sums.get(name)
        print("model reproduces SHA256SUMS of %s: %s" % (name, ok))
        if not ok:
            print("  (not fatal: the committed sums may have changed)")
    r = subprocess.run([exe, "aes"], capture_output=True, text=True)
    assert r.stdout.strip() == "8ea2b7ca516745bfeafc49904b496089", "AES model"
    print("setup ok")
if __name__ == "__main__":
    main()
