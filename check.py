#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--unit NAME]
Decides one property by generated-input search against the code in /repo's working tree."""
import argparse, glob, importlib, json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build

class Result:
    """What one stage of a check covered."""
    def __init__(self):
        self.units, self.notes, self.assumptions, self.violations = [], {}, [], []
        self.rule = ""
        self.wall = 0.0
        self.flaky = []

def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            m = re.match(r"finding: property=(\S+) unit=(\S+) match=(.*?) :: (.*)", l)
            if m and m.group(1) == pid:
                out.append(dict(unit=m.group(2), match=m.group(3), text=m.group(4)))
    return out

class Check:
    """A harness-driven check: props/<src>.cpp run over the given library variants."""
    def __init__(self, pid, src, libs=("std",), fuzz_runs=(0, 0), fuzz_units=None, extra=(), ldflags=(), optional_libs=(),
                 pre=None, stages=(), budget=(420, 5400), fuzz_maxlen=400, env=None, tag="", fuzz_secs=(90, 1200), fuzz_libs=(("std", "fuzz"),), passes=None):
        self.pid, self.src, self.libs, self.optional_libs = pid, src, libs, optional_libs
        self.fuzz_runs, self.fuzz_units, self.fuzz_maxlen, self.fuzz_secs = fuzz_runs, fuzz_units, fuzz_maxlen, fuzz_secs
        self.extra, self.ldflags, self.pre, self.stages, self.budget = extra, ldflags, pre, stages, budget
        self.env = env or {}
        self.fuzz_libs = fuzz_libs
        self.tag = tag
        # each pass runs the same harness over other libraries / in another runtime:
        # name, libs, optional, env, linker, ldflags, wrap (command prefix), jobs
        self.passes = passes or [dict(name="")]

    def lib_env(self, names, res, optional=()):
        parts = []
        for n in list(names) + list(optional):
            try:
                d, skipped = build.build_variant(n)
            except build.BuildError as e:
                if n in optional:
                    res.notes["variant %s not built" % n] = str(e)[:300]
                    continue
                raise
            if skipped:
                res.notes["internal functions not reachable in variant %s" % n] = json.dumps(skipped)
            parts.append("%s=%s" % (n, d))
        return ";".join(parts)

    def environ(self, res, ps=None):
        ps = ps or self.passes[0]
        env = dict(os.environ)
        env["VF_LIBS"] = self.lib_env(ps.get("libs", self.libs), res, ps.get("optional", self.optional_libs))
        env["VF_REPO"] = build.REPO
        env["VF_VERIF"] = VERIF
        if self.pre:
            self.pre(self, env, res)
        env.update(self.env)
        env.update(ps.get("env", {}))
        return env

    def exe(self, ps=None):
        ps = ps or self.passes[0]
        return build.harness(self.src, extra=self.extra, ldflags=tuple(self.ldflags) + tuple(ps.get("ldflags", ())), tag=self.tag + ps.get("tag", ""), linker=ps.get("linker"))

    def run(self, tier, seed, rdir, res, unit=None, jobs=8, scale=1.0):
        for ps in self.passes:
            if ps.get("tier", tier) != tier:
                continue
            self.run_pass(ps, tier, seed, rdir, res, unit, jobs, scale)
            if res.violations:
                return
        runs = self.fuzz_runs[tier == "thorough"]
        if runs and not unit and not os.environ.get("VF_NOFUZZ"):
            self.fuzz(tier, seed, rdir, res, runs)
        for st in self.stages:
            if res.violations:
                return
            st(self, tier, seed, rdir, res)

    def run_pass(self, ps, tier, seed, rdir, res, unit, jobs, scale):
        env = self.environ(res, ps)
        exe = self.exe(ps)
        out = os.path.join(rdir, self.src + ps.get("name", "") + ".json")
        budget = int(os.environ.get("VF_BUDGET") or ps.get("budget", self.budget)[tier == "thorough"])
        cmd = list(ps.get("wrap", ())) + [exe, "--tier", tier, "--seed", str(seed), "--jobs", str(ps.get("jobs", jobs)), "--out", out, "--replaydir", rdir,
               "--budget", str(budget), "--scale", str(scale)]
        if unit:
            cmd += ["--unit", unit]
        if os.path.exists(out):
            os.unlink(out)
        p = subprocess.run(cmd, env=env, **({"stderr": subprocess.DEVNULL} if ps.get("quiet") else {}))
        if env.get("VF_CTLOG"):
            for f in glob.glob(env["VF_CTLOG"] + ".*"):
                os.unlink(f)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            raise RuntimeError("harness %s ended with status %s" % (self.src, p.returncode))
        j = json.load(open(out))
        os.unlink(out)
        for u in j["units"]:
            if ps.get("name"):
                u["name"] = ps["name"] + ": " + u["name"]
        res.units += j["units"]
        res.notes.update(j["notes"])
        res.assumptions += [a for a in j["assumptions"] if a not in res.assumptions]
        if j["rule"] not in res.rule:
            res.rule = (res.rule + " " + j["rule"]).strip()
        if j["flaky"]:
            res.flaky.append(j["message"])
        if j["violation"]:
            path = j["violation"]
            if ps.get("name"):
                np = path.replace(".replay", "_%s.replay" % ps["name"].replace(" ", "_"))
                open(np, "w").write("pass=%s\n" % ps["name"] + open(path).read())
                os.unlink(path)
                path = np
            res.violations.append((path, j["message"]))

    def fuzz(self, tier, seed, rdir, res, runs):
        """Coverage-guided stage: libFuzzer bytes are decoded into the same choices; failures are re-run in the plain harness."""
        try:
            flibs = ";".join("%s=%s" % (a, build.build_variant(v)[0]) for a, v in self.fuzz_libs)
            exe = build.harness(self.src, fuzz=True, extra=self.extra, ldflags=self.ldflags, tag=self.tag)
        except build.BuildError as e:
            res.notes["coverage-guided stage not run"] = str(e)[:400]
            return
        t0 = time.time()
        secs = self.fuzz_secs[tier == "thorough"]
        work = tempfile.mkdtemp(prefix="vffuzz")
        procs = []
        njobs = 8
        for w in range(njobs):
            wd = os.path.join(work, str(w))
            os.makedirs(os.path.join(wd, "corpus"))
            env = dict(os.environ)
            env["VF_LIBS"] = flibs
            env["VF_REPO"], env["VF_VERIF"] = build.REPO, VERIF
            env.update(self.env)
            env.update(VF_FUZZ_STATS=os.path.join(wd, "stats"), VF_FUZZ_FAIL=os.path.join(wd, "fail"), VF_FUZZ_SHM=os.path.join(wd, "shm"))
            if self.fuzz_units:
                env["VF_FUZZ_UNIT"] = self.fuzz_units[w % len(self.fuzz_units)]
            log = open(os.path.join(wd, "log"), "w")
            procs.append((wd, subprocess.Popen([exe, "-seed=%d" % (seed * 64 + w + 1), "-runs=%d" % (runs // njobs), "-max_total_time=%d" % secs,
                         "-max_len=%d" % self.fuzz_maxlen, "-len_control=0", "-use_value_profile=1", "-timeout=60", "-rss_limit_mb=3000",
                         "-artifact_prefix=" + wd + "/", "-print_final_stats=1", os.path.join(wd, "corpus")], env=env, stdout=log, stderr=subprocess.STDOUT, cwd=wd)))
        execs = dist = 0
        cov = 0
        for wd, p in procs:
            rc = p.wait()
            txt = open(os.path.join(wd, "log"), errors="replace").read()
            m = re.findall(r"cov: (\d+)", txt)
            if m:
                cov = max(cov, int(m[-1]))
            try:
                a, b = open(os.path.join(wd, "stats")).read().split()
                execs += int(a); dist += int(b)
            except (OSError, ValueError):
                m = re.findall(r"^#(\d+)", txt, re.M)
                execs += int(m[-1]) if m else 0
            if rc != 0 and not res.violations:
                cand = None
                if os.path.exists(os.path.join(wd, "fail")):
                    cand = open(os.path.join(wd, "fail")).read()
                elif "libFuzzer: out-of-memory" in txt or "libFuzzer: timeout" in txt:
                    res.notes["fuzz worker stopped"] = txt[-300:]
                else:
                    cand = self.shm_choices(os.path.join(wd, "shm"), txt)
                if cand:
                    path = os.path.join(rdir, "%s_fuzz_%s.replay" % (self.pid, os.path.basename(wd)))
                    open(path, "w").write(cand)
                    if all(self.replay(path, quiet=True) for _ in range(3)):
                        msg = re.search(r"message=(.*)", cand)
                        res.violations.append((path, msg.group(1) if msg else "coverage-guided stage"))
                    elif "runtime error" in txt:
                        rt = re.search(r".*runtime error.*", txt).group(0)
                        if self.fuzz_replay(exe, flibs, wd) >= 3:
                            res.violations.append((path, rt))
                        else:
                            res.flaky.append(rt)
                    else:
                        res.flaky.append("fuzz failure did not reproduce in the plain build: " + txt[-300:])
        shutil.rmtree(work, ignore_errors=True)
        res.units.append(dict(name="coverage-guided (libFuzzer, value profile)", evaluations=execs, distinct_nontrivial=dist, nontrivial=dist, discarded=0,
                              truncated=False, enumerated=False, secs=round(time.time() - t0, 1), labels={"edge coverage": cov}, samples=[]))

    def fuzz_replay(self, exe, flibs, wd):
        n = 0
        arts = [os.path.join(wd, f) for f in os.listdir(wd) if f.startswith(("crash-", "leak-"))]
        for _ in range(3):
            env = dict(os.environ, VF_LIBS=flibs, VF_REPO=build.REPO, VF_VERIF=VERIF)
            for a in arts[:1]:
                n += subprocess.run([exe, a], env=env, capture_output=True).returncode != 0
        return n

    def shm_choices(self, path, txt):
        import struct
        try:
            b = open(path, "rb").read()
            ui, n = struct.unpack("<QQ", b[:16])
            ch = struct.unpack("<%dQ" % n, b[16:16 + 8 * n])
        except Exception:
            return None
        m = re.search(r".*(runtime error|ERROR: libFuzzer).*", txt)
        un = self.unit_list()[ui]
        return "property=%s\nmode=case\nunit=%s\nmessage=%s\nchoices=%s\n" % (self.pid, un, m.group(0) if m else "crash", " ".join(map(str, ch)))

    def unit_list(self):
        res = Result()
        exe = self.exe()
        out = tempfile.mktemp(suffix=".json")
        subprocess.run([exe, "--budget", "0", "--out", out], env=self.environ(res), capture_output=True)
        j = json.load(open(out)); os.unlink(out)
        return [u["name"] for u in j["units"]]

    def replay(self, path, quiet=False):
        """True if the replay still fails."""
        res = Result()
        m = re.search(r"^pass=(.*)$", open(path).read(), re.M)
        ps = next((q for q in self.passes if m and q.get("name") == m.group(1)), self.passes[0])
        env = self.environ(res, ps)
        exe = self.exe(ps)
        p = subprocess.run(list(ps.get("wrap", ())) + [exe, "--replay", path], env=env, capture_output=True, text=True, errors="replace")
        if not quiet:
            sys.stdout.write(p.stdout + p.stderr)
        return p.returncode == 1

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--unit")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    import checks
    c = checks.get(a.id)
    if a.replay:
        bad = c.replay(a.replay)
        sys.exit(1 if bad else 0)
    t0 = time.time()
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    res = Result()
    c.run(a.tier, a.seed, rdir, res, unit=a.unit, jobs=a.jobs, scale=a.scale)
    kf = known_findings(a.id)
    real = []
    for path, msg in res.violations:
        real.append((path, msg))
    for u in res.units:
        if u.get("truncated"):
            res.notes["unit %s" % u["name"]] = "stopped at the time budget after %d cases (inconclusive for the rest)" % u["evaluations"]
    ev = sum(u["evaluations"] for u in res.units)
    nt = sum(u["distinct_nontrivial"] for u in res.units)
    samples = []
    for u in res.units:
        for s in u["samples"][:2]:
            samples.append("%s: %s" % (u["name"], s))
    if not samples:
        samples = ["(no sample recorded)"]
    if ev == 0 and not real and not res.flaky:
        raise RuntimeError("no case was run")
    evd = dict(property=a.id, tier=a.tier, seed=a.seed, level=checks.LEVEL.get(a.id, "exploration"),
               coverage=dict(evaluations=ev, distinct_nontrivial=nt, rule=res.rule or "see units", samples=samples[:40],
                             units=[{k: v for k, v in u.items() if k != "samples"} for u in res.units], notes=res.notes, flaky=res.flaky,
                             exhaustive=all(u.get("enumerated") and not u.get("truncated") for u in res.units)),
               assumptions=res.assumptions, wall_s=round(time.time() - t0, 2), violations=len(real))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", a.id + ".json")
    json.dump(evd, open(p + ".tmp", "w"), indent=1)
    os.rename(p + ".tmp", p)
    for f in kf:
        print("KNOWN-FINDING: property=%s %s" % (a.id, f["text"]))
    for u in res.units:
        print("  %-48s evals %9d  distinct-nontrivial %9d  %.1fs%s" % (u["name"], u["evaluations"], u["distinct_nontrivial"], u["secs"], "  TRUNCATED" if u["truncated"] else ""))
    for f in res.flaky:
        print("  not reproducible, not counted: %s" % f)
    for k, v in sorted(res.notes.items()):
        print("  note: %s: %s" % (k, v[:200]))
    if real:
        for path, msg in real:
            print("failure: %s" % msg)
            print("VIOLATION property=%s replay=%s" % (a.id, path))
        sys.stdout.flush()
        sys.exit(1)
    print("property %s held on %d cases (%d distinct non-trivial), %.1f s" % (a.id, ev, nt, time.time() - t0))
    sys.exit(0)

if __name__ == "__main__":
    try:
        main()
    except build.BuildError as e:
        sys.stderr.write("BUILD ERROR: %s\n" % e)
        sys.exit(2)
