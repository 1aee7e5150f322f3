#!/usr/bin/env python3
"""Driver of the checks: builds the monitors from the library's current working
tree, runs the workload, judges what the monitors observed, writes the evidence.

  python3 run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: no verdict.
"""
import sys, os, json, time, subprocess, hashlib, shutil, glob, re, argparse, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FLOAXIE_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
SRC = os.path.join(HERE, "src")
sys.path.insert(0, HERE)

class Inconclusive(Exception):
    pass

def tree_digest():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), SRC):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh: h.update(fh.read())
    return h.hexdigest()

SAN = {
    "": [],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"],
    "tsan": ["-fsanitize=thread", "-g1"],
    "msan": ["-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"],
    "fuzz": ["-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"],
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
    "MSAN_OPTIONS": "abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:report_thread_leaks=0",
    "LC_ALL": "C",
}

class Build:
    """One compiled monitor."""
    def __init__(self, src, cxx="g++", std="c++17", opt="-O2", san="", defs=(), libs=(), name=None, extra_src=(), sections=None):
        self.sections = sections or {} # section of the source -> counters it alone feeds
        self.src, self.cxx, self.std, self.opt, self.san = src, cxx, std, opt, san
        self.defs, self.libs, self.extra_src = list(defs), list(libs), list(extra_src)
        self.name = name or "%s %s %s %s%s" % (src, cxx, std, opt, " " + san if san else "")
        self.path = None; self.log = ""; self.ok = None

    def cmd(self, out):
        return [self.cxx, "-std=" + self.std] + self.opt.split() + SAN[self.san] + ["-w"] + \
            ["-D" + d for d in self.defs] + ["-I" + os.path.join(REPO, "include"), "-I" + SRC] + \
            [os.path.join(SRC, self.src)] + [os.path.join(SRC, s) for s in self.extra_src] + ["-o", out, "-pthread"] + self.libs

    def build(self, digest):
        key = hashlib.sha256((digest + repr(self.cmd("X"))).encode()).hexdigest()[:24]
        d = os.path.join(BUILD, "bin"); os.makedirs(d, exist_ok=True)
        self.path = os.path.join(d, key)
        if os.path.exists(self.path):
            self.ok = True; return self
        tmp = self.path + ".tmp%d" % os.getpid()
        try:
            r = subprocess.run(self.cmd(tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
        except subprocess.TimeoutExpired:
            raise Inconclusive("compilation timed out: " + self.name)
        self.log = r.stdout
        self.ok = r.returncode == 0
        if self.ok: os.replace(tmp, self.path)
        elif os.path.exists(tmp): os.unlink(tmp)
        return self

def build_all(builds, must=True):
    digest = tree_digest()
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(lambda b: b.build(digest), builds))
    for b in builds:
        if not b.ok and must:
            sys.stdout.write(b.log[-4000:] + "\n")
            raise Inconclusive("can't compile " + b.name)
    return builds

def leave_out_sections(b, res, need):
    """A monitor of internal functions doesn't compile: leaves out the sections
    whose functions are no longer there (a changed interface is no violation)."""
    def alone(x):
        t = Build(b.src, b.cxx, b.std, "-O0 -fsyntax-only", "", b.defs + ["NO_" + y for y in b.sections if y != x])
        try: return subprocess.run(t.cmd("/dev/null"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600).returncode == 0
        except subprocess.TimeoutExpired: return True
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex: ok = list(ex.map(alone, b.sections))
    gone = [x for x, y in zip(b.sections, ok) if not y]
    if not gone or len(gone) == len(b.sections) > 2: return
    b.defs += ["NO_" + x for x in gone]
    b.build(tree_digest())
    if not b.ok: return
    res.notes.append("%s: not compiled with this tree, so not looked at: %s" % (b.name, ", ".join(gone)))
    for x in gone:
        for c in b.sections[x]: need.pop(c, None)

class Result:
    """What a check observed."""
    def __init__(self):
        self.evaluations = 0; self.distinct = 0
        self.counters = {}; self.maxima = {}; self.minima = {}
        self.samples = []; self.viol = []   # (key, casehex, message, jobinfo)
        self.builds = []; self.notes = []; self.exhaustive = None
        self.hung = False
    def count(self, k, n=1): self.counters[k] = self.counters.get(k, 0) + n
    def fail(self, key, case, msg, job=None): self.viol.append((key, case, msg, job))

def job_env(job):
    e = dict(os.environ); e.update(ENV); e.pop("LANG", None)
    e.update(job.get("env", {}))
    return e

def describe_stderr(text):
    for line in text.splitlines():
        if re.search(r"runtime error|ERROR: |WARNING: |Assertion|assert", line): return line.strip()[:300]
    lines = [l for l in text.splitlines() if l.strip()]
    return lines[-1][:300] if lines else ""

def run_one(path, job, case, timeout):
    """Re-runs one recorded case; returns (rc or None, lines, stderr)."""
    d = tempfile.mkdtemp(prefix="one", dir=BUILD)
    try:
        out = os.path.join(d, "o")
        try:
            r = subprocess.run([path] + job["args"] + ["--out", out, "--one", case], env=job_env(job), stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", cwd=d)
        except subprocess.TimeoutExpired:
            return None, [], ""
        lines = open(out, errors="replace").read().splitlines() if os.path.exists(out) else []
        return r.returncode, lines, r.stderr
    finally:
        shutil.rmtree(d)

def run_job(res, job, tier, seed):
    """job: build, args, env, timeout, label"""
    b = job["build"]
    job.setdefault("label", b.name)
    d = tempfile.mkdtemp(prefix="run", dir=BUILD)
    t0 = time.time()
    try:
        out = os.path.join(d, "o")
        args = [b.path] + job["args"] + ["--tier", tier, "--seed", str(seed), "--out", out]
        if "scale" in job: args += ["--scale", str(job["scale"])]
        p = subprocess.Popen(args, env=job_env(job), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", cwd=d, start_new_session=True)
        try:
            _, err = p.communicate(timeout=job.get("timeout", 800 if tier == "quick" else 6 * 3600))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.communicate()
            raise Inconclusive("watchdog: %s did not finish" % job["label"])
        files = [out] + sorted(glob.glob(out + ".w*"))
        lines = []
        for f in files:
            if os.path.exists(f): lines += open(f, errors="replace").read().splitlines()
        errs = "".join(open(f, errors="replace").read()[-20000:] for f in sorted(glob.glob(out + ".err*")))
        if p.returncode != 0 or "END" not in lines:
            raise Inconclusive("%s failed (exit %s): %s" % (job["label"], p.returncode, err[-800:]))
        shards, done, crashes = 0, 0, []
        nviol = 0
        for l in lines:
            f = l.split("\t")
            if f[0] == "N": res.evaluations += int(f[1]); res.distinct += int(f[2])
            elif f[0] == "C": res.count(f[1], int(f[2]))
            elif f[0] == "M": res.maxima[f[1]] = max(res.maxima.get(f[1], 0), int(f[2]))
            elif f[0] == "m": res.minima[f[1]] = min(res.minima.get(f[1], 1 << 64), int(f[2]))
            elif f[0] == "S" and len(res.samples) < 40: res.samples.append(f[1][:300])
            elif f[0] == "V": res.fail(f[1], f[2], f[3] if len(f) > 3 else "", job); nviol += 1
            elif f[0] == "D": done += 1
            elif f[0] == "T": shards = int(f[1])
            elif f[0] == "X": crashes.append(f)
        hung = [f[2] for f in crashes if f[1] == "hang"][:8]
        if hung:
            nviol += 1
            with ThreadPoolExecutor(max_workers=8) as ex: alone = list(ex.map(lambda c: run_one(b.path, job, c, 150)[0] if c else 0, hung))
            confirmed = [c for c, rc in zip(hung, alone) if rc is None]
            if confirmed:
                res.hung = True
                res.fail("hang", confirmed[0], "no progress for 120 s, confirmed by running the case alone", job)
            elif not res.viol: raise Inconclusive("a worker made no progress, not reproduced")
        for f in crashes:
            kind, case, st = f[1], f[2], int(f[3])
            if kind == "hang": continue
            nviol += 1
            sig, code = st & 127, st >> 8
            if sig in (9, 15) or (not sig and code == 2):
                raise Inconclusive("a worker was ended from outside or failed (status %d): %s" % (st, errs[-500:]))
            rc, _, e1 = run_one(b.path, job, case, 150) if case else (0, [], "")
            msg = "the library crashed (%s)" % ("signal %d" % sig if sig else "exit %d" % code)
            txt = describe_stderr(e1 or errs)
            res.fail("crash", case, msg + ": " + txt + ("" if rc else " [needs the preceding calls]"), job)
        if shards != done and not nviol:
            raise Inconclusive("%s: %d of %d shards done" % (job["label"], done, shards))
        if res.counters.get("oracle_disagreements"):
            raise Inconclusive("the oracles disagree with each other")
        res.builds.append({"build": job["label"], "args": " ".join(job["args"]), "wall_s": round(time.time() - t0, 1)})
    finally:
        shutil.rmtree(d, ignore_errors=True)

GENCASES = Build("gencases.cpp")
FUZZ = Build("fuzz.cpp", "clang++", san="fuzz")
MSAN = Build("msan.cpp", "clang++", san="msan")

def generate(args):
    r = subprocess.run([GENCASES.path] + [str(a) for a in args], env=job_env({}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if r.returncode: raise Inconclusive("case generator failed: " + r.stdout.decode(errors="replace")[-300:])

def run_fuzz(res, pid, kind, runs, tier, seed, max_len=220, procs=8, cap=200):
    """Coverage guided workload. kind: corpus | corpus_tagged | corpus_value."""
    build_all([GENCASES, FUZZ])
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="fuzz", dir=BUILD)
    try:
        ps = []
        for i in range(procs):
            c, a = os.path.join(d, "c%d" % i), os.path.join(d, "a%d" % i)
            os.mkdir(c); os.mkdir(a)
            generate(["--kind", kind, "--count", 300, "--dir", c, "--seed", seed * 97 + i])
            env = job_env({"env": {"VK_CHECK": pid}})
            log = open(os.path.join(d, "l%d" % i), "wb")
            ps.append((subprocess.Popen([FUZZ.path, "-runs=%d" % (runs // procs), "-seed=%d" % (seed * 131 + i + 1), "-max_len=%d" % (8 if kind == "corpus_value" else max_len),
                "-use_value_profile=%d" % (i & 1), "-max_total_time=%d" % cap, "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", "-artifact_prefix=" + a + "/", c],
                env=env, stdout=subprocess.DEVNULL, stderr=log, cwd=d, start_new_session=True), i, a, log))
        for p, i, a, log in ps:
            try: p.wait(timeout=cap + 200)
            except subprocess.TimeoutExpired: os.killpg(p.pid, 9); p.wait()
            log.close()
        for p, i, a, log in ps:
            text = open(os.path.join(d, "l%d" % i), errors="replace").read()
            m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", text); res.evaluations += int(m[-1]) if m else 0
            if m: res.count("fuzz_executions", int(m[-1]))
            c = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", text)
            if c:
                res.maxima["fuzz_edges_covered"] = max(res.maxima.get("fuzz_edges_covered", 0), int(c[-1][0]))
                res.maxima["fuzz_features"] = max(res.maxima.get("fuzz_features", 0), int(c[-1][1]))
                res.distinct += int(c[-1][2]); res.count("fuzz_inputs_kept_for_coverage", int(c[-1][2]))
            if p.returncode == 0: continue
            arts = sorted(glob.glob(a + "/*"))
            job = {"build": FUZZ, "args": [], "env": {"VK_CHECK": pid}, "label": "fuzz", "fuzz": True}
            if not arts: raise Inconclusive("fuzzer ended with %s: %s" % (p.returncode, text[-500:]))
            art = arts[0]; data = open(art, "rb").read()
            if os.path.basename(art).startswith("oom-"): raise Inconclusive("fuzzer ran out of memory")
            rc, err = fuzz_one(FUZZ.path, pid, data)
            if rc == 0: raise Inconclusive("a finding of the fuzzer isn't reproduced: " + describe_stderr(text))
            f = re.search(r"VK-FAIL\t(\S+)\t(.*)", err or text)
            key, msg = (f.group(1), f.group(2)) if f else ("hang", "no progress") if rc is None else ("crash", describe_stderr(err))
            res.fail("fuzz_" + key, data.hex(), msg, job)
        res.builds.append({"build": FUZZ.name, "args": "libFuzzer %s, %d runs" % (kind, runs), "wall_s": round(time.time() - t0, 1)})
    finally:
        shutil.rmtree(d, ignore_errors=True)

def fuzz_one(path, pid, data):
    f = tempfile.NamedTemporaryFile(prefix="case", dir=BUILD, delete=False)
    f.write(data); f.close()
    try:
        r = subprocess.run([path, "-timeout=60", f.name], env=job_env({"env": {"VK_CHECK": pid}}), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=150, text=True, errors="replace")
        return r.returncode, r.stderr
    except subprocess.TimeoutExpired: return None, ""
    finally: os.unlink(f.name)

def run_msan(res, kind, count, tier, seed, procs=8):
    """MemorySanitizer over generated cases. kind: text | value."""
    build_all([GENCASES, MSAN])
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="msan", dir=BUILD)
    try:
        def one(i):
            f = os.path.join(d, "f%d" % i)
            generate(["--kind", kind, "--count", count // procs, "--file", f, "--seed", seed * 89 + i])
            try: return subprocess.run([MSAN.path, kind, f], env=job_env({}), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=800)
            except subprocess.TimeoutExpired: return None
        with ThreadPoolExecutor(max_workers=procs) as ex: rs = list(ex.map(one, range(procs)))
        for r in rs:
            if r is None: raise Inconclusive("watchdog: MemorySanitizer run did not finish")
            m = re.search(r"CASES (\d+)", r.stdout)
            if r.returncode == 0 and m: res.evaluations += int(m.group(1)); res.count("msan_" + kind + "_cases", int(m.group(1))); continue
            c = re.search(r"MSAN-CASE (\w) ([0-9a-f]*)", r.stderr)
            if "MemorySanitizer" in r.stderr and c:
                raw = bytes.fromhex(c.group(2))
                what = "text %r as %s" % (raw[:150], c.group(1)) if kind == "text" else "value bits %s as %s" % (raw[::-1].hex(), c.group(1))
                fr = [l.strip() for l in r.stderr.splitlines() if re.match(r"\s+#\d+ ", l)][:3]
                res.fail("msan", c.group(2), "MemorySanitizer: %s for %s: %s" % (describe_stderr(r.stderr), what, " | ".join(fr)), {"build": MSAN, "args": [kind], "label": "msan", "msan": True})
            else: raise Inconclusive("MemorySanitizer run ended with %s: %s" % (r.returncode, r.stderr[-400:]))
        res.builds.append({"build": MSAN.name, "args": "%s, %d cases" % (kind, count), "wall_s": round(time.time() - t0, 1)})
    finally:
        shutil.rmtree(d, ignore_errors=True)

def known_findings():
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
        if m: r.append(m.groups())
    return r

def conclude(pid, res, spec, tier, seed, t0):
    known = {}
    fresh = []
    kf = known_findings()
    for v in res.viol:
        k = [x for x in kf if x[0] == pid and x[1] == v[0]]
        if k: known.setdefault(v[0], [k[0][2], 0]); known[v[0]][1] += 1
        else: fresh.append(v)
    missing = [k for k, n in spec.get("need", {}).items() if res.counters.get(k, 0) + res.maxima.get(k, 0) < n]
    cov = {"evaluations": res.evaluations, "distinct_nontrivial": res.distinct, "rule": spec["rule"],
           "samples": res.samples[:24] or ["(none)"],
           "observed": dict(sorted(res.counters.items())), "maxima": res.maxima, "builds": res.builds}
    if res.minima: cov["minima"] = res.minima
    if res.notes: cov["notes"] = res.notes
    if spec.get("exhaustive"): cov["exhaustive"] = True
    if known: cov["known_findings"] = {k: {"what": w, "occurrences": n} for k, (w, n) in known.items()}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=True)
    print("%s: %d evaluations, %d distinct, %.1f s" % (pid, res.evaluations, res.distinct, time.time() - t0))
    for k, (w, n) in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s (%d occurrences)" % (pid, w, n))
    if fresh:
        rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
        seen = {}
        for key, case, msg, job in fresh:
            seen.setdefault(key, []).append((case, msg, job))
        for key, l in sorted(seen.items()):
            l.sort(key=lambda x: len(x[0] or ""))
            case, msg, job = l[0]
            p = os.path.join(rd, "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]", "_", key)[:60]))
            j = None
            if job and "build" in job:
                j = {"kind": "fuzz" if job.get("fuzz") else "msan" if job.get("msan") else "", "src": job["build"].src, "cmd": job["build"].cmd("monitor"), "args": job["args"], "env": job.get("env", {}), "label": job.get("label")}
            json.dump({"property": pid, "key": key, "case_hex": case, "message": msg, "tier": tier, "seed": seed, "job": j, "occurrences": len(l)}, open(p, "w"), indent=1)
            print("  %s [%s, %d times]" % (msg, key, len(l)))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if not res.evaluations:
        print("INCONCLUSIVE: %s: nothing was observed" % pid)
        return 2
    if missing:
        print("INCONCLUSIVE: %s: never or too rarely observed: %s" % (pid, ", ".join("%s=%s" % (k, res.counters.get(k, 0)) for k in missing)))
        return 2
    return 0

def replay(pid, path):
    r = json.load(open(path)); j = r["job"]
    print("%s: %s" % (r["key"], r["message"]))
    if not j or not r["case_hex"]: print("run the whole check with VERIF_SEED=%s VERIF_TIER=%s" % (r["seed"], r["tier"])); return 2
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "replay%d" % os.getpid())
    cmd = list(j["cmd"]); cmd[cmd.index("-o") + 1] = out
    if subprocess.run(cmd).returncode: return 2
    try:
        if j.get("kind") == "fuzz":
            rc, err = fuzz_one(out, pid, bytes.fromhex(r["case_hex"])); lines = []
        elif j.get("kind") == "msan":
            raw = bytes.fromhex(r["case_hex"]); f = out + ".case"
            if j["args"][0] == "text": data = len(raw).to_bytes(4, "little") + raw
            elif len(raw) == 8: data = raw + bytes(4)
            else: data = bytes(8) + raw
            open(f, "wb").write(data)
            q = subprocess.run([out, j["args"][0], f], env=job_env({}), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
            os.unlink(f); rc, lines, err = q.returncode, [], q.stderr
        else:
            rc, lines, err = run_one(out, {"args": j["args"], "env": j["env"]}, r["case_hex"], 150)
    finally:
        os.unlink(out)
    v = [l for l in lines if l.startswith("V\t")]
    for l in v: print(l)
    if err: print(err[-3000:])
    bad = bool(v) or rc != 0
    print("reproduced" if bad else "not reproduced")
    if bad: print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if bad else 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier"); ap.add_argument("--seed"); ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(a.seed or os.environ.get("VERIF_SEED") or 1)
    except ValueError: seed = 1
    os.makedirs(BUILD, exist_ok=True)
    if a.replay: sys.exit(replay(a.property, a.replay))
    sys.modules["run"] = sys.modules[__name__]
    import checks
    t0 = time.time()
    res = Result()
    try:
        spec = checks.CHECKS[a.property]
        if not os.path.isdir(os.path.join(REPO, "include", "floaxie")): raise Inconclusive("no library in " + REPO)
        if "jobs" in spec:
            jobs = spec["jobs"](tier)
            bs = {id(j["build"]): j["build"] for j in jobs}
            build_all(list(bs.values()), must=False)
            spec["need"] = dict(spec.get("need", {}))
            for b in bs.values():
                if not b.ok and b.sections: leave_out_sections(b, res, spec["need"])
            broken = [b for b in bs.values() if not b.ok]
            for b in broken:
                if spec.get("compile_is_property"):
                    res.fail("compile", "", "doesn't compile: %s: %s" % (b.name, next((l for l in b.log.splitlines() if "error" in l or "undefined" in l), b.log[-300:])), None)
                else:
                    sys.stdout.write(b.log[-4000:] + "\n")
                    raise Inconclusive("can't compile " + b.name)
            for j in jobs:
                if j["build"].ok:
                    run_job(res, j, tier, seed)
                    if len(res.viol) > 200 or res.hung: break
        if "custom" in spec and not res.viol: spec["custom"](sys.modules[__name__], res, tier, seed)
        if "post" in spec: spec["post"](res, tier)
    except Inconclusive as e:
        if res.viol:
            pass # a violation already observed stands
        else:
            print("INCONCLUSIVE: %s: %s" % (a.property, e)); sys.exit(2)
    sys.stdout.flush()
    sys.exit(conclude(a.property, res, spec, tier, seed, t0))

if __name__ == "__main__":
    main()
