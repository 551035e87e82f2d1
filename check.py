#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   run the monitors of one property
   check.py --replay <file>               re-run the case a violation names
   check.py --setup                       build every driver
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import vbuild
from suites import SUITES

ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:detect_stack_use_after_return=1:"
                        "allocator_may_return_null=1:handle_abort=1:malloc_context_size=12",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
           TSAN_OPTIONS="halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4")


def known_findings():
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\w+) sig=(\S+) (.*)", line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def sanitizer_summary(text):
    for pat in (r"SUMMARY: \w+Sanitizer: .*", r"runtime error: .*", r"WARNING: ThreadSanitizer: .*",
                r"Assertion .* failed", r"terminate called.*\n.*", r"what\(\):.*", r"@@VIOLATION.*"):
        m = re.search(pat, text)
        if m:
            return re.sub(r"\s+", " ", m.group(0))[:400]
    return ""


class Run:
    def __init__(self, exe, r, seed, frm, count, tmp, tag):
        self.r, self.seed, self.frm, self.count = r, seed, frm, count
        self.prog = os.path.join(tmp, tag + ".prog")
        self.states = os.path.join(tmp, tag + ".states")
        self.cmd = [exe, "--suite", r["suite"], "--seed", str(seed), "--from", str(frm), "--count", str(count),
                    "--progress", self.prog, "--states", self.states]

    def go(self):
        # output goes to a file: a flood of it must not block the driver
        with tempfile.TemporaryFile() as f:
            try:
                p = subprocess.Popen(self.cmd, stdout=f, stderr=subprocess.STDOUT, env=ENV, cwd=VERIF)
                try:
                    self.rc = p.wait(timeout=self.r.get("timeout", 700))
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    self.rc = "timeout"
            except OSError as e:
                self.rc = "oserror %s" % e
            f.seek(0)
            self.out = f.read(64 << 20).decode("utf-8", "replace")
        return self

    def case(self):
        m = re.search(r"@@(?:VIOLATION|CRASH) case=(\d+)", self.out)
        if m:
            return int(m.group(1))
        try:
            return struct.unpack("<Q", open(self.prog, "rb").read(8))[0]
        except Exception:
            return self.frm


def violation_of(run):
    """-> None or (sig, detail)"""
    m = re.search(r"@@VIOLATION case=\d+ sig=(\S+) detail=(.*)", run.out)
    if m:
        return m.group(1), m.group(2)[:1500]
    if run.rc == 0 and "@@DONE" in run.out:
        return None
    if run.rc == "timeout":
        return "hang", "no end within the time limit"
    s = sanitizer_summary(run.out)
    return "crash", "exit %s %s" % (run.rc, s or run.out[-300:].replace("\n", " "))


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = SUITES[prop]
    known = known_findings()
    tmp = tempfile.mkdtemp(prefix="fptu-check-")
    outdir = os.path.join(VERIF, "out")
    os.makedirs(outdir, exist_ok=True)
    violations, shown = [], set()
    try:
        exes = {}
        byflavor = {}
        for r in spec["runs"]:
            byflavor.setdefault(r["flavor"], set()).add(r["driver"])
        for fl, ds in byflavor.items():
            try:
                for d, e in vbuild.build(fl, sorted(ds)).items():
                    exes[(fl, d)] = e
            except vbuild.BuildError:
                if fl != "alt":  # the second compiler is an extra, not a requirement
                    raise
                print("%s: not built with the second compiler, its runs are skipped" % prop)
        jobs = []
        for k, r in enumerate(spec["runs"]):
            if (r["flavor"], r["driver"]) not in exes:
                continue
            total = r[tier]
            n = min(8, total, r.get("split", 8)) if total else 0
            for i in range(n):
                a, b = total * i // n, total * (i + 1) // n
                if b > a:
                    jobs.append(Run(exes[(r["flavor"], r["driver"])], r, seed, a, b - a, tmp, "%d-%d" % (k, i)))
        stop = threading.Event()

        def work(j):
            if stop.is_set():
                return None
            j.go()
            if violation_of(j):
                stop.set()
            return j
        with ThreadPoolExecutor(max_workers=spec.get("parallel", 8)) as ex:
            done = [j for j in ex.map(work, jobs) if j is not None]
        counters, samples, states, findings = {}, [], set(), {}
        extra = []
        for j in done:
            for m in re.finditer(r"^@@COUNT (\S+) (\d+)", j.out, re.M):
                counters[m.group(1)] = counters.get(m.group(1), 0) + int(m.group(2))
            for m in re.finditer(r"^@@SAMPLE (.*)", j.out, re.M):
                if len(samples) < 6:
                    samples.append("%s/%s/%s: %s" % (j.r["flavor"], j.r["driver"], j.r["suite"], m.group(1)[:1500]))
            for m in re.finditer(r"^@@FINDING case=(\d+) sig=(\S+) detail=(.*)", j.out, re.M):
                findings.setdefault(m.group(2), (j, m.group(3)))
            try:
                raw = open(j.states, "rb").read()
                salt = j.r["driver"] + "/" + j.r["suite"]
                if len(states) < 20000000:
                    states.update((salt, x) for (x,) in struct.iter_unpack("<Q", raw))
            except OSError:
                pass
            v = violation_of(j)
            if v:
                # a crash or a time-out is believed only if it can be reproduced
                if v[0] in ("hang", "crash") and "@@CRASH" not in j.out and j.r["flavor"] != "tsan":
                    again = Run(j.cmd[0], j.r, j.seed, j.frm, j.count, tmp, "again").go()
                    v2 = violation_of(again)
                    if not v2:
                        extra.append("not reproduced: " + v[1][:200])
                        continue
                    j, v = again, v2
                violations.append((j, v))
        for sig, (j, detail) in findings.items():
            if (prop, sig) in known:
                print("KNOWN-FINDING: property=%s sig=%s %s" % (prop, sig, known[(prop, sig)]))
            else:
                violations.append((j, (sig, detail)))
        missing = []
        if not violations:
            for c, least in spec.get("require", {}).items():
                if counters.get(c, 0) < least:
                    missing.append("%s=%d (at least %d expected)" % (c, counters.get(c, 0), least))
        cov = dict(evaluations=counters.get("cases", 0),
                   distinct_nontrivial=len(states),
                   rule=spec["rule"],
                   samples=samples or ["(none: a violation ended the run early)"],
                   monitor_counters=counters,
                   runs=[dict(flavor=r["flavor"], driver=r["driver"], suite=r["suite"], cases=r[tier]) for r in spec["runs"]],
                   known_findings_seen=sorted(findings), notes=extra + missing)
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2),
                  violations=len(violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for j, (sig, detail) in violations[:3]:
            c = j.case()
            h = hashlib.sha1(("%s%s%s%s%s" % (prop, j.r, sig, c, detail)).encode()).hexdigest()[:10]
            path = os.path.join(outdir, "%s-%s.json" % (prop, h))
            json.dump(dict(property=prop, flavor=j.r["flavor"], driver=j.r["driver"], suite=j.r["suite"], seed=j.seed,
                           case=c, sig=sig, detail=detail, output=j.out[-20000:]), open(path, "w"), indent=1)
            print("%s: %s/%s/%s case %d: %s: %s" % (prop, j.r["flavor"], j.r["driver"], j.r["suite"], c, sig, detail[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        print("%s %s: %d cases, %d distinct states, %d oracle checks, %.1f s%s" % (
            prop, tier, cov["evaluations"], cov["distinct_nontrivial"], counters.get("oracle_checks", 0),
            time.time() - t0, " -- VIOLATED" if violations else ""))
        if violations:
            return 1
        if missing:
            print("coverage is too low: " + ", ".join(missing))
            return 2
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    exe = vbuild.build(d["flavor"], [d["driver"]])[d["driver"]]
    return subprocess.call([exe, "--suite", d["suite"], "--seed", str(d["seed"]), "--from", str(d["case"]),
                            "--count", "1"], env=ENV)


def setup():
    need = {}
    for s in SUITES.values():
        for r in s["runs"]:
            need.setdefault(r["flavor"], set()).add(r["driver"])
    for fl, ds in need.items():
        try:
            vbuild.build(fl, sorted(ds))
        except vbuild.BuildError:
            if fl != "alt":
                raise
    print("built", {k: sorted(v) for k, v in need.items()})
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            sys.exit(setup())
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(sys.argv[1], tier))
    except vbuild.BuildError as e:
        print("the check could not be built:\n%s" % e)
        sys.exit(2)
