"""Runs monitored programs in parallel shards, judges what they and the sanitizers reported, writes the evidence."""
import concurrent.futures, hashlib, json, os, re, subprocess, time
from . import build

VERIF = build.VERIF
EVIDENCE = os.path.join(VERIF, "evidence")
RUN = os.path.join(build.BUILD, "run")

SAN_ENV = {
    "asan": {"ASAN_OPTIONS": "detect_leaks=1:detect_container_overflow=0:detect_odr_violation=0:allocator_may_return_null=0:"
                             "max_allocation_size_mb=4096:handle_abort=1:print_suppressions=0:detect_stack_use_after_return=1",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0",
             "LSAN_OPTIONS": "print_suppressions=0:suppressions=" + os.path.join(VERIF, "harness", "lsan.supp")},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=0:second_deadlock_stack=1:history_size=5:report_signal_unsafe=0:exitcode=0:suppressions="
                             + os.path.join(VERIF, "harness", "tsan.supp")},
    "plain": {},
}


class Job:
    def __init__(self, program, args, name, san="asan", timeout=300, env=None):
        self.program, self.args, self.name, self.san, self.timeout, self.env = program, list(args), name, san, timeout, env or {}


def run_env(san):
    e = build.env()
    e.pop("ASAN_OPTIONS", None)
    e.update(SAN_ENV[san])
    e.update(QT_QPA_PLATFORM="offscreen", QT_LOGGING_RULES="*=false", LC_ALL="C.UTF-8", QT_NO_GLIB="1")
    e.pop("DISPLAY", None)
    return e


def execute(job):
    os.makedirs(RUN, exist_ok=True)
    base = os.path.join(RUN, job.name)
    for ext in (".json", ".log", ".current"):
        try:
            os.unlink(base + ext)
        except OSError:
            pass
    cmd = [job.program] + job.args + ["--out", base + ".json", "--current", base + ".current"]
    e = run_env(job.san)
    e.update(job.env)
    t = time.time()
    hang = False
    with open(base + ".log", "wb") as log:
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=e, cwd=RUN, start_new_session=True)
        try:
            rc = p.wait(timeout=job.timeout)
        except subprocess.TimeoutExpired:
            hang = True
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            rc = p.wait()
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
    try:
        with open(base + ".log", "rb") as f:
            text = f.read(4000000).decode("utf-8", "replace")
    except OSError:
        text = ""
    cur = ""
    try:
        with open(base + ".current", "rb") as f:
            cur = f.read().split(b"\0")[0].decode("utf-8", "replace")
    except OSError:
        pass
    res = None
    try:
        with open(base + ".json") as f:
            res = json.load(f)
    except (OSError, ValueError):
        pass
    return dict(job=job, cmd=cmd, rc=rc, hang=hang, log=text, current=cur, result=res, wall=time.time() - t)


FRAME = re.compile(r"^\s*#\d+ (?:0x[0-9a-f]+ )?(?:in )?(.*)$")
NOISE = re.compile(r"libasan|libubsan|libtsan|libc\.so|libstdc|operator new|operator delete|interceptor|__interceptor|malloc|free|memcpy|memmove|pthread_")


def frames(lines, n=3):
    out = []
    for l in lines:
        m = FRAME.match(l)
        if not m:
            continue
        f = m.group(1)
        if NOISE.search(f):
            continue
        f = re.sub(r"\(/[^)]*\)|\(BuildId[^)]*\)|0x[0-9a-f]+|:\d+(:\d+)?", "", f)
        f = re.sub(r"/\S*/", "", f)
        out.append(re.sub(r"\s+", " ", f).strip())
        if len(out) == n:
            break
    return " < ".join(out)


def sanitizer_reports(text):
    """[(key, text)] of the distinct reports of the sanitizers found in the output of a program."""
    out, lines, seen = [], text.split("\n"), set()
    i = 0
    while i < len(lines):
        l = lines[i]
        key = None
        if "runtime error:" in l:
            where, what = l.split("runtime error:", 1)
            file = os.path.basename(where.split(":")[0].strip())
            what = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", what).strip()
            key = "ubsan %s: %s" % (file, what)
        elif "ERROR: AddressSanitizer" in l or "ERROR: LeakSanitizer" in l or "WARNING: ThreadSanitizer" in l:
            kind = re.sub(r"==\d+==|\(pid=\d+\)|0x[0-9a-f]+.*", "", l).strip()
            kind = kind.replace("ERROR: ", "").replace("WARNING: ", "").replace("==================", "").strip()
            key = "%s: %s" % (kind, frames(lines[i + 1:i + 60]))
        if key and key not in seen:
            seen.add(key)
            out.append((key, "\n".join(lines[i:i + 60])))
        i += 1
    return out


class Known:
    def __init__(self, prop):
        self.items = []
        try:
            with open(os.path.join(VERIF, "known-findings.txt")) as f:
                for l in f:
                    m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", l.rstrip("\n"))
                    if m and m.group(1) == prop:
                        self.items.append((m.group(2), m.group(3)))
        except OSError:
            pass
        self.seen = {}

    def match(self, key):
        for k, what in self.items:
            if key == k:
                self.seen[k] = what
                return True
        return False


class Check:
    """Collects what was observed for one property and turns it into a verdict."""

    def __init__(self, prop, tier, seed, rule, assumptions=()):
        self.prop, self.tier, self.seed, self.rule, self.assumptions = prop, tier, seed, rule, list(assumptions)
        self.t0 = time.time()
        self.known = Known(prop)
        self.violations = []       # (key, what, replay dict)
        self.inconclusive = []
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.sets = {}
        self.samples = []
        self.notes = {}

    def violation(self, key, what, replay=None):
        if self.known.match(key):
            return
        for k, _, _ in self.violations:
            if k == key:
                return
        self.violations.append((key, what, replay or {}))

    def absorb(self, o):
        job = o["job"]
        replay = dict(cmd=o["cmd"], env=job.env, sanitizer=job.san, case=o["current"])
        r = o["result"]
        if r:
            self.evaluations += r["evaluations"]
            self.distinct.update(r["distinct"])
            for k, v in r["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + v
            for k, v in r["sets"].items():
                self.sets.setdefault(k, set()).update(v)
            for s in r["samples"]:
                if len(self.samples) < 6:
                    self.samples.append(s)
            for v in r["violations"]:
                self.violation(v["key"], v["what"], dict(replay, case=v["input"]))
        reports = sanitizer_reports(o["log"])
        for key, text in reports:
            self.counters["sanitizer_reports"] = self.counters.get("sanitizer_reports", 0) + 1
            self.violation(key, text, replay)
        if o["hang"]:
            return "hang"
        if r is None and not reports:
            if o["rc"] < 0 or o["rc"] > 2:
                self.violation("crash rc=%d in %s" % (o["rc"], (o["current"].split(" ") + ["?"])[0]), o["log"][-3000:], replay)
            else:
                self.inconclusive.append("%s ended with %d: %s" % (job.name, o["rc"], o["log"][-500:]))
        return None

    def run(self, jobs, workers=8):
        outs, hung = [], []
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            # once something was found, what has not started yet is left out
            futures = [ex.submit(lambda j: None if self.violations else execute(j), j) for j in jobs]
            for f in concurrent.futures.as_completed(futures):
                o = f.result()
                if o is None:
                    continue
                outs.append(o)
                if self.absorb(o) == "hang":
                    hung.append(o)
        for o in hung[:2]:
            if self.violations:
                break
            # once more, alone and with more time: only a hang that repeats is reported
            first = o["current"]
            o["job"].timeout = int(o["job"].timeout * 1.5)
            o2 = execute(o["job"])
            if self.absorb(o2) == "hang":
                self.violation("hang in " + " ".join(t for t in first.split(" ") if t.startswith(("mode", "type"))) if first else "hang",
                               "did not end within %d s, twice; case: %s" % (o["job"].timeout, o2["current"]),
                               dict(cmd=o2["cmd"], env=o["job"].env, sanitizer=o["job"].san, case=o2["current"]))
        return outs

    def finish(self):
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        coverage = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule, samples=self.samples,
                        observed={k: self.counters[k] for k in sorted(self.counters)},
                        distinct_seen={k: len(v) for k, v in sorted(self.sets.items())},
                        seen={k: sorted(v)[:40] for k, v in sorted(self.sets.items())})
        coverage.update(self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=coverage,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations),
                  known_findings=sorted(self.known.seen), inconclusive=self.inconclusive)
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, what in sorted(self.known.seen.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        for n, (key, what, replay) in enumerate(self.violations):
            path = os.path.join(EVIDENCE, "replay", "%s-%s.json" % (self.prop, hashlib.sha1(key.encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, key=key, what=what, **replay), f, indent=1)
            if n < 10:
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  " + key[:300])
                print("  " + what[:600].replace("\n", "\n  "))
        if self.violations:
            return 1
        if self.inconclusive:
            print("INCONCLUSIVE property=%s %s" % (self.prop, "; ".join(self.inconclusive)[:2000]))
            return 3
        if self.evaluations == 0 or not self.distinct:
            print("INCONCLUSIVE property=%s nothing was observed" % self.prop)
            return 3
        print("OK property=%s evaluations=%d distinct=%d wall=%.0fs" % (self.prop, self.evaluations, len(self.distinct), time.time() - self.t0))
        return 0
