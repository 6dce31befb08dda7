"""Runs generated cases in parallel, replays and shrinks failures, writes evidence."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import build as B

VERIF = B.VERIF
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:detect_deadlocks=0",
}


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                return tempfile.mkdtemp(prefix="efswv-", dir=d)
            except OSError:
                pass
    return tempfile.mkdtemp(prefix="efswv-")


class Check:
    def __init__(self, prop, binary, level="exploration", env=None, workers=8, hang=40):
        self.prop = prop
        self.bin = binary
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.root = scratch_root()
        self.workers = workers
        self.env = dict(os.environ)
        self.env.update(SAN_ENV)
        self.env.update(env or {})
        self.env["RIG_HANG_S"] = str(hang)
        self.stats = {}
        self.samples = []
        self.rule = ""
        self.failures = []      # (case text, message)
        self.notes = []
        self.violations = []
        self.known = []
        self.assumptions = []
        self.extra = {}
        self.schedules = False  # a case is a program of threads, one run shows one of its schedules

    # -- running ------------------------------------------------------------------------------------------------
    def add_stats(self, d):
        for k, v in d.items():
            self.stats[k] = self.stats.get(k, 0) + v

    def gen(self, idx):
        return subprocess.run([self.bin, "gen", self.prop, str(self.seed), str(idx)], stdout=subprocess.PIPE, text=True,
                              env=self.env, errors="surrogateescape").stdout

    def base(self, name):
        """A scratch directory of its own, deep enough that links with .. stay inside."""
        d = os.path.join(self.root, name, "t")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, "t")

    def batch(self, per_worker, limit, start=0):
        """Every worker w runs the cases start+w, start+w+W, ..."""
        procs = []
        W = self.workers
        for w in range(W):
            out = os.path.join(self.root, "out%d" % w)
            base = self.base("b%d" % w)
            err = open(out + ".err", "wb")
            p = subprocess.Popen([self.bin, "batch", self.prop, str(self.seed), str(start + w), str(W), str(per_worker),
                                  str(limit), base, out], stdout=err, stderr=err, env=self.env, start_new_session=True)
            procs.append((p, w, out, err, start + w))
        deadline = time.time() + limit + 120
        again = []
        for p, w, out, err, first in procs:
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
            err.close()
            ended = self.read_out(out, w)
            if not ended:
                cur = out + ".cur"
                txt = ""
                if os.path.exists(cur):
                    with open(cur, errors="surrogateescape") as f:
                        txt = f.read()
                with open(out + ".err", errors="replace") as f:
                    e = f.read()
                self.failures.append((txt, "CRASH rc=%s %s" % (rc, summarize(e))))

    def read_out(self, out, w):
        ended = False
        st = {}
        if not os.path.exists(out):
            return False
        with open(out, errors="surrogateescape") as f:
            for line in f:
                line = line.rstrip("\n")
                k, _, rest = line.partition(" ")
                if k == "FAIL":
                    idx, _, msg = rest.partition(" ")
                    self.failures.append((self.gen(int(idx)), msg))
                elif k == "SAMPLE":
                    if len(self.samples) < 6:
                        self.samples.append({"case": int(rest), "text": self.gen(int(rest)).split("\n")[:60]})
                elif k == "STAT":
                    n, _, v = rest.partition(" ")
                    st[n] = st.get(n, 0) + int(v)
                elif k == "RULE":
                    self.rule = rest
                elif k == "END":
                    ended = True
        self.add_stats(st)
        return ended

    def fuzz(self, binary, seconds):
        """Coverage-guided search; the target leaves the text of its last input behind."""
        procs = []
        for w in range(self.workers):
            d = os.path.join(self.root, "fz%d" % w)
            os.makedirs(d)
            env = dict(self.env)
            env["STR_FUZZ_OUT"] = os.path.join(d, "case")
            with open(os.path.join(d, "log"), "wb") as log:
                procs.append((d, subprocess.Popen([binary, "-max_total_time=%d" % seconds, "-seed=%d" % (self.seed * 100 + w + 1), "-max_len=512",
                                                   "-rss_limit_mb=3000", "-print_final_stats=1", os.path.join(d)], stdout=log, stderr=log,
                                                  env=env, cwd=d)))
        for d, p in procs:
            rc = p.wait()
            with open(os.path.join(d, "log"), errors="replace") as f:
                log = f.read()
            m = re.search(r"stat::number_of_executed_units:\s+(\d+)", log)
            self.add_stats({"fuzz_executions": int(m.group(1)) if m else 0})
            if rc:
                with open(os.path.join(d, "case"), errors="surrogateescape") as f:
                    text = f.read()
                m = re.search(r"^FAIL (.*)", log, re.M)
                self.failures.append((text, m.group(1) if m else "CRASH " + summarize(log)))

    # -- one case --------------------------------------------------------------------------------------------------
    def run_case(self, text, hang=10, timeout=40, verbose=False):
        """Returns (ok, message)."""
        if self.schedules:
            return self.run_schedules(text, 8 if hang > 10 else 3)
        f = os.path.join(self.root, "one.case")
        with open(f, "w", errors="surrogateescape") as h:
            h.write(text)
        env = dict(self.env)
        env["RIG_HANG_S"] = str(hang)
        try:
            p = subprocess.run([self.bin, "run", self.prop, f, self.base("one")] + (["-v"] if verbose else []),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            return False, "HANG: the case did not finish in %d s" % timeout
        if p.returncode == 0:
            return True, ""
        for line in p.stdout.splitlines():
            if line.startswith("FAIL "):
                return False, line[5:]
        return False, "CRASH rc=%s %s" % (p.returncode, summarize(p.stderr))

    def run_schedules(self, text, seconds):
        """The case again and again in all workers; (ok, message) of the first that fails."""
        f = os.path.join(self.root, "one.case")
        with open(f, "w", errors="surrogateescape") as h:
            h.write(text)
        procs = []
        for w in range(self.workers):
            env = dict(self.env)
            env.update({"RIG_HANG_S": "20", "CONC_REPEAT": "1000000", "CONC_SECONDS": str(seconds), "CONC_SALT": str(w)})
            out = open(os.path.join(self.root, "sched%d" % w), "w+b")
            p = subprocess.Popen([self.bin, "run", self.prop, f, self.base("one%d" % w)], stdout=out, stderr=out, env=env, start_new_session=True)
            procs.append((p, out))
        end = time.time() + seconds + 60
        msg = ""
        live = list(procs)
        while live:
            time.sleep(0.05)
            for p, out in list(live):
                rc = p.poll()
                if rc is None and time.time() < end and not msg:
                    continue
                live.remove((p, out))
                if rc is None:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    if time.time() >= end and not msg:
                        msg = "HANG: the case did not finish in %d s" % (seconds + 60)
                elif rc and not msg:
                    out.seek(0)
                    t = out.read().decode(errors="replace")
                    m = re.search(r"^FAIL (.*)", t, re.M)
                    msg = m.group(1) if m else "CRASH rc=%s %s" % (rc, summarize(t))
                out.close()
        return not msg, msg

    def reproduce(self, text, need=2, tries=3):
        if self.schedules:
            need, tries = 1, 2
        n, msg = 0, ""
        for i in range(tries):
            ok, m = self.run_case(text, hang=20)
            if not ok:
                n += 1
                msg = m
            if n >= need:
                return True, msg
            if n + tries - i - 1 < need:
                return False, msg
        return n >= need, msg

    def shrink(self, text, msg, budget=60):
        end = time.time() + budget
        hdr = [l for l in text.split("\n") if l.startswith("#")]
        ops = [l for l in text.split("\n") if l and not l.startswith("#")]
        kind = msg.split()[0] if msg else ""

        def bad(o, h=None):
            ok, m = self.run_case("\n".join((h or hdr) + o) + "\n", hang=4, timeout=10)
            return not ok and (kind not in ("CRASH", "HANG:") or m.split()[:1] == [kind])

        n = 2
        while len(ops) >= 2 and time.time() < end:
            size = max(1, len(ops) // n)
            hit = False
            for i in range(0, len(ops), size):
                if time.time() > end:
                    break
                t = ops[:i] + ops[i + size:]
                if t and bad(t):
                    ops = t
                    n = max(n - 1, 2)
                    hit = True
                    break
            if not hit:
                if size == 1:
                    break
                n = min(len(ops), n * 2)
        for h in list(hdr):
            if time.time() > end:
                break
            if h.split()[0] in ("#backend",):
                continue
            t = [x for x in hdr if x != h]
            if bad(ops, t):
                hdr = t
        return "\n".join(hdr + ops) + "\n"

    # -- results -----------------------------------------------------------------------------------------------------
    def corpus(self):
        d = os.path.join(VERIF, "corpus", self.prop)
        n = 0
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if not f.endswith(".case"):
                    continue
                with open(os.path.join(d, f), errors="surrogateescape") as h:
                    t = h.read()
                ok, msg = self.run_case(t, hang=20)
                n += 1
                if not ok:
                    self.failures.append((t, msg))
        self.stats["corpus_cases"] = n

    def report(self):
        """Confirms, shrinks and reports the failures collected so far."""
        known = load_known(self.prop)
        seen = set()
        budget = 150
        t_start = time.time()
        for text, msg in self.failures:
            if not text:
                # the harness itself did not get far enough to name a case
                self.notes.append("no case: " + msg)
                print("harness problem: " + msg, file=sys.stderr)
                continue
            if len(self.violations) >= 3 or time.time() - t_start > budget:
                break
            ok, m2 = self.reproduce(text)
            if not ok and self.schedules and re.search(r"(Thread|Address)Sanitizer: (data race|heap-use-after-free|attempting double-free)", msg):
                ok, m2 = True, msg   # what a sanitizer saw in one schedule needs no second one
            if not ok:
                self.notes.append("not reproduced: %s" % msg)
                print("note: a failure did not reproduce: " + msg, file=sys.stderr)
                self.save(text, "unreproduced", len(self.notes))
                continue
            small = self.shrink(text, m2, 30)
            ok3, m3 = self.reproduce(small)
            if not ok3:
                small, m3 = text, m2
            k = match_known(known, small, m3)
            if k:
                self.known.append(k)
                continue
            sig = re.sub(r"[0-9]+", "#", m3)[:60]
            if sig in seen:
                continue
            seen.add(sig)
            path = self.save(small, "violation", len(self.violations))
            self.violations.append(path)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + m3)
            for l in small.strip().split("\n"):
                print("    " + l)

    def save(self, text, kind, n):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.case" % (self.prop, kind, n))
        with open(p, "w", errors="surrogateescape") as f:
            f.write(text)
        return p

    def finish(self, extra_coverage=None):
        known = load_known(self.prop)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = {
            "evaluations": int(self.stats.pop("evaluations", 0)),
            "distinct_nontrivial": int(self.stats.pop("distinct_nontrivial", 0)),
            "rule": self.rule or "see DESIGN.md",
            "samples": self.samples or ["none"],
        }
        cov["counters"] = self.stats
        if self.notes:
            cov["notes"] = self.notes[:20]
        cov.update(extra_coverage or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(d, self.prop + ".json"))
        shutil.rmtree(self.root, ignore_errors=True)
        if self.violations:
            return 1
        if cov["evaluations"] == 0:
            print("no case was run", file=sys.stderr)
            return 2
        print("ok property=%s evaluations=%d nontrivial=%d wall=%.1fs" % (self.prop, cov["evaluations"],
              cov["distinct_nontrivial"], time.time() - self.t0))
        return 0


def summarize(err):
    keep = []
    for line in err.split("\n"):
        if re.search(r"ERROR: |SUMMARY: |runtime error|WARNING: ThreadSanitizer|terminate called|what\(\)|^HARNESS|DEADLOCK", line):
            keep.append(line.strip())
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (efsw::[\w:~]+)", err)
    s = " | ".join(keep[:4])
    if frames:
        s += " at " + " < ".join(frames[:4])
    return s or err[-400:].replace("\n", " ")


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) match=/(.*?)/ case=/(.*?)/ (.*)", line)
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "case": m.group(3), "what": m.group(4)})
    return out


def match_known(known, text, msg):
    for k in known:
        if re.search(k["match"], msg) and re.search(k["case"], text, re.S):
            return k
    return None
