#!/usr/bin/env python3
"""tools/mutate.py WORKDIR N SEED [FILE...]: N random one-line mutants of efsw in a scratch copy; which checks notice them.

Not a check: a measure of how sensitive the checks are. Prints one line per mutant; survivors are to be read by hand."""
import os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
work, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
repo = os.path.join(work, "repo")
os.environ["EFSW_REPO"] = repo
os.environ["VERIF_BUILD"] = os.path.join(work, "build")
sys.path.insert(0, V)
shutil.rmtree(repo, ignore_errors=True)
os.makedirs(work, exist_ok=True)
subprocess.run(["cp", "-a", "/repo/.", repo], check=True)
from vlib import build as B
from vlib import checks as C
from vlib.engine import SAN_ENV
FILES = sys.argv[4:] or ["src/efsw/" + f for f in """FileWatcherInotify.cpp FileWatcherGeneric.cpp DirWatcherGeneric.cpp DirectorySnapshot.cpp
 DirectorySnapshotDiff.cpp FileInfo.cpp FileSystem.cpp platform/posix/FileSystemImpl.cpp FileWatcher.cpp FileWatcherCWrapper.cpp FileWatcherImpl.cpp
 Log.cpp WatcherGeneric.cpp WatcherInotify.cpp Watcher.cpp System.cpp platform/posix/SystemImpl.cpp""".split()]
NAT = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C14", "C24"]
POL = ["C08", "C09", "C10", "C11", "C24", "C14"]
API = ["C12", "C13", "C15", "C16", "C19", "C20", "C21", "C22", "C25", "C26", "C27", "C28", "C29", "C31"]  # C30 has a binary of its own
CON = ["C17", "C18"]
ORDER = {"Inotify": NAT + API + CON + POL, "Generic": POL + API + CON + NAT, "Snapshot": POL + API, "CWrapper": ["C21", "C22", "C25", "C12"] + API + CON,
         "String": ["C23"] + NAT + API, "Utf": ["C23"], "Log": ["C25", "C21"] + CON + API}
def mutations(line):
    out = []
    s = line.strip()
    if not s or s.startswith(("//", "/*", "*", "#", "}", "{", "case ", "default:", "public", "private", "namespace", "using")):
        return out
    if "efDEBUG" in s or "efASSERT" in s or "efPRINT" in s:
        return out
    code = line.split("//")[0]
    m = re.match(r"(\s*(?:\} else )?(?:if|while) \( )(.*)( \) \{?\s*)$", code)
    if m and code.count("(") == code.count(")"):
        out.append(m.group(1) + "!( " + m.group(2) + " )" + m.group(3))
    for a, b in (("&&", "||"), ("||", "&&"), ("==", "!="), ("!=", "=="), (" < ", " <= "), (" > ", " >= "), (" >= ", " > "), (" <= ", " < "), ("true", "false"),
                 ("false", "true"), (" + 1", ""), (" - 1", ""), ("NULL == ", "NULL != "), (".begin()", ".end()"), ("continue;", "break;"), ("break;", "continue;")):
        for k in re.finditer(re.escape(a), code):
            out.append(code[:k.start()] + b + code[k.end():])
    if s.endswith(";") and not re.match(r"(return|[\w:<>,\* &]+ \w+( =.*|\(.*)?;|else)", s) or re.match(r"\w+(\.|->)?\w*\(.*\);$", s) or re.match(r"[\w\.\->\[\]]+ \+?= .*;$", s):
        out.append("")
    if s in ("return;", "break;", "continue;"):
        out.append("")
    return out
rng = random.Random(seed)
pool = []
for f in FILES:
    ls = open(os.path.join(repo, f)).read().split("\n")
    for i, l in enumerate(ls):
        # only what Linux compiles
        for mline in mutations(l):
            pool.append((f, i, l, mline))
rng.shuffle(pool)
print("pool", len(pool), flush=True)
W = int(os.environ.get("MUT_PROCS", "4"))
SEC = float(os.environ.get("MUT_SECONDS", "4"))
def kind(p):
    return "fsx" if p in C.FSX_PROPS else "apx" if p in C.APX_PROPS else "str" if p == "C23" else "conc"
def run_prop(p, bins, conc_flavor):
    b = bins[kind(p) + conc_flavor]
    sc = "/dev/shm/mut-%d" % os.getpid()
    shutil.rmtree(sc, ignore_errors=True)
    env = dict(os.environ)
    env.update(SAN_ENV)
    env["RIG_HANG_S"] = "6"
    ps = []
    for w in range(W):
        d = "%s/b%d/t" % (sc, w)
        os.makedirs(d)
        e = open("%s/o%d.err" % (sc, w), "wb")
        ps.append((subprocess.Popen([b, "batch", p, "1", str(w), str(W), "1000000", str(SEC * (3 if kind(p) == "conc" else 1)), d + "/t", "%s/o%d" % (sc, w)], stdout=e, stderr=e, env=env,
                                    start_new_session=True), w))
    end = time.time() + SEC * 3 + 40
    msg = ""
    for q, w in ps:
        try:
            rc = q.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(q.pid, 9); q.wait(); rc = "hang"
        t = open("%s/o%d" % (sc, w), errors="replace").read() if os.path.exists("%s/o%d" % (sc, w)) else ""
        m = re.search(r"^FAIL \d+ (.*)", t, re.M)
        if m and not msg:
            msg = m.group(1)
        elif rc and not msg:
            er = open("%s/o%d.err" % (sc, w), errors="replace").read()
            m = re.search(r"(SUMMARY.*|HARNESS.*|.*WARNING: Thr.*)", er)
            msg = "rc=%s %s" % (rc, m.group(1) if m else er[-100:])
    shutil.rmtree(sc, ignore_errors=True)
    return msg[:110]
class Bins(dict):
    def __missing__(self, k):
        self[k] = B.build(*{"fsx": ("fsx", "asan", C.FSX), "apx": ("apx", "asan", C.APX), "str": ("str", "asan", C.STR),
                            "conc": ("conc", "tsan", C.CONC), "concA": ("conc", "asanconc", C.CONC)}[k])
        return self[k]
done = 0
for f, i, old, new in pool:
    if done >= n:
        break
    path = os.path.join(repo, f)
    src = open(path).read()
    ls = src.split("\n")
    ls[i] = new
    open(path, "w").write("\n".join(ls))
    where = "%s:%d" % (os.path.basename(f), i + 1)
    desc = "%s  `%s` -> `%s`" % (where, old.strip(), new.strip())
    try:
        bins = Bins()
        try:
            bins["fsx"]
        except B.BuildError:
            continue
        order = next((o for k, o in ORDER.items() if k in f), NAT[:4] + POL[:4] + API + CON + NAT[4:] + POL[4:])
        done += 1
        hit = ""
        for p in order:
            m = run_prop(p, bins, "")
            if not m and p in CON:
                m = run_prop(p, bins, "A")
            if m:
                hit = "%s %s" % (p, m)
                break
        print(("killed " if hit else "SURVIVED ") + desc + ("  BY " + hit if hit else ""), flush=True)
    finally:
        open(path, "w").write(src)
