"""Builds efsw from /repo's working tree, with its system calls renamed to the rig's, and links the harness to it."""
import fcntl
import glob
import hashlib
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EFSW_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
HARNESS = os.path.join(VERIF, "harness")

ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,alignment,function"]
FLAVORS = {
    # name: (efsw flags, harness flags, link flags, symbols to rename)
    "asan": (["-O1", "-g"] + ASAN, ["-O1", "-g", "-fsanitize=address"], ASAN, "redef.txt"),
    "plain": (["-O1", "-g"], ["-O1", "-g"], [], "redef.txt"),
    # the templates of the library are compiled here too, so that their accesses are seen
    "tsan": (["-O1", "-g", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], ["-O1", "-g", "-fsanitize=thread"], ["-fsanitize=thread"],
             "redef_conc.txt"),
    "asanconc": (["-O1", "-g"] + ASAN, ["-O1", "-g", "-fsanitize=address"], ASAN, "redef_conc.txt"),
    "fuzz": (["-O1", "-g", "-fsanitize=fuzzer-no-link"] + ASAN, ["-O1", "-g", "-fsanitize=fuzzer-no-link", "-fsanitize=address"],
             ["-fsanitize=fuzzer"] + ASAN, None),
}
JOBS = os.cpu_count() or 8


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources():
    out = sorted(glob.glob(REPO + "/src/efsw/*.cpp") + glob.glob(REPO + "/src/efsw/platform/posix/*.cpp"))
    skip = ("Win32", "FSEvents", "Kqueue")
    return [s for s in out if not any(k in os.path.basename(s) for k in skip)]


def headers_digest():
    hs = []
    for root in (REPO + "/include", REPO + "/src"):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if not f.endswith((".cpp", ".c", ".mm")):
                    hs.append(f)
                    hs.append(read(os.path.join(d, f)))
    return digest(*hs)


def compile_one(src, obj, flags, redefs):
    if os.path.exists(obj):
        return
    tmp = obj + ".%d.tmp.o" % os.getpid()
    err = None
    for std in ("-std=c++11", "-std=gnu++17"):
        try:
            run(["clang++", std, "-w", "-fPIC", "-c", src, "-o", tmp] + flags)
            err = None
            break
        except BuildError as e:
            err = e
    if err:
        raise err
    for r in redefs:
        run(["objcopy", "--redefine-syms=" + r, tmp])
    os.replace(tmp, obj)


def lib_objects(flavor, pool):
    lf, _, _, rename = FLAVORS[flavor]
    d = os.path.join(BUILD, "obj-" + flavor)
    os.makedirs(d, exist_ok=True)
    redefs = [os.path.join(HARNESS, rename)] if rename else []
    hd = headers_digest()
    rd = digest(*[read(r) for r in redefs])
    jobs, objs = [], []
    for s in repo_sources():
        obj = os.path.join(d, "efsw-%s-%s.o" % (os.path.basename(s)[:-4], digest(read(s), s, hd, lf, rd)))
        objs.append(obj)
        jobs.append(pool.submit(compile_one, s, obj,
                                lf + ["-I" + REPO + "/include", "-I" + REPO + "/src"], redefs))
    return objs, jobs


def second_copy(flavor, pool):
    """The library once more, as its debug and verbose build, with all of its own symbols renamed so that both fit in one program."""
    lf, _, _, rename = FLAVORS[flavor]
    lf = [f for f in lf if not f.startswith("-O")] + ["-O0", "-DDEBUG", "-DEFSW_VERBOSE"]
    d = os.path.join(BUILD, "obj-" + flavor)
    os.makedirs(d, exist_ok=True)
    redefs = [os.path.join(HARNESS, rename)]
    hd = headers_digest()
    rd = digest(*[read(r) for r in redefs])
    jobs, objs = [], []
    for s in repo_sources():
        obj = os.path.join(d, "debug-%s-%s.o" % (os.path.basename(s)[:-4], digest(read(s), s, hd, lf, rd)))
        objs.append(obj)
        jobs.append(pool.submit(compile_one, s, obj, lf + ["-I" + REPO + "/include", "-I" + REPO + "/src"], redefs))
    for j in jobs:
        j.result()
    out = os.path.join(d, "debug2-%s.o" % digest(*(objs + [read(os.path.abspath(__file__))])))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp.o" % os.getpid()
        run(["ld", "-r", "-o", tmp] + objs)
        names = set()
        for l in run(["nm", "--defined-only", tmp]).splitlines():
            n = l.split()[-1]
            if not n.startswith(("___asan", "asan.module")):  # one registration of the globals
                names.add(n)
        mp = tmp + ".map"
        with open(mp, "w") as f:
            for n in sorted(names):
                f.write("%s dbg_%s\n" % (n, n))
            f.write("_ZSt4cout rig_dbgout\n")
        run(["objcopy", "--redefine-syms=" + mp, tmp])
        os.unlink(mp)
        os.replace(tmp, out)
    return [out]


def with_included(s):
    """The text of a source and of the sources it includes."""
    t = read(s)
    for m in re.findall(rb'#include "(\w+\.cpp)"', t):
        t += read(os.path.join(HARNESS, m.decode()))
    return t


def harness_objects(flavor, files, pool):
    _, hf, _, _ = FLAVORS[flavor]
    d = os.path.join(BUILD, "obj-" + flavor)
    os.makedirs(d, exist_ok=True)
    hh = digest(*[read(h) for h in sorted(glob.glob(HARNESS + "/*.hpp"))])
    hd = headers_digest()
    objs, jobs = [], []
    for f in files:
        s = os.path.join(HARNESS, f)
        obj = os.path.join(d, "h-%s-%s.o" % (f[:-4], digest(with_included(s), hh, hd, hf)))
        objs.append(obj)
        jobs.append(pool.submit(run_harness_cc, s, obj, hf))
    return objs, jobs


def run_harness_cc(s, obj, hf):
    if os.path.exists(obj):
        return
    tmp = obj + ".%d.tmp.o" % os.getpid()
    run(["clang++", "-std=gnu++17", "-w", "-fPIC", "-c", s, "-o", tmp, "-I" + HARNESS, "-I" + REPO + "/include",
         "-I" + REPO + "/src"] + hf)
    os.replace(tmp, obj)


def build(name, flavor, files, second=False):
    """Returns the path of the binary for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(JOBS) as pool:
            hobj, j1 = harness_objects(flavor, files, pool)
            lobj, j2 = lib_objects(flavor, pool)
            if second:
                lobj += second_copy(flavor, pool)
            for j in j1 + j2:
                j.result()
        out = os.path.join(BUILD, "%s-%s-%s" % (name, flavor, digest(*(hobj + lobj))))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            run(["clang++"] + FLAVORS[flavor][2] + hobj + lobj + ["-o", tmp, "-lpthread", "-ldl"])
            os.replace(tmp, out)
            # keep the build directory small
            old = sorted(glob.glob(os.path.join(BUILD, "%s-%s-*" % (name, flavor))), key=os.path.getmtime)[:-4]
            for o in old:
                os.unlink(o)
        keep_small(os.path.join(BUILD, "obj-" + flavor))
        return out


def keep_small(d):
    fs = sorted(glob.glob(d + "/*.o"), key=os.path.getmtime)
    for f in fs[:-400]:
        os.unlink(f)
