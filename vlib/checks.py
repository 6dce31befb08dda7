"""The table of checks."""
import os
import re
import shutil
import sys
import traceback

from . import build as B
from .engine import Check

FSX = ["main.cpp", "fsx.cpp", "gen.cpp", "runner.cpp", "model.cpp", "rig.cpp"]
APX = ["main.cpp", "api.cpp", "api_gen.cpp", "model.cpp", "rig.cpp"]
CONC = ["main.cpp", "conc.cpp"]
STR = ["main.cpp", "str.cpp", "rig.cpp"]
APX_PROPS = {p: (1500, 40, 100000, 600) for p in ("C12", "C13", "C15", "C16", "C19", "C20", "C21", "C22", "C25", "C26", "C27", "C28", "C29", "C30", "C31")}

# property: (quick cases per worker, quick seconds, thorough cases per worker, thorough seconds)
FSX_PROPS = {p: (2500 if p in ("C08", "C09", "C10", "C11") else 1500, 40, 100000, 600) for p in
             ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C14", "C24")}


def fsx(prop, args):
    binary = B.build("fsx", "asan", FSX)
    return explore(prop, binary, FSX_PROPS[prop])


def apx(prop, args):
    binary = B.build("apx", "asan", APX)
    return explore(prop, binary, APX_PROPS[prop])


def builds(prop, args):
    """The library and its debug and verbose build."""
    binary = B.build("apx", "asan", APX)
    try:
        binary = B.build("apx2", "asan", APX, second=True)
    except B.BuildError as e:
        c = Check(prop, binary)
        path = c.save(str(e), "violation", 0)
        print("VIOLATION property=%s replay=%s\n  the debug and verbose build does not build\n%s" % (prop, path, str(e)[:2000]))
        c.violations.append(path)
        return c.finish()
    return explore(prop, binary, APX_PROPS[prop])


def explore(prop, binary, q):
    c = Check(prop, binary)
    n, lim = (q[0], q[1]) if c.tier == "quick" else (q[2], q[3])
    c.corpus()
    c.batch(n, lim)
    c.report()
    return c.finish()


def strings(prop, args):
    c = Check(prop, B.build("str", "asan", STR))
    quick = c.tier == "quick"
    c.corpus()
    c.batch(4000 if quick else 400000, 60 if quick else 300)
    if not quick:
        c.fuzz(B.build("strfuzz", "fuzz", ["str_fuzz.cpp"]), 350)
    c.report()
    return c.finish()


def conc(prop, args):
    """Programs of threads, first under ThreadSanitizer, then under AddressSanitizer."""
    bins = [B.build("conc", f, CONC) for f in ("tsan", "asanconc")]
    c = Check(prop, bins[0], hang=10)
    c.schedules = True
    if not c.run_case(c.gen(0))[0] and re.search("FATAL|unexpected memory mapping", c.run_case(c.gen(0))[1]):
        c.notes.append("ThreadSanitizer does not start here: " + c.run_case(c.gen(0))[1])
        bins = bins[1:]
    quick = c.tier == "quick"
    for i, b in enumerate(bins):
        c.bin = b
        c.failures = []
        c.corpus()
        c.batch(1000000000, (60, 35)[i] if quick else (380, 200)[i], start=i * 500000000)
        c.report()
    return c.finish()


TABLE = {p: fsx for p in FSX_PROPS}
TABLE.update({p: apx for p in APX_PROPS})
TABLE["C30"] = builds
TABLE["C23"] = strings
TABLE.update({"C17": conc, "C18": conc})

RIG = ("Exploration: random histories from a seed against the real code, with the delivery thread, the clock and the "
       "notification queue under the harness' control. Trusts the harness' tree model and, for the native watcher, the "
       "running kernel's inotify; assumes one process changes the tree at a time. ")
NAT = "stateful model-based PBT of operation histories with controlled notification schedules; oracle: reference file tree"
POL = "stateful model-based PBT of operation histories with controlled polls; oracle: differences of reference snapshots"
DOC = {
    "C01": (NAT + ", replay of the events", "exploration", RIG),
    "C02": (NAT + ", every event justified by a recorded fact", "exploration", RIG),
    "C03": (NAT + ", expected event sequence per directory", "exploration", RIG),
    "C04": (NAT + ", probes in every directory afterwards", "exploration", RIG),
    "C05": (NAT + ", order of events per name", "exploration", RIG),
    "C06": (NAT + ", entries created at every system call of the registration", "exploration", RIG),
    "C07": ("PBT of histories with simulated and real kernel queue overflows; oracle: missed-event callbacks and probes", "exploration", RIG),
    "C08": (POL + ", replay of the events", "exploration", RIG),
    "C09": (POL + ", every event justified by a difference", "exploration", RIG),
    "C10": (POL + ", exactly one Modified per changed file", "exploration", RIG),
    "C11": (POL + ", probes in every directory afterwards", "exploration", RIG),
    "C14": ("stateful PBT of several watches with both back ends; oracle: per watch model and routing of events", "exploration", RIG),
    "C24": ("PBT with generated file names (bytes, length, depth) with both back ends; oracle: exact names from the model", "exploration", RIG),
}
APD = ("Exploration: random call histories from a seed against the real code under ASan and UBSan, with the delivery thread, "
       "the clock, the notification queue and system call results under the harness' control. Trusts the harness' model of "
       "the tree and of the registry; overlapping watches are excluded from event checks; one process changes the tree. ")
DOC.update({
    "C12": ("stateful model-based PBT of addWatch over all kinds of paths, options and failing system calls; oracle: reference registry and tree", "exploration", APD),
    "C13": ("stateful model-based PBT of addWatch/removeWatch/directories histories on both back ends; oracle: reference registry", "exploration", APD),
    "C15": ("PBT of trees with generated symbolic links, both back ends and all option settings; oracle: reference link resolution, probes, kernel watch list", "exploration", APD),
    "C16": ("PBT with injected file system types, mount tables and failing calls; oracle: reference classification, working directory and descriptors", "exploration", APD),
    "C19": ("stateful PBT of call and tree histories with failing calls; oracle: descriptors, kernel watches, threads and allocations before and after", "exploration", APD),
    "C20": ("PBT of histories with an injected failure at a generated occurrence of every system call; oracle: model of unaffected watches, sanitizers, hang detection", "exploration", APD),
    "C21": ("differential PBT: the same history through the C and the C++ interface on identical trees", "exploration", APD),
    "C22": ("stateful PBT of several C handles with shared callbacks, released at generated moments of a delivery; oracle: routing model, sanitizers, leak accounting", "exploration", APD),
    "C25": ("stateful PBT of failing and succeeding calls and clears; oracle: reference last error, C against C++", "exploration", APD),
    "C26": ("PBT over period values with a simulated clock; oracle: time asked to sleep between two examinations", "exploration", APD),
})
DOC.update({
    "C27": ("stateful PBT of adds, changes and repeated watch() calls, before and after the start; oracle: thread, nesting and time of every callback, marks and probes", "exploration", APD),
    "C28": ("stateful model-based PBT with generated calls made inside callbacks; oracle: reference registry, no callback of a removed watch, probes, termination", "exploration", APD),
    "C29": ("metamorphic PBT: the same history with and without the other FileWatchers; oracle: results and events of the first one are equal", "exploration", APD),
})
DOC["C31"] = ("stateful PBT of call histories among files of all kinds; oracle: state of the tree and of the process before and after", "exploration", APD)
DOC["C30"] = ("differential PBT: the same history given to the library and to its debug and verbose build, on identical trees", "exploration", APD)
DOC["C23"] = ("PBT and enumeration of code points and short byte sequences, coverage-guided fuzzing in the thorough tier; oracle: strict reference "
              "decoder, round trips, std::u32string model", "exploration",
              "All code points, all three-byte sequences and all pairs of a UTF-16 unit are enumerated; longer inputs are sampled. Latin-1 and ANSI "
              "functions only for characters that they can represent.")
COD = ("Exploration: random programs and random schedules (real threads, delays at locks and system calls), with happens-before race detection of "
       "each schedule that ran. Schedules are sampled, not enumerated; the harness' own threads synchronize only through efsw. ")
DOC["C17"] = ("PBT of multi-threaded programs with schedule noise under ThreadSanitizer and AddressSanitizer; oracle: no callback inside or after removal or "
              "destruction, no freed memory touched, every call ends", "exploration", COD)
DOC["C18"] = ("PBT of multi-threaded programs with schedule noise under ThreadSanitizer and AddressSanitizer; oracle: race reports, linearizability of the "
              "registry per path, ids and probes", "exploration", COD)
NA = {}


def setup():
    try:
        B.build("fsx", "asan", FSX)
        B.build("apx", "asan", APX)
        B.build("apx2", "asan", APX, second=True)
        B.build("str", "asan", STR)
        B.build("conc", "tsan", CONC)
        B.build("conc", "asanconc", CONC)
    except B.BuildError as e:
        print("build failed: %s" % e, file=sys.stderr)
        return 1
    return 0


def main(args):
    if not args or args[0] not in TABLE:
        print("usage: check PROPERTY; one of " + " ".join(sorted(TABLE)), file=sys.stderr)
        return 2
    try:
        return TABLE[args[0]](args[0], args[1:])
    except B.BuildError as e:
        print("build failed: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
