"""C12-C16: the crash laboratory. The real mtd.cc, log.cc, checkpoint.cc and file.cc run in forked children whose
file operations are journalled; crash images are rebuilt from the journal and recovered by the real code."""
import os
from . import core
from .core import REPO, HARN

WRAPS = "open creat write fsync close rename ftruncate unlink nanosleep sleep pthread_cond_timedwait".split()

def build_lab():
    L = os.path.join(HARN, "lab")
    base = ["-std=gnu++17", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-include", core.config_h(), "-I" + REPO, "-I" + L, "-Wno-everything"]
    cov = ["-fsanitize-coverage=trace-pc-guard"]
    units = [(os.path.join(L, "lab.cc"), "clang++", base + cov + ["-fno-access-control"])]
    units += [(os.path.join(REPO, f + ".cc"), "clang++", base + cov) for f in
              ("log", "query_masstree", "checkpoint", "file", "kvthread", "value_array", "value_string", "value_versioned_array")]
    units += [(os.path.join(REPO, f + ".cc"), "clang++", base) for f in
              ("misc", "compiler", "str", "straccum", "string", "json", "msgpack", "kvio", "string_slice", "testrunner")
              if os.path.exists(os.path.join(REPO, f + ".cc"))]
    units += [(os.path.join(REPO, "clp.c"), "g++", ["-O1", "-g1", "-include", core.config_h(), "-I" + REPO, "-w"])]
    return core.build("lab", units, ["-fsanitize=address", "-fsanitize-coverage=trace-pc-guard"] + ["-Wl,--wrap=" + w for w in WRAPS] + ["-lpthread", "-lm", "-lnuma"])

RULE = ("Each case is one crash image: a run of the real server code (1-5 client threads through the request handler, 1-4 log threads, short epochs and naps, "
        "log buffers from tiny to full size, injected delays at code edges and in fsync, optionally checkpoints by 1-4 threads) is cut at a journalled file operation - "
        "during recovery, during service or at the end - with unsynced bytes lost, kept or cut at any byte, and the real recovery runs on the result; up to 4 run/crash/recover "
        "cycles follow one another on the same files. Distinct non-trivial: different sequence of log records, epochs and file sizes in the image. ")
EXTRA = {
    "C12": "Oracle: every recovered row equals the row after some prefix of its key's updates, and the least such choice closed under real-time order (whatever completed before a recovered update began is recovered) exists.",
    "C13": "Oracle: as for C12, plus: updates completed before the last 8 turns of every log writer are recovered; a second recovery of the same files, and a crash during recovery followed by recovery, give the same contents; versions after recovery exceed recovered ones.",
    "C14": "Oracle: as for C12 and C13 with log files cut at any byte, zeroes or malformed records after the last whole record, or missing, empty or header-less log files; updates flushed before the first missing byte was written are still recovered.",
    "C15": "Oracle: as for C12 and C13 with checkpoints running concurrently, committed, in progress or abandoned.",
    "C16": "Oracle: as for C12, and the records kept by recovery, spread over 1-4 files in any order within an epoch and partly duplicated, recover to the same contents.",
}
ASSUME = ["file model: appended bytes become durable in order within a file, at the latest when fsync returns; renames, creations and truncations are durable and ordered",
          "no checksums: bytes inside a record do not change (C14 covers missing bytes anywhere and foreign bytes after whole records)",
          "an update promised as flushed requires that no other update is stalled for several log-writer turns meanwhile",
          "the number of log and checkpoint threads is the same when the files are recovered (C16 excepted)",
          "log writer naps (200 ms), epoch interval and checkpoint interval are shortened by the harness"]

def run(prop, tier, seed, t0):
    exe = build_lab()
    res = core.Result(prop)
    maxs = 45 if tier == "quick" else 600
    env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:handle_abort=1:abort_on_error=0"}
    core.run_workers(res, exe, prop, seed, ["--max-seconds", maxs], maxs + 240, env=env, label="lab")
    res.samples.append("one case: lab --prop %s --one %d (a seeded episode; thread timing varies)" % (prop, core.worker_seed(seed, 77)))
    return res, res.stats.get("crash_images", 0), len(res.hashes), RULE + EXTRA[prop], ASSUME, "exploration"
