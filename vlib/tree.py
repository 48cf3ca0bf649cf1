"""C01 C04 C05 C07 C08 C09: the concurrent tree under a controlled scheduler."""
import os
from . import core
from .core import REPO, HARN

def build_sched():
    S = os.path.join(HARN, "sched")
    base = ["-std=gnu++17", "-O1", "-g", "-include", core.config_h(), "-I" + REPO, "-I" + S, "-Wno-everything"]
    inst = base + ["-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
    units = [(os.path.join(S, "rt.cc"), "clang++", base + ["-O2"]), (os.path.join(S, "tree_sched.cc"), "clang++", inst)]
    units += [(os.path.join(REPO, f + ".cc"), "clang++", base) for f in ("compiler", "str", "straccum", "string")]
    return core.build("tree_sched", units, ["-lpthread"])

RULE = ("Each case is one generated program: 2-4 logical threads x 1-6 operations over 6-30 keys of one of 8 key families "
        "(shared 8-byte prefixes, suffixes, NUL bytes, key-is-prefix-of-key, layers in layers) on a prefilled table of one of "
        "5 node-width/search configurations, run under one of 4 schedulers (random, PCT, write-biased, stall) that may switch "
        "threads at every shared memory access. Non-trivial: operations of different threads overlapped in time and at least 3 "
        "context switches happened; distinct: different hash of the sequence of (thread, access) switches.")
ASSUME = ["interleavings are sequentially consistent at the granularity of memory accesses (no store-buffer reordering)",
          "memory is reclaimed as eagerly as the grace-period rules allow: an object retired is poisoned once every operation running at its retirement has ended"]
EXTRA = {
    "C01": "Oracle: per-key linearizability checker (Wing/Gong with value identities) over the recorded call/return history of get/put/insert-if-absent/remove, final contents included.",
    "C04": "Oracle: every item a scan emits must be in range, in strict order, never twice, and (key, value) must have been current at some moment between scan start and emission; keys present during the whole scan must be emitted.",
    "C05": "Oracle: shadow state of every allocation; any instrumented access to a freed node, suffix block, gc record or value, any double or mismatched release.",
    "C07": "Oracle: allocation ledger by kind: exact emptiness after removing all keys, repeatable node counts over fill/empty cycles, nothing left after destroy.",
    "C08": "Oracle: transactions over node versions (as an optimistic client would run them): a committed one saw no phantom, own inserts are accounted for, sequential version checks are exact.",
    "C09": "Oracle: step bound under a fair scheduler (no thread waits for ever), no lock held at the end, abandoned insertions included.",
}

def run(prop, tier, seed, t0):
    exe = build_sched()
    res = core.Result(prop)
    quick = tier == "quick"
    execs = {"C07": 60000, "C08": 130000, "C05": 150000, "C09": 110000}.get(prop, 150000) if quick else 20000000
    maxs = 70 if quick else 600
    core.run_workers(res, exe, prop, seed, ["--execs", execs, "--max-seconds", maxs], maxs + 120)
    # one written-out case
    r = core.sh([exe, "--prop", prop, "--one", str(core.worker_seed(seed, 77))], timeout=60)
    res.samples.append(r.stdout[:3000])
    n = res.stats.get("execs", 0)
    return res, n, len(res.hashes), RULE + " " + EXTRA[prop], ASSUME, "exploration"
