"""C06 and C11: reclamation and whole rows, the real kvthread/kvrow code under the controlled scheduler."""
import os
from . import core
from .core import REPO, HARN

def build_kv(row):
    S = os.path.join(HARN, "sched")
    base = ["-std=gnu++17", "-O1", "-g1", "-include", core.config_h(), "-I" + REPO, "-I" + S, "-Wno-everything"]
    if row != "BAG":
        base.append("-DMASSTREE_ROW_TYPE_%s=1" % row)
    inst = base + ["-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
    units = [(os.path.join(S, "rt.cc"), "clang++", base + ["-O2"]), (os.path.join(S, "kv_sched.cc"), "clang++", inst)]
    units += [(os.path.join(REPO, f + ".cc"), "clang++", base) for f in ("compiler", "str", "straccum", "string", "json")]
    return core.build("kv_" + row.lower(), units, ["-lpthread"])

def build_stress():
    base = ["-std=gnu++17", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-include", core.config_h(), "-I" + REPO, "-Wno-everything"]
    units = [(os.path.join(HARN, "sched", "rcu_stress.cc"), "clang++", base)]
    units += [(os.path.join(REPO, f + ".cc"), "clang++", base) for f in ("compiler", "str", "straccum", "string")]
    return core.build("rcu_stress", units, ["-lpthread", "-fsanitize=address"])

C06_RULE = ("Each case is a generated program of 2-4 threads that open and close critical sections, hand memory over (plain blocks, pool blocks, callbacks), "
            "collect, and advance the global epoch, with epochs starting near wrap-around in part of the cases, under one of 4 schedulers that may switch at "
            "every shared access of the real kvthread.cc; plus a real-thread stress of the same code under AddressSanitizer. Non-trivial: operations "
            "overlapped and at least 3 switches happened; distinct: different hash of the switch sequence. Oracle: no reclamation while a section open at "
            "hand-over is open, each hand-over reclaimed exactly once, everything reclaimed within a bounded number of quiet rounds.")
C11_RULE = ("Each case is a generated program of 2-4 threads running put (some columns), replace, remove, get and scan of the real query engine on a few rows and "
            "keys, under one of 4 schedulers that may switch at every shared access, for each row representation. Non-trivial: operations overlapped and at "
            "least 3 switches happened; distinct: different hash of the switch sequence. Oracle: versions of a key's updates are distinct and grow with real "
            "time; replaying the updates by version gives every result, and every row read equals the columns after exactly one version within the read's window.")

def run(prop, tier, seed, t0):
    quick = tier == "quick"
    res = core.Result(prop)
    if prop == "C06":
        exe = build_kv("BAG")
        st = build_stress()
        half = max(1, core.NCPU // 2)
        maxs = 18 if quick else 300
        for pool in (0, 1):
            core.run_workers(res, exe, prop, seed + 1000 * pool, ["--pool", pool, "--execs", 100000000, "--max-seconds", maxs], maxs + 120,
                             prefix="pool%d_" % pool, label="kv%d" % pool)
        secs = 8 if quick else 200
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:quarantine_size_mb=64:exitcode=77")
        try:
            r = core.sh([st, "--seed", str(seed), "--max-seconds", str(secs)], timeout=secs + 120, env=env)
            if r.returncode:
                path = core.replay_file(prop, "stress-%d.txt" % seed, "%s --seed %d --max-seconds %d\nexit %d\n%s" % (st, seed, secs, r.returncode, r.stdout[-20000:]))
                res.violation("stress", path, r.stdout.strip()[-300:].replace("\n", " | "))
            else:
                res.stats["stress_seconds"] = secs
                res.stats["stress_report"] = r.stdout.strip()[-300:]
        except Exception as e:
            path = core.replay_file(prop, "stress-%d.txt" % seed, "%s --seed %d --max-seconds %d\nno end: %s\n" % (st, seed, secs, e))
            res.violation("stress-hang", path, "the stress run did not end within %d s of its limit" % 120)
        r = core.sh([exe, "--prop", prop, "--pool", "1", "--one", str(core.worker_seed(seed, 77))], timeout=60)
        res.samples.append(r.stdout[:3000])
        n = sum(v for k, v in res.stats.items() if k.endswith("_execs") and "nontrivial" not in k)
        return res, n, len(res.hashes), C06_RULE, [
            "interleavings are sequentially consistent at the granularity of memory accesses (no store-buffer reordering) in the scheduled part",
            "memory is handed over within a critical section of the handing thread, as the code does; epochs are odd and advance by 2 near wrap-around, as in mtd (0 means inactive)",
            "bounded: 20 + pending/32 quiet rounds"], "exploration"
    res = core.Result(prop)
    n = 0
    for row in ("BAG", "ARRAY", "STR"):
        exe = build_kv(row)
        maxs = (20 if row == "BAG" else 12) if quick else 200
        core.run_workers(res, exe, prop, seed, ["--execs", 100000000, "--max-seconds", maxs], maxs + 120, prefix=row.lower() + "_", label="kv" + row)
        r = core.sh([exe, "--prop", prop, "--one", str(core.worker_seed(seed, 77))], timeout=60)
        res.samples.append(row + ": " + r.stdout[:1500])
    n = sum(v for k, v in res.stats.items() if k.endswith("_execs") and "nontrivial" not in k)
    return res, n, len(res.hashes), C11_RULE, [
        "interleavings are sequentially consistent at the granularity of memory accesses (no store-buffer reordering)",
        "no log attached (its lock nests inside the leaf lock; the logging path is exercised by the recovery checks)",
        "the versioned-array representation does not compile in this tree"], "exploration"
