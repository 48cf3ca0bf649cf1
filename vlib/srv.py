"""C17: the real server process (AddressSanitizer, random delays) under model-checking clients."""
import os
from . import core
from .core import REPO, HARN

def build_server():
    L = os.path.join(HARN, "srv")
    base = ["-std=gnu++17", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-include", core.config_h(), "-I" + REPO, "-Wno-everything"]
    cov = ["-fsanitize-coverage=trace-pc-guard"]
    units = [(os.path.join(REPO, f + ".cc"), "clang++", base + cov) for f in
             ("mtd", "log", "checkpoint", "file", "query_masstree", "kvthread", "value_array", "value_string", "value_versioned_array")]
    units += [(os.path.join(REPO, f + ".cc"), "clang++", base) for f in LIB if os.path.exists(os.path.join(REPO, f + ".cc"))]
    units += [(os.path.join(L, "srv_delay.cc"), "clang++", base), (os.path.join(REPO, "clp.c"), "g++", ["-O1", "-g1", "-include", core.config_h(), "-I" + REPO, "-w"])]
    return core.build("mtdsrv", units, ["-fsanitize=address"] + cov + ["-lpthread", "-lm", "-lnuma"])

LIB = ("misc", "compiler", "str", "straccum", "string", "json", "msgpack", "kvio", "string_slice", "testrunner", "kvrandom")

def build_clients():
    L = os.path.join(HARN, "srv")
    base = ["-std=gnu++17", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-include", core.config_h(), "-I" + REPO,
            "-I" + os.path.join(HARN, "common"), "-I" + os.path.join(HARN, "seq"), "-Wno-everything"]
    units = [(os.path.join(L, "srv.cc"), "clang++", base + ["-fno-access-control"]), (os.path.join(REPO, "mtclient.cc"), "clang++", base + ["-Dmain=mtclient_main"])]
    units += [(os.path.join(REPO, f + ".cc"), "clang++", base) for f in LIB if os.path.exists(os.path.join(REPO, f + ".cc"))]
    units += [(os.path.join(REPO, "clp.c"), "g++", ["-O1", "-g1", "-include", core.config_h(), "-I" + REPO, "-w"])]
    return core.build("srv", units, ["-fsanitize=address", "-lpthread", "-lm", "-lnuma"])

RULE = ("One evaluation is one answer judged. Each case starts the real server with 1-3 threads of each kind (logging, checkpoints and epoch length vary; random delays at code edges) and runs 1-6 TCP, "
        "0-2 UDP, 0-2 bundled-library and 0-2 hostile clients; byte streams are pipelined, split at any byte and coalesced, also with the handshake. Every answer on a client's own keys is compared with an exact model, "
        "gets and updates of shared rows with a register linearizability check, insert/remove results of shared keys with their final presence; the whole contents are read back at the end and, once the logs are quiet, again "
        "after kill -9 and restart. Distinct non-trivial: cases with different operation streams.")
ASSUME = ["clients read their answers (one that never does blocks its server thread)", "keys up to 255 bytes, rows below 64 KB, columns in ascending order within a put",
          "loopback UDP does not lose datagrams while the server's socket buffer has room; gets are resent, updates are not"]

def run(prop, tier, seed, t0):
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build_server), ex.submit(build_clients)
        mtd, exe = a.result(), b.result()
    res = core.Result(prop)
    maxs = 45 if tier == "quick" else 600
    env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:handle_abort=1:abort_on_error=0"}
    core.run_workers(res, exe, prop, seed, ["--mtd", mtd, "--execs", 1000000, "--max-seconds", maxs, "--case-timeout", 220], maxs + 280, nworkers=6, env=env, label="srv")
    res.samples.append("one case: srv --mtd mtdsrv --prop C17 --one %d (a seeded workload; thread timing varies)" % core.worker_seed(seed, 77))
    s = res.stats
    n = sum(s.get(k, 0) for k in ("private_ops", "shared_ops", "client_library_ops"))
    return res, n, len(res.hashes), RULE, ASSUME, "exploration"
