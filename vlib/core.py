"""Shared machinery of the checks: building harnesses from /repo's working
tree, running seeded workers in parallel, replay files, evidence."""
import fcntl, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replay")
HARN = os.path.join(VERIF, "harness")
NCPU = max(1, min(8, os.cpu_count() or 8))

class CheckError(Exception):
    pass

def repo_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(REPO)):
        if f.endswith((".cc", ".hh", ".c", ".h")):
            h.update(f.encode())
            with open(os.path.join(REPO, f), "rb") as fd:
                h.update(fd.read())
    return h.hexdigest()

def config_h():
    p = os.path.join(REPO, "config.h")
    return p if os.path.exists(p) else os.path.join(HARN, "common", "config.h")

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)

def build(name, units, ldflags=(), linker="clang++"):
    """units: list of (source, compiler, flags).  Returns the binary path.
    Rebuilt whenever any repository source, harness source or flag changed."""
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256()
    h.update(repo_hash().encode())
    for root in (HARN,):
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".cc", ".hh", ".c", ".h")):
                    with open(os.path.join(dp, f), "rb") as fd:
                        h.update(f.encode() + fd.read())
    with open(config_h(), "rb") as fd:
        h.update(fd.read())
    h.update(repr((units, ldflags, linker)).encode())
    key = h.hexdigest()
    exe, stamp = os.path.join(d, name), os.path.join(d, "stamp")
    lock = open(os.path.join(d, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
            return exe
        def comp(i):
            src, cc, flags = units[i]
            obj = os.path.join(d, "%d_%s.o" % (i, os.path.basename(src)))
            r = sh([cc] + list(flags) + ["-c", src, "-o", obj])
            return obj, r
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(comp, range(len(units))))
        for (obj, r), u in zip(res, units):
            if r.returncode:
                raise CheckError("compiling %s failed:\n%s" % (u[0], r.stdout[-4000:]))
        r = sh([linker] + [o for o, _ in res] + list(ldflags) + ["-o", exe])
        if r.returncode:
            raise CheckError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
        open(stamp, "w").write(key)
        return exe
    finally:
        lock.close()

class Result:
    """What a check observed: counters, violations, samples."""
    def __init__(self, prop):
        self.prop = prop
        self.stats = {}
        self.violations = []        # (kind, replay path, message)
        self.known = []
        self.samples = []
        self.hashes = set()
        self.notes = []
    def add(self, d, prefix=""):
        for k, v in d.items():
            k = prefix + k
            if isinstance(v, (int, float)):
                self.stats[k] = self.stats.get(k, 0) + v
            else:
                self.stats[k] = v
    def maxi(self, k, v):
        self.stats[k] = max(self.stats.get(k, 0), v)
    def violation(self, kind, replay, msg):
        self.violations.append((kind, replay, msg))

def replay_file(prop, name, text):
    os.makedirs(REPLAY, exist_ok=True)
    p = os.path.join(REPLAY, "%s-%s" % (prop, name))
    with open(p, "w") as f:
        f.write(text)
    return p

def worker_seed(seed, i):
    return int.from_bytes(hashlib.sha256(b"%d/%d" % (seed, i)).digest()[:7], "big")

def run_workers(res, exe, prop, seed, args, timeout, prefix="", nworkers=None, env=None, label="tree", hash_cap=4000000):
    """Start one seeded copy of `exe` per core.  Each writes VIOL and STATS
    lines to its --out file, its current case to --progress, and the hashes of
    its distinct non-trivial cases to --hashes."""
    nworkers = nworkers or NCPU
    os.makedirs(REPLAY, exist_ok=True)
    tmp = os.path.join(BUILD, "run-%s-%d" % (label, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    procs = []
    e = dict(os.environ)
    e.update(env or {})
    for i in range(nworkers):
        base = os.path.join(tmp, "%s.%d" % (prop, i))
        cmd = [exe, "--prop", prop, "--seed", str(worker_seed(seed, i)), "--out", base + ".out", "--replay-dir", REPLAY,
               "--hashes", base + ".hash", "--progress", base + ".prog"] + [str(a) for a in args]
        lf = open(base + ".log", "w")
        procs.append((subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=e, cwd=tmp, start_new_session=True), base, cmd))
        lf.close()
    t0 = time.time()
    for p, base, cmd in procs:
        hung = False
        try:
            p.wait(max(1, t0 + timeout - time.time()))
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        out = open(base + ".out", errors="replace").read() if os.path.exists(base + ".out") else ""
        log = open(base + ".log", errors="replace").read()
        viols = [l.split("\t") for l in out.splitlines() if l.startswith("VIOL\t")]
        stats = [l.split("\t", 1)[1] for l in out.splitlines() if l.startswith("STATS\t")]
        for v in viols:
            res.violation(v[1], v[2], v[3] if len(v) > 3 else "")
            if log.strip():
                with open(v[2], "a") as f:
                    f.write("\n---- harness output ----\n" + log[-20000:])
        for s in stats:
            d = json.loads(s)
            for k in [k for k in d if k.startswith("max_")]:
                res.maxi(prefix + k, d.pop(k))
            d.pop("distinct_schedules", None)
            res.add(d, prefix)
        if os.path.exists(base + ".hash"):
            b = open(base + ".hash", "rb").read()
            if len(res.hashes) < hash_cap:
                res.hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
        if viols:
            continue
        if stats and p.returncode == 0 and not hung:
            continue
        # The worker hung or died without a report: replay its last case.
        cur = 0
        if os.path.exists(base + ".prog"):
            b = open(base + ".prog", "rb").read()
            cur = struct.unpack("<Q", b[:8])[0] if len(b) >= 8 else 0
        if not cur:
            raise CheckError("worker %s ended with %s before its first case:\n%s" % (" ".join(cmd), p.returncode, log[-3000:]))
        bad = 0
        last = ""
        for _ in range(2):
            try:
                r = sh([exe, "--prop", prop, "--replay-dir", REPLAY, "--one", str(cur)] + [str(a) for a in args], timeout=60, env=e, cwd=tmp)
                last = r.stdout
                bad += r.returncode != 0
            except subprocess.TimeoutExpired:
                last = "no answer within 60 s (a single case takes milliseconds)"
                bad += 1
        if bad == 2 or (log.strip() and p.returncode not in (0, 1, -9) ):
            path = replay_file(prop, "%s-%d.txt" % (label, cur), "harness: %s --prop %s --one %d\n%s\n%s\n---- first run ----\n%s" % (exe, prop, cur, "hang" if hung else "exit %s" % p.returncode, last[-20000:], log[-20000:]))
            res.violation("hang" if hung else "crash", path, (last or log).strip()[-400:].replace("\n", " | "))
        elif hung:
            res.notes.append("a worker was stopped by the time limit (%d s); its counters are missing" % timeout)
            res.stats[prefix + "workers_stopped"] = res.stats.get(prefix + "workers_stopped", 0) + 1
        else:
            raise CheckError("worker %s ended with %s and its last case %d does not reproduce:\n%s" % (" ".join(cmd), p.returncode, cur, log[-3000:]))
    shutil.rmtree(tmp, ignore_errors=True)

def known_findings(prop):
    p = os.path.join(VERIF, "known-findings")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def finish(res, tier, seed, level, evaluations, distinct, rule, assumptions, t0):
    ev = {"property": res.prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {"evaluations": int(evaluations), "distinct_nontrivial": int(distinct), "rule": rule,
                       "samples": res.samples or ["(none recorded)"]},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(res.violations)}
    ev["coverage"]["observed"] = {k: res.stats[k] for k in sorted(res.stats)}
    if res.notes:
        ev["coverage"]["notes"] = res.notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", res.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    for k, m in res.known:
        print("KNOWN-FINDING: property=%s %s" % (res.prop, m))
    seen = set()
    for kind, path, msg in res.violations:
        if (kind, msg[:80]) not in seen:
            seen.add((kind, msg[:80]))
            print("# %s: %s" % (kind, msg[:1000]))
        print("VIOLATION property=%s replay=%s" % (res.prop, path))
    print("%s: %d cases, %d distinct non-trivial, %d violations, %.1f s" % (res.prop, evaluations, distinct, len(res.violations), time.time() - t0))
    return 1 if res.violations else 0
