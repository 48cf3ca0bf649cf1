"""Sequential model-based stress under ASan/UBSan."""
import os
from . import core
from .core import REPO, HARN

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,shift,enum,nonnull-attribute", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
BASE = ["-std=gnu++17", "-O1", "-g1"]

def flags(extra=()):
    return BASE + ["-include", core.config_h(), "-I" + REPO, "-I" + os.path.join(HARN, "common"), "-I" + os.path.join(HARN, "seq"), "-Wno-everything"] + list(extra)

LIB = ("compiler", "str", "straccum", "string")

def build_simple(name, src, defs=(), lib=LIB, san=SAN, groups=0):
    f = flags(san) + list(defs)
    units = []
    s = os.path.join(HARN, "seq", src)
    if groups:
        units += [(s, "clang++", f + ["-DGROUP=%d" % g]) for g in range(groups)]
    units.append((s, "clang++", f))
    units += [(os.path.join(REPO, l + ".cc"), "clang++", f) for l in lib]
    return core.build(name, units, ["-lpthread"] + list(san))

ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0",
       "UBSAN_OPTIONS": "print_stacktrace=1"}

def sample(res, exe, prop, seed, args=(), limit=2500):
    for k in (77, 78):
        r = core.sh([exe, "--prop", prop, "--one", str(core.worker_seed(seed, k)), "--replay-dir", core.REPLAY] + [str(a) for a in args], timeout=120, env=dict(os.environ, **ENV))
        res.samples.append(r.stdout[:limit])

def explain(res, exe, prop, args=()):
    """Append the step-by-step replay of a failing case to its replay file."""
    for kind, path, msg in res.violations[:3]:
        try:
            seed = path.rsplit("-", 1)[1].split(".")[0]
            txt = open(path).read()
            r = core.sh([exe, "--prop", prop, "--one", seed, "--replay-dir", "/nonexistent"] + [str(a) for a in args], timeout=60, env=dict(os.environ, **ENV))
            with open(path, "a") as f:
                f.write("\n---- replay ----\n" + r.stdout[-30000:])
        except Exception:
            pass

def run_fuzz(prop, tier, seed, exe, quick_execs, thorough_execs, label, args=(), quick_s=45, thorough_s=500, env=None):
    res = core.Result(prop)
    quick = tier == "quick"
    maxs = quick_s if quick else thorough_s
    e = dict(ENV); e.update(env or {})
    core.run_workers(res, exe, prop, seed, ["--execs", quick_execs if quick else thorough_execs, "--max-seconds", maxs] + list(args), maxs + 150, env=e, label=label)
    explain(res, exe, prop, args)
    sample(res, exe, prop, seed, args)
    return res

TREE_RULE = ("Each case builds a key universe from one of 9 families (decimal, big-endian counters, few-letter strings with NUL and 0xff, long shared "
             "prefixes up to 255 bytes, NUL runs, mutations of one another across 8-byte boundaries, raw bytes), then runs 10-900 random operations "
             "against std::map on one of 8 compiled configurations (leaf widths 3-15, internal widths 3-15, binary/linear/fast search, concurrent and "
             "single-threaded versions, 32/64-bit versions, debug level 1). Non-trivial: the map at some time held more keys than one leaf; distinct: "
             "different hash of universe and operations.")

ROWS_RULE = ("Each case runs 5-90 random engine operations (put, replace, remove, get, one-column get, scan, reverse scan, rows left by recovery as removal "
             "markers) over 1-40 keys, or 1-25 updates and checkpoint round trips of a single row, against column vectors; columns 3-700, values 0-30000 "
             "bytes with NUL and 0xff, same-length replacements and rows filled to the representation's limit. Run for each row representation mtd builds "
             "with (bag, array, string). Non-trivial: more than 10 operations (or more than 2 updates); distinct: different hash of operations and bytes.")

MPACK_RULE = ("Each case draws values (all integer widths and boundaries, doubles, strings with NUL and all length classes, nested arrays and maps) and checks "
              "encode against the canonical reference, decode of every legal encoding by both parsers under random chunkings with consumed length, "
              "and truncated, mutated and random bytes in exactly sized buffers, comparing verdict and value with a reference decoder. Non-trivial: a "
              "composite value or malformed input; distinct: different hash of the bytes fed in.")
MPACK_ASSUME = ["map keys are strings or integers (the value type has only string keys)"]
JSON_RULE = ("Each case draws documents and prints them in all escape and whitespace forms, parses them whole and in random chunks, round-trips values through the "
             "printer, feeds mutated, truncated and random bytes in exactly sized buffers with a reference grammar's verdict, or runs 5-200 random value "
             "operations (copies, element and member references, erase, merge, swap, self and component assignment) against a deep-copy model. "
             "Non-trivial: more than a scalar; distinct: different hash of text or operations.")
JSON_ASSUME = ["doubles are compared to 12 significant digits after printing; NaN and infinities are not JSON values",
               "the equality operator on arrays and objects compares identity, so deep comparison is done by the harness"]

STR_RULE = ("Each case runs a random sequence of operations over a set of String, Str and StringAccum values (construction from owned, stable and literal memory, "
            "substrings sharing memory, appends at and beyond the shared capacity, in-place mutation, padding, case, trimming, searching, comparison, "
            "number formatting and parsing, printable and hex forms, UTF-8 and Windows-1252 conversion, globbing, natural order) against std::string models, "
            "with every live value compared after every operation. Non-trivial: several values alive and mutated; distinct: different hash of operations and bytes.")
STR_ASSUME = ["a moved-from string is only assigned or destroyed", "integers of at most 18 digits", "a string is used by one thread at a time, as the library documents",
              "natural order is checked for antisymmetry, zero exactly on equality, and numeric order of plain numbers",
              "StringAccum::append_encoded has no user in the tree and is not exercised"]

def build_rows(t):
    return build_simple("rows_" + t.lower(), "rows.cc", defs=() if t == "BAG" else ("-DMASSTREE_ROW_TYPE_%s=1" % t,),
                        lib=LIB + ("kvthread", "value_array", "value_versioned_array", "value_string", "json", "msgpack"))

def run(prop, tier, seed, t0):
    if prop == "C10":
        res = core.Result(prop)
        quick = tier == "quick"
        for t in ("BAG", "ARRAY", "STR"):
            exe = build_rows(t)
            maxs = (14 if t == "BAG" else 9) if quick else 200
            core.run_workers(res, exe, prop, seed, ["--execs", 100000000, "--max-seconds", maxs], maxs + 150, prefix=t.lower() + "_", env=ENV, label="rows" + t)
            explain(res, exe, prop)
            sample(res, exe, prop, seed, limit=900)
        return res, sum(v for k, v in res.stats.items() if k.endswith("_execs") and "nontrivial" not in k), len(res.hashes), ROWS_RULE, [
            "column numbers in one put ascend, as the code documents; a bag row is at most 65535 bytes with its column table (its offsets are 16 bits)",
            "the versioned-array representation does not compile in this tree (value_versioned_array.hh specialises query_helper before it is declared) and cannot be selected"], "exploration"
    if prop in ("C02", "C03"):
        exe = build_simple("tree_seq", "tree_seq.cc", groups=8)
        res = run_fuzz(prop, tier, seed, exe, 9000, 3000000, "treeseq")
        return res, res.stats.get("execs", 0), len(res.hashes), TREE_RULE, [
            "keys of up to 255 bytes; leaf widths below 11 are exercised without slices ending in NUL (one 8-byte slice can need ten leaf slots then)",
            "key buffers are readable 8 bytes beyond either end, as the word-wise comparison documents"], "exploration"
    if prop in ("C18", "C19"):
        name = {"C18": "mpack", "C19": "jsonf"}[prop]
        exe = build_simple(name, name + ".cc", lib=LIB + ("json", "msgpack"))
        res = run_fuzz(prop, tier, seed, exe, 100000000, 100000000, name, quick_s=35)
        return res, res.stats.get("execs", 0), len(res.hashes), MPACK_RULE if prop == "C18" else JSON_RULE, MPACK_ASSUME if prop == "C18" else JSON_ASSUME, "exploration"
    if prop == "C20":
        exe = build_simple("strf", "strf.cc")
        res = run_fuzz(prop, tier, seed, exe, 100000000, 100000000, "strf", quick_s=35)
        return res, res.stats.get("execs", 0), len(res.hashes), STR_RULE, STR_ASSUME, "exploration"
    raise core.CheckError("unknown property " + prop)
