#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = ("Controlled-schedule monitoring of the real tree code: seeded random/PCT/stall schedules with a switch possible at every shared access. "
         "Evidence for the programs and schedules run, not a proof; interleavings are sequentially consistent ones.")
C = {
 "C01": ("controlled-schedule stress (own scheduler behind compiler-inserted access hooks) + per-key linearizability checker over recorded histories", "exploration", SCHED),
 "C04": ("controlled-schedule stress + online/offline scan-trace checker", "exploration", SCHED),
 "C05": ("controlled-schedule stress + shadow-memory monitor of every access under eager legal reclamation", "exploration", SCHED),
 "C07": ("controlled-schedule stress + allocation ledger monitor (exact balance, repeatability, leak check)", "exploration", SCHED),
 "C08": ("controlled-schedule stress + optimistic-transaction monitor (phantom oracle over recorded insertions)", "exploration", SCHED),
 "C09": ("controlled-schedule stress + progress monitor (step bound under fair scheduling, lock-state check at quiescence)", "exploration", SCHED),
}
if os.path.exists(os.path.join(V, "tools", "manifest_more.py")):
    exec(open(os.path.join(V, "tools", "manifest_more.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "MASSTREE_VERIF", "enable": "no hooks are needed: the checks compile /repo's unmodified sources with compiler-inserted instrumentation", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                 "evidence_file": "evidence/%s.json" % i, "technique": C[i][0], "level": C[i][1], "level_note": C[i][2]} for i in ids if i in C],
     "not_applicable": [{"property": i, "reason": "not claimed: no check has been built for it yet (see DESIGN.md)"} for i in ids if i not in C],
     "notes": "known-findings lists repaired and recorded defects. DESIGN.md describes oracles, workloads and bounds."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
