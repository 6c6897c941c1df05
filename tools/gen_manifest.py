#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when its id is in CLAIMED below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "online trace monitor over virtual-time simulations of the real executors"
CONF = "reference-model monitor over random operation sequences, full state compared at every step"
HIST = "offline history checker (linearizability, conservation) over chaos-scheduled threads"
T = {
 "C01": SIM + "; " + HIST, "C02": SIM, "C03": SIM, "C04": SIM + "; " + CONF, "C05": SIM + "; " + CONF,
 "C06": SIM + "; " + CONF, "C07": SIM + "; " + CONF, "C08": SIM + " with injected faults", "C09": SIM,
 "C10": SIM + "; real-time monitor for blocking executors", "C11": SIM + " with shutdowns and restarts",
 "C12": CONF, "C13": HIST, "C14": HIST + "; " + CONF, "C15": CONF, "C16": CONF, "C20": SIM + "; " + CONF, "C21": CONF + "; " + SIM,
 "C17": "online trace monitor over virtual-time pruner runs with faults, ticks computed independently",
 "C18": "online trace monitor over virtual-time cron runs with faults, ticks computed independently",
 "C19": "runtime assertion of the exact formula over boundary-heavy configurations",
 "C22": "monitored child processes, set-once history checker",
 "C23": CONF + ", over an emulated Postgres server", "C24": CONF + ", over an emulated Postgres server; " + HIST,
 "C25": CONF + ", over an emulated Postgres server", "C26": CONF + ", over an emulated Postgres server, with injected faults",
 "C27": "trace monitor over ready-job streams on an emulated Postgres server, with injected faults",
 "C28": CONF,
 "C29": "trace monitor over whole systems on an emulated Postgres server: committed changes against executions, with shutdowns in mid-statement",
}
NOTE = ("Held on the executions run (seeded; thousands to hundreds of thousands per run, counted in the evidence), observed at the "
        "public API of the code built from /repo's working tree. Trusts the harness's reference model and, where used, its virtual "
        "clock; says nothing about executions not run.")
PGNOTE = NOTE + (" The sandbox has no Postgres: the statements are run by an emulated server in the harness (wire protocol, the SQL the "
        "crate uses, row locks, transactions, LISTEN/NOTIFY), which is trusted to have Postgres's meaning for them.")
CLAIMED = os.environ.get("CLAIMED", "").split() or open(os.path.join(here, "tools", "claimed.txt")).read().split()
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
  "version": 1,
  "setup_cmd": "./check --build",
  "checks": [{
      "property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
      "technique": T[p], "level": "exploration", "level_note": PGNOTE if p in ("C23","C24","C25","C26","C27","C29") else NOTE,
  } for p in props if p in CLAIMED],
  "not_applicable": [{"property": p, "reason": "Runtime monitoring applies, but the check is not built yet."} for p in props if p not in CLAIMED],
  "notes": "No hooks in /repo: every check works through the public API. Known findings and fixed defects: known-findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
