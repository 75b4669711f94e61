#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based testing: generated schemas/data/configs, referential invariant on the output",
    "C02": "property-based testing: generated cases against a reference row-set evaluator",
    "C03": "property-based testing: source/destination round-trip over generated types, values, names and row counts",
    "C04": "property-based testing: generated and exhaustively enumerated small graphs against a reference ordering",
    "C05": "property-based testing: generated planner configs against a reference planner",
    "C06": "property-based testing: generated plan queries executed against an AST interpreter; metamorphic simplify",
    "C07": "property-based testing: round-trip and metamorphic (hash seed, order permutations) runs of the CLI",
    "C08": "property-based testing: generated runs incl. failing ones, before/after source snapshot",
    "C09": "property-based testing: generated histories and refused runs, before/after destination snapshot against a model",
    "C10": "property-based testing: generated schemas, catalog comparison after create",
    "C11": "property-based testing: generated cases, differential against the uncompacted sample",
    "C12": "property-based testing: stateful merge histories against a reference model",
    "C13": "property-based testing: generated cases, differential against the plain sample",
    "C14": "property-based testing: stateful run histories against a reference model of conflicts",
    "C15": "property-based testing: generated rows and filter chains against per-operation contracts",
    "C16": "property-based testing: marker values in every filtered cell, differential against the unfiltered run",
    "C17": "property-based testing with injected write faults (destination triggers) at generated positions",
    "C18": "property-based testing: histories of runs and inserts, id-generator invariant",
    "C19": "property-based testing: generated schemas against reference inference; metamorphic declared-vs-inferred",
    "C20": "property-based testing: repeated random runs, exact counts, consistency and statistical bounds",
    "C21": "property-based testing: generated layered configs and environments against a reference merge",
    "C22": "property-based testing: generated TLS settings against live servers with test certificates",
    "C23": "property-based testing: differential across dialects and dialect pairs",
    "C24": "property-based testing: differential of JSON files against database output",
    "C25": "property-based testing: generated schedules of concurrent transactions, output compared with the samples of all committed states",
}
checks = []
missing = []
for i in range(1, 26):
    cid = f"C{i:02d}"
    if os.path.exists(os.path.join(ROOT, "pbt", "checks", cid.lower() + ".py")):
        checks.append(
            {
                "property": cid,
                "quick_cmd": f"./check {cid} --tier quick",
                "thorough_cmd": f"./check {cid} --tier thorough",
                "evidence_file": f"evidence/{cid}.json",
                "technique": TECH[cid],
                "level": "exploration",
                "level_note": "Generated-input search with shrinking against an explicit oracle, on the real code and real databases; "
                "a pass covers the generated cases counted in the evidence, no more. Trusts the oracle in pbt/, the raw database drivers and the database servers.",
            }
        )
    else:
        missing.append({"property": cid, "reason": "check not built yet"})
out = {
    "version": 1,
    "setup_cmd": "test -x ./check && /opt/venv/bin/python -c 'import subsetter'",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo. ./check starts throw-away PostgreSQL and MySQL servers as an unprivileged user below a scratch directory it removes.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "missing")
