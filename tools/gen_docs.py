#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the META of every check."""

import glob
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import boot  # noqa: E402

sys.meta_path.append(boot._HypothesisFinder())

PY = "/opt/venv/bin/python"
LEVEL_NOTE = (
    "Generated cases of bounded size against an independent oracle; it never "
    "establishes absence. Trusts numpy, scipy, torch, pandas, the oracle and "
    "the stated floating-point tolerances."
)


def main():
    props, checks = [], []
    for path in sorted(glob.glob(os.path.join(HERE, "vf/checks/c*.py"))):
        pid = os.path.basename(path)[:-3].upper()
        m = importlib.import_module(f"vf.checks.{pid.lower()}")
        M = m.META
        assert len(M["title"]) <= 80, (pid, len(M["title"]))
        n = len(re.findall(r"[.!?](?:\s|$)", M["statement"]))
        assert n <= 3, (pid, n, "sentences")
        for f in M["files"]:
            assert os.path.exists(os.path.join("/repo", f)), (pid, f)
        props.append(
            {
                "id": pid,
                "title": M["title"],
                "statement": M["statement"],
                "quantifier": {"over": M["over"], "text": M["quantifier"]},
                "why_tests_cant": M["why"],
                "anchors": {
                    "files": M["files"],
                    "mechanism": M["mechanism"],
                },
            }
        )
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"{PY} -B run.py {pid} --tier quick",
                "thorough_cmd": f"{PY} -B run.py {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": M.get(
                    "technique",
                    "property-based testing: generated inputs against a "
                    "reference model, with shrinking (Hypothesis)",
                ),
                "level": "exploration",
                "level_note": M.get("level_note", LEVEL_NOTE),
            }
        )
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in props:
            fh.write(json.dumps(p) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": f"{PY} -B tools/setup.py",
        "checks": checks,
        "not_applicable": [],
        "notes": (
            "No build step: pytspl is pure Python and every check compiles it "
            "from /repo's current sources. VERIF_SEED selects the seed. A "
            "failing case is written to evidence/replay-<id>.json; rerun it "
            "with run.py <id> --replay FILE."
        ),
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")
    design(props)
    print(len(props), "properties")


def design(props):
    from vf.core import Fixed

    def read(name):
        with open(os.path.join(HERE, "docs", name)) as fh:
            return fh.read()

    out = [read("head.md"), "## The properties\n"]
    for p in props:
        m = importlib.import_module(f"vf.checks.{p['id'].lower()}")
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(p["statement"] + "\n")
        parts = []
        for c in m.CLAUSES:
            if isinstance(c, Fixed):
                parts.append(f"{c.name} (all of a finite list)")
            else:
                parts.append(f"{c.name} ({c.quick} cases quick, {c.thorough} thorough)")
        out.append(f"* Generated and judged: {m.RULE}.")
        out.append(f"* Clauses: {'; '.join(parts)}.")
        for a in getattr(m, "ASSUMPTIONS", []):
            out.append(f"* Assumes: {a}.")
        out.append(f"* Beyond the tests: {m.META['why']}.")
        where = "; ".join(f"{x['name']}: {x['where']}" for x in m.META["mechanism"])
        out.append(f"* Anchored in {where}.\n")
    out.append(read("tail.md"))
    out.append("| seeded bug | property | needs | caught by |")
    out.append("|---|---|---|---|")
    caught = json.loads(read("caught.json"))
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        with open(os.path.join(d, "meta.json")) as fh:
            meta = json.load(fh)
        i = os.path.basename(d)
        by = ", ".join(caught.get(i, [])) or "none"
        out.append(f"| {i} | {meta['property']} | {meta['needs']} | {by} |")
    with open(os.path.join(HERE, "DESIGN.md"), "w") as fh:
        fh.write("\n".join(out) + "\n")


main()
