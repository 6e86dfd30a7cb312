#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json.

Everything which describes the properties is in this one file, so that the
three stay in step.  Run it after editing: python3 tools/meta.py
"""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PROPS = []
CHECKS = {}
NOT_APPLICABLE = {}


def prop(id, title, statement, over, text, why, files, mech, observe=None, *, check=None, na=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })
    if na:
        NOT_APPLICABLE[id] = na
    else:
        CHECKS[id] = check


def chk(technique, note, builds=("multi",), bins=False, level="exploration", repeat=1, assumptions=()):
    return {"technique": technique, "note": note, "builds": list(builds), "bins": bins, "level": level,
            "repeat": repeat, "assumptions": list(assumptions)}


exec((ROOT / "tools" / "props.py").read_text())

PROPS.sort(key=lambda p: p["id"])
(ROOT / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in PROPS))
(ROOT / "checks.json").write_text(json.dumps(
    {k: {x: v[x] for x in ("builds", "bins", "level", "repeat", "assumptions")} for k, v in sorted(CHECKS.items())},
    indent=1) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": k,
        "quick_cmd": f"python3 check.py {k}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {k}",
        "evidence_file": f"evidence/{k}.json",
        "technique": v["technique"],
        "level": v["level"],
        "level_note": v["note"],
    } for k, v in sorted(CHECKS.items())],
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
    "notes": "No hooks in /repo: everything is reached through the public API, the C API and the command line programs. "
             "Replay a violation with `python3 check.py <id> --replay <file>`. See DESIGN.md.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(f"{len(PROPS)} properties, {len(CHECKS)} checks")
