#!/usr/bin/env python3
"""
Write MANIFEST.json from properties.jsonl and the registered domains.
"""
import json
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
sys.dont_write_bytecode = True
from vp.domains import BY_PROPERTY  # noqa: E402

checks, na = [], []
for line in (VERIF / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)["id"]
    d = BY_PROPERTY.get(p)
    if d is None:
        na.append(dict(property=p, reason="The check for this property is not built yet."))
        continue
    checks.append(
        dict(
            property=p,
            quick_cmd=f"python3 check.py {p} --tier quick",
            thorough_cmd=f"python3 check.py {p} --tier thorough",
            technique=d.technique,
            level="model_checking",
            level_note=d.level_note,
        )
    )
json.dump(
    dict(
        version=1,
        setup_cmd="python3 tools/setup.py",
        checks=checks,
        not_applicable=na,
        notes="No hooks: the drivers use the interfaces the code has anyway. See DESIGN.md.",
    ),
    (VERIF / "MANIFEST.json").open("w"),
    indent=1,
)
(VERIF / "MANIFEST.json").open("a").write("\n")
