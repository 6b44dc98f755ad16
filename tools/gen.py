"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, not by a check)."""

import importlib.util
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=None, technique="", note="", level="exploration"):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                         observe_at=observe or [], hook_needed=None),
            _t=technique, _n=note, _l=level,
        )
    )  # fmt: skip


spec = importlib.util.spec_from_file_location("table", os.path.join(HERE, "tools", "table.py"))
mod = importlib.util.module_from_spec(spec)
mod.P = P
spec.loader.exec_module(mod)

PROPS.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")

checks, na = [], []
for p in PROPS:
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        na.append(dict(property=i, reason="check not built yet"))
        continue
    checks.append(
        dict(
            property=i,
            quick_cmd=f"python3 run.py {i} --tier quick",
            thorough_cmd=f"python3 run.py {i} --tier thorough",
            technique=p["_t"], level=p["_l"], level_note=p["_n"],
        )
    )
man = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -m vf.native fast opt asan",
    checks=checks,
    not_applicable=na,
    notes=mod.NOTES,
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", len(na), "not claimed")
