#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
import props
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
na = {x["property"] for x in props.NOT_APPLICABLE}
checks = [dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
               technique=p["technique"], level=p["level"], level_note=p["note"].strip())
          for p in props.PROPS if p["id"] not in na and os.path.exists(os.path.join(here, "checks", p["id"].lower() + ".py"))]
missing = [p["id"] for p in props.PROPS if p["id"] not in na and p["id"] not in {c["property"] for c in checks}]
json.dump(dict(version=1, setup_cmd="python3-vt run.py setup", checks=checks, not_applicable=props.NOT_APPLICABLE),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks; properties without a check:", missing)
