#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one table (tools/props.py)"""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props                                # noqa: E402

ROOT = os.path.dirname(HERE)


def main():
    """Write both files"""
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in props.PROPS:
            rec = {"id": p["id"], "title": p["title"],
                   "statement": p["statement"],
                   "quantifier": {"over": p["over"], "text": p["text"]},
                   "why_tests_cant": p["why"],
                   "anchors": {"files": p["files"],
                               "mechanism": [{"name": n, "where": w}
                                             for n, w in p["mech"]],
                               "state": [{"name": n, "meaning": m, "where": w}
                                         for n, m, w in p.get("state", [])],
                               "observe_at": p.get("observe", []),
                               "hook_needed": None}}
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps(rec) + "\n")
    checks = []
    napp = []
    for p in props.PROPS:
        if p.get("na"):
            napp.append({"property": p["id"], "reason": p["na"]})
            continue
        cmd = f"/opt/venv/bin/python check.py {p['id']} --tier "
        checks.append({"property": p["id"], "quick_cmd": cmd + "quick",
                       "thorough_cmd": cmd + "thorough",
                       "technique": p["technique"], "level": "exploration",
                       "level_note": p["note"]})
    man = {"version": 1,
           "setup_cmd": "/opt/venv/bin/python check.py --selftest",
           "hooks": {"guard": "none",
                     "enable": "no hooks are needed: every seam is outside the "
                               "code under test (subprocess boundary, patched "
                               "file layer, link-time allocation wrap, "
                               "generated scheme stubs)",
                     "source_commits": []},
           "checks": checks, "not_applicable": napp, "notes": props.NOTES}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    try:
        import jsonschema
    except ImportError:
        return
    for name, path in (("PROPERTIES", None), ("MANIFEST", "MANIFEST.json")):
        with open(f"/root/.vp/{name}.schema.json") as fh:
            schema = json.load(fh)
        if path:
            jsonschema.validate(man, schema)
        else:
            with open(os.path.join(ROOT, "properties.jsonl")) as fh:
                for line in fh:
                    jsonschema.validate(json.loads(line), schema)
    print(len(checks), "claimed,", len(napp), "not applicable")


if __name__ == "__main__":
    main()
