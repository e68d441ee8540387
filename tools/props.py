#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl and /verif/MANIFEST.json.

    python3 tools/props.py        rewrites both files

A property whose entry has done=True gets a check in MANIFEST.json; the
others are listed under not_applicable with their reason."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism,
         state=(), observe=(), done=False, reason=None, note="",
         technique="TLA+ specification checked with TLC; "
                   "recorded executions validated against it"):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  state=state, observe=observe, done=done, reason=reason,
                  note=note, technique=technique))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "state": [dict(name=a, meaning=b, where=c)
                              for a, b, c in p["state"]],
                    "mechanism": [dict(name=a, where=b)
                                  for a, b in p["mechanism"]],
                    "observe_at": list(p["observe"]),
                    "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "hooks": {"guard": "none",
                   "enable": "no hooks: the checks observe the public API",
                   "source_commits": []},
         "checks": [], "not_applicable": [],
         "notes": "Specifications are TLA+ modules in spec/, checked with "
                  "TLC; harness/run.py ID drives the code in /repo and has "
                  "TLC validate what it did. See DESIGN.md."}
    for p in P:
        if p["done"]:
            m["checks"].append({
                "property": p["id"],
                "quick_cmd": "bash check.sh %s quick" % p["id"],
                "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"],
                "level": "model_checking",
                "level_note": p["note"]})
        else:
            m["not_applicable"].append({
                "property": p["id"],
                "reason": p["reason"] or "check not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(m["checks"]), "checks")


main()
