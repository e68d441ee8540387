"""usage: fixed.py PROP HASH...   records fix commits of /repo"""
import os
import json
import subprocess
import sys

P = "/verif/known_findings.json"
d = json.load(open(P))
for h in sys.argv[2:]:
    s = subprocess.check_output(["git", "-C", os.environ.get("FIXREPO", "/repo"), "log", "-1",
                                 "--format=%h %s", h]).decode().strip()
    h, s = s.split(" ", 1)
    assert s.startswith("fix: ")
    line = "fixed: property=%s %s %s" % (sys.argv[1], h, s[5:])
    if line not in d["fixed"]:
        d["fixed"].append(line)
json.dump(d, open(P, "w"), indent=1)
