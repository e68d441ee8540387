"""Helper: seed(id, property, [(file, old, new), ...], demo, needs, breaks)
writes seeded/<id>/ with a patch against /repo's working tree."""
import json
import os
import shutil
import subprocess
import tempfile

V = "/verif"


def seed(bid, prop, edits, demo, needs, breaks):
    d = os.path.join(V, "seeded", bid)
    work = tempfile.mkdtemp(prefix="mkseed-")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "list"],
                              stdout=subprocess.DEVNULL)
        for f in sorted(set(e[0] for e in edits)):
            for side in "ab":
                dst = os.path.join(work, side, f)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copy(os.path.join("/repo", f), dst)
        for f, old, new in edits:
            p = os.path.join(work, "b", f)
            s = open(p, newline="").read()
            assert s.count(old) == 1, "%s: %d matches in %s of %r" % (
                bid, s.count(old), f, old)
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["diff", "-ru", "a", "b"], cwd=work,
                              stdout=subprocess.PIPE).stdout.decode()
        lines = []
        for l in diff.splitlines():
            if l.startswith("diff -ru"):
                f = l.split()[-1][2:]
                lines.append("diff --git a/%s b/%s" % (f, f))
            elif l.startswith(("--- ", "+++ ")):
                lines.append(l.split("\t")[0])
            else:
                lines.append(l)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write("\n".join(lines) + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(
            "#!/bin/bash\n# exit 0: the property holds\n"
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        open(os.path.join(d, "demo.py"), "w").write(
            "import sys\nsys.path.insert(0, '/repo')\n"
            "sys.dont_write_bytecode = True\n" + demo.lstrip("\n"))
        open(os.path.join(d, "meta.json"), "w").write(json.dumps(
            {"property": prop, "needs": needs, "what_it_breaks": breaks},
            indent=1) + "\n")
        subprocess.check_call(["git", "-C", "/repo", "apply", "--check",
                               os.path.join(d, "patch.diff")])
    finally:
        shutil.rmtree(work)
