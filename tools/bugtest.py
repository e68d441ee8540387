#!/usr/bin/env python3
"""usage: bugtest.py [-j N] [--no-tests] [--checks C11,C12] ID...

Confirms planted bugs (seeded/ID): in a private mount and network
namespace with a patched copy of /repo bound over /repo, builds, runs the
stable tests, the demonstration (on the clean copy too) and the check."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = "/verif"
BASE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = set(BASE["stable"])


def ns(copy, script, timeout, log):
    """script with copy bound over /repo; evidence goes to a scratch dir"""
    ev = tempfile.mkdtemp(prefix="bt-ev-")
    inner = ("ip link set lo up; mount --bind %s /repo; mount --bind %s "
             "/verif/evidence; cd /repo; %s" % (copy, ev, script))
    try:
        with open(log, "w") as f:
            try:
                p = subprocess.run(["unshare", "-rmn", "--kill-child", "--fork", "-p", "--mount-proc", "bash", "-c", inner],
                                   stdout=f, stderr=subprocess.STDOUT,
                                   timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 124
    finally:
        shutil.rmtree(ev, ignore_errors=True)
    return rc


def one(bid, tests, checks):
    d = os.path.join(V, "seeded", bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    work = tempfile.mkdtemp(prefix="bt-")
    res = {"id": bid, "property": meta["property"]}
    try:
        clean = os.path.join(work, "clean")
        bad = os.path.join(work, "bad")
        demo = os.path.join(work, "demo")
        subprocess.check_call(["cp", "-a", "/repo", clean])
        subprocess.check_call(["cp", "-a", "/repo", bad])
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns(
            "*.diff", "*.patch", "meta.json"))
        p = subprocess.run(["git", "-C", bad, "apply",
                            os.path.join(d, "patch.diff")],
                           stderr=subprocess.PIPE)
        if p.returncode:
            res["apply"] = p.stderr.decode()
            return res
        logd = "/tmp/bt/%s" % bid
        os.makedirs(logd, exist_ok=True)
        res["demo_clean"] = ns(clean, "bash %s/demo.sh" % demo, 300,
                               logd + "/demo_clean")
        res["demo_bad"] = ns(bad, "bash %s/demo.sh" % demo, 300,
                             logd + "/demo_bad")
        for c in checks or [meta["property"]]:
            res["check_" + c] = ns(bad, "bash /verif/check.sh %s quick" % c,
                                   900, logd + "/check_" + c)
            txt = open(logd + "/check_" + c).read()
            res["viol_" + c] = "VIOLATION property=%s" % c in txt
        if tests:
            out = work + "/out.json"
            rc = ns(bad, "bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh %s" % out, 1200,
                    logd + "/tests")
            try:
                o = json.load(open(out))
                passed = set(o.get("passed", []))
                res["tests_broken"] = sorted(STABLE - passed)[:10]
            except Exception as e:
                res["tests_broken"] = "no result rc=%d %s" % (rc, e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ck = [k for k in res if k.startswith("viol_")]
    res["caught"] = all(res[k] for k in ck)
    res["valid"] = (res.get("demo_clean") == 0 and
                    res.get("demo_bad") not in (0, 124, None) and
                    (not tests or res.get("tests_broken") == []))
    return res


def main():
    args = sys.argv[1:]
    j, tests, checks = 3, True, None
    ids = []
    while args:
        a = args.pop(0)
        if a == "-j":
            j = int(args.pop(0))
        elif a == "--no-tests":
            tests = False
        elif a == "--checks":
            checks = args.pop(0).split(",")
        else:
            ids.append(a)
    if not ids:
        ids = sorted(os.listdir(V + "/seeded"))
    os.makedirs("/tmp/bt", exist_ok=True)
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda b: one(b, tests, checks), ids):
            print(("OK   " if r.get("valid") and r.get("caught") else
                   "MISS " if r.get("valid") else "BAD  ") + json.dumps(r))
            sys.stdout.flush()


main()
