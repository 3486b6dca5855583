#!/usr/bin/env python3
"""Confirms planted bugs: plant.py [--checks C01,C02|own|none] ID...

For every /verif/seeded/ID: applies patch.diff to a copy of /repo, builds it and runs the stable tests and demo.sh on the copy
(mounted over /repo in a private mount namespace, so the real /repo is never touched), runs demo.sh on the unchanged copy too,
then runs the property's check on the changed tree. Prints one line per bug."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOP = "/tmp/pl"


def ns(tree, cmd, timeout):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (tree, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def copy(name):
    t = os.path.join(TOP, name)
    shutil.rmtree(t, ignore_errors=True)
    subprocess.run(["cp", "-a", os.environ.get("VERIF_REPO", "/repo"), t], check=True)
    return t


def one(i, checks):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    t = copy(i)
    out = []
    r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=t, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return "%s: patch does not apply: %s" % (i, r.stderr)
    r = ns(t, "bash /opt/vp/test.sh /tmp/pl/%s.json" % i, 900)
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base["passed"] if isinstance(base, dict) and "passed" in base else base.get("stable", base))
    got = set(json.load(open("/tmp/pl/%s.json" % i))["passed"])
    out.append("tests ok" if want <= got else "TESTS FAIL %s" % (sorted(want - got)[:3] or r.stdout[-1500:]))
    r = ns(os.environ.get("VERIF_REPO", "/repo"), "bash %s/demo.sh" % d, 300)
    out.append("demo clean %d%s" % (r.returncode, "" if r.returncode == 0 else " BAD " + r.stdout[-600:]))
    r = ns(t, "bash %s/demo.sh" % d, 300)
    out.append("patched %d%s" % (r.returncode, "" if r.returncode else " BAD"))
    todo = {"own": [meta["property"]], "none": []}.get(checks) if checks in ("own", "none") else checks.split(",")
    for p in todo:
        r = subprocess.run([sys.executable, V + "/check.py", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, VERIF_REPO=t, VERIF_BUILD="/tmp/pl/build"))
        v = [l for l in r.stdout.splitlines() if l.startswith("  ") or l.startswith("CHECK-ERROR")]
        out.append("%s %s %s" % (p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), (v or [""])[0][:220]))
    shutil.rmtree(t, ignore_errors=True)
    return "%s [%s]: %s" % (i, meta["property"], " | ".join(out))


if __name__ == "__main__":
    a = sys.argv[1:]
    checks = "own"
    if a and a[0] == "--checks":
        checks, a = a[1], a[2:]
    os.makedirs(TOP, exist_ok=True)
    for i in a or sorted(os.listdir(V + "/seeded")):
        print(one(i, checks), flush=True)
