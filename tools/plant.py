#!/usr/bin/env python3
"""Plants the bugs of /verif/seeded one after another in /repo (undone straight afterwards): applies, builds, tests pass,
demo fails with and passes without the change, and which checks report it.
usage: plant.py [--demo-only|--check-only] [--all-checks] ID..."""
import json, os, subprocess, sys
V = "/verif"
R = "/repo"


def sh(cmd, cwd=R, timeout=1200, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def main(a):
    opts = [x for x in a if x.startswith("--")]
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable", base.get("tests", base))
    man = json.load(open(V + "/MANIFEST.json"))
    assert sh("git status --short")[1].strip() == "", "repo is not clean"
    for i in ids:
        d = "%s/seeded/%s" % (V, i)
        meta = json.load(open(d + "/meta.json"))
        line = [i, meta["property"]]
        try:
            if "--check-only" not in opts:
                rc, out = sh("bash %s/demo.sh" % d)
                line.append("demo-clean=%d" % rc)
                if rc:
                    line.append(out[-300:])
            rc, out = sh("git apply %s/patch.diff" % d)
            if rc:
                line.append("APPLY FAILED " + out)
                continue
            if "--check-only" not in opts:
                rc, out = sh("bash /opt/vp/build.sh")
                line.append("build=%d" % rc)
                if rc:
                    line.append(out[-600:])
                    continue
                sh("bash /opt/vp/test.sh /tmp/plant.json")
                res = json.load(open("/tmp/plant.json"))
                passed = set(res.get("passed", [])) if isinstance(res.get("passed"), list) else {k for k, v in res.get("tests", res).items() if v in ("pass", "passed", True)}
                want = set(stable if isinstance(stable, list) else stable.keys())
                line.append("tests-lost=%s" % sorted(want - passed)[:4])
                rc, out = sh("bash %s/demo.sh" % d)
                line.append("demo-bug=%d %s" % (rc, out.strip()[-160:].replace("\n", " | ")))
            if "--demo-only" not in opts:
                for c in man["checks"]:
                    if c["property"] == meta["property"] or "--all-checks" in opts:
                        rc, out = sh(c["quick_cmd"], cwd=V)
                        v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
                        line.append("check %s rc=%d %s" % (c["property"], rc, v[:1]))
        finally:
            sh("git checkout -- .")
            print(" ".join(line), flush=True)


main(sys.argv[1:])
