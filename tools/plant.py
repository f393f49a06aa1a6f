#!/usr/bin/env python3
"""plant.py SPEC...  Makes /verif/seeded/<id>/ from a spec file and verifies it: applies to HEAD, changes only original
lines, builds, keeps the stable tests, demo 0 without / nonzero with.  With --check also runs the property's quick check.
SPEC (python): id, prop, needs, breaks, subs=[(path, old, new[, count])], demo (python source)."""
import json, os, re, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^base", "--reverse"], text=True).split()[0]
DEMO_SH = '''#!/bin/bash
# exits 0 when the property's promise holds on this input, nonzero when it does not
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LD_LIBRARY_PATH=/opt/tomopy-build MKL_THREADING_LAYER=SEQUENTIAL PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH PYTHONHOME
S=$(mktemp -d) && cd "$S" || exit 2
timeout 250 /opt/venv/bin/python "$D/demo.py"
rc=$?
cd / && rm -rf "$S"
exit $rc
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def reset():
    sh("git -C /repo checkout -- . && git -C /repo clean -fdq source include")


def build():
    return sh("bash /opt/vp/build.sh")


def stable():
    sh("bash /opt/vp/test.sh /tmp/plant-out.json")
    b = json.load(open("/opt/vp/BASELINE.json"))
    try:
        o = json.load(open("/tmp/plant-out.json"))
    except Exception:
        return ["no report"]
    return sorted(set(b["stable"]) - set(o["passed"]))


def main(spec, check):
    ns = {}
    exec(open(spec).read(), ns)
    d = f"{V}/seeded/{ns['id']}"
    reset()
    try:
        for s in ns["subs"]:
            p, old, new = s[:3]
            cnt = s[3] if len(s) > 3 else 1
            t = open("/repo/" + p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert t.count(old) == cnt, (p, old, t.count(old))
            # original lines only
            orig = {x.strip() for x in sh(f"git -C /repo show {BASE}:{p}").stdout.splitlines()}
            start = t.find(old)
            l0, l1 = t[:start].count("\n"), t[:start + len(old)].count("\n")
            newl = {x.strip() for x in new.splitlines()}
            for line in t.split("\n")[l0:l1 + 1]:
                if line.strip() not in orig and line.strip() not in newl and line.strip():
                    print("  WARNING: not an original line:", p, line)
            open("/repo/" + p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", "/repo", "diff"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.py", "w").write(ns["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=ns["prop"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r = build()
        if r.returncode:
            print(ns["id"], "BUILD FAILED", r.stdout[-800:]); return
        bad = stable()
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
        c = sh(f"cd {V} && bin/check {ns['prop']}", env={**os.environ, "VERIF_SEED": "1"}) if check else None
    finally:
        reset()
    build()
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    ok = not bad and r1.returncode != 0 and r0.returncode == 0
    print(ns["id"], ns["prop"], "COUNTS" if ok else f"DOES NOT COUNT tests={bad} with={r1.returncode} without={r0.returncode}")
    if not ok:
        print(r1.stdout[-600:], r0.stdout[-600:])
    if c is not None:
        v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
        print("   check:", "CAUGHT" if c.returncode == 1 and v else f"MISSED rc={c.returncode}", "|", c.stdout.strip().splitlines()[0][:160], "|", c.stdout.strip().splitlines()[-1][-160:])


if __name__ == "__main__":
    chk = "--check" in sys.argv
    for s in sys.argv[1:]:
        if s != "--check":
            try:
                main(s, chk)
            except AssertionError as e:
                print(s, "SPEC DOES NOT APPLY", e)
            sys.stdout.flush()
