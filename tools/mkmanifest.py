#!/opt/veriftools/pyvenv/bin/python3
"""Regenerates MANIFEST.json from the checks that exist and known_findings.json from tools/findings.txt."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
 "C25": "ASan/UBSan/TSan builds of the accelerated kernels on stand-in libraries with injected delays and failures, values compared with a reference at run time",
 "C01": "AddressSanitizer/UBSan builds, allocation-growth monitor and poisoned-heap differential under random calls",
 "C02": "ThreadSanitizer build of the kernels (instrumented OpenMP stand-in) and differential concurrency stress",
 "C03": "differential runtime monitor over worker counts and chunk sizes",
 "C04": "metamorphic runtime monitor over slice stacks (split, permute, poison)",
 "C05": "bitwise argument snapshots around every public call",
 "C06": "differential runtime monitor over memory layouts and data types",
 "C07": "trace recording of every distributed call, offline exactly-once checker",
 "C08": "fault injection in workers with exception, hang and recovery monitors",
 "C09": "runtime comparison with an exact double-precision ray tracer",
 "C10": "runtime comparison with double-precision reference iterations",
 "C11": "runtime comparison with a double-precision gridding reference and metamorphic monitors",
 "C12": "online invariant monitors over iteration histories",
 "C13": "runtime comparison with double-precision normalisation formulas", "C14": "per-voxel reference filters as runtime oracle", "C15": "per-voxel reference and invariant monitors on inpainting and stripe detection", "C16": "runtime comparison with reference stripe-removal implementations and metamorphic monitors", "C17": "runtime comparison with the filter definition, metamorphic monitors", "C18": "element-tracking runtime oracle for resampling, padding and conversions", "C19": "synthetic scans with known centers, file-level monitor of the center sweep", "C20": "reference geometry and round-trip runtime monitors", "C21": "process-state snapshots around every call, call histories against fresh processes, fault injection", "C22": "request table as oracle, kernel-entry monitor, hostile requests under AddressSanitizer/UBSan", "C23": "statistical and exact runtime oracles for simulation helpers", "C26": "shadow-memory and address-range monitors over array histories, multi-process write monitor", "C27": "file-system model checked after every write, reference values", "C28": "recording stand-ins for the external packages, offline exactly-once and geometry checker, fault injection", "C24": "runtime comparison with a reference polar filter, metamorphic monitors",
}
NA = {"C29": "the CUDA sources need nvcc, NPP and a GPU; none is present, so there is no execution to monitor"}
GEN = ("Held on every execution explored (counts, distinct cases and monitor hits in the evidence file); random workloads from VERIF_SEED, "
       "no claim beyond them. Trusts the reference code in /verif/lib, numpy/scipy in the sandbox and the compiler.")
checks, na = [], []
for p in props:
    c = p["id"]
    if c in NA:
        na.append(dict(property=c, reason=NA[c]))
    elif os.path.exists(f"{V}/checks/{c.lower()}.py"):
        checks.append(dict(property=c, quick_cmd=f"bin/check {c}", thorough_cmd=f"bin/check {c} --tier thorough",
                           evidence_file=f"evidence/{c}.json", technique=TECH.get(c, "reference-model runtime monitor over random workloads"),
                           level="exploration", level_note=GEN))
    else:
        na.append(dict(property=c, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: all instrumentation is applied from outside (sanitizer builds, wrapped calls). /repo commits are 'fix:' repairs listed in known_findings.json."),
          open(V + "/MANIFEST.json", "w"), indent=1)
# findings: lines  "C10|subject prefix|what failed"  (fixed)  or  "open|C15|key|what"
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "--abbrev=10"], text=True).splitlines()
out = []
used = set()
for l in open(V + "/tools/findings.txt"):
    l = l.rstrip("\n")
    if not l or l[0] == "#":
        continue
    f = l.split("|")
    if f[0] == "open":
        out.append(dict(property=f[1], key=f[2], status="open", what=f[3]))
    else:
        m = [x for x in log if x.split(" ", 1)[1].startswith("fix: " + f[1])]
        assert len(m) == 1, (f[1], m)
        used.add(m[0])
        h = m[0].split()[0]
        out.append(dict(property=f[0], key="", status="fixed", commit=h, what=f[2] if len(f) > 2 else m[0].split("fix: ")[1],
                        entry=f"fixed: property={f[0]} {h} {f[2] if len(f) > 2 else m[0].split('fix: ')[1]}"))
for x in log:
    if " fix: " in x and x not in used and "CRLF" not in x:
        print("not listed:", x)
json.dump(out, open(V + "/known_findings.json", "w"), indent=1)
print(len(checks), "checks", len(out), "findings")
