"""Runs one check: builds the instrumented libraries, shards the cases over worker processes,
watches the workers (crash, hang), collects observations, decides, writes evidence.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: violated.
Exit 3: inconclusive (too little observed).  Exit 2: error of the check.
"""
import argparse, glob, importlib, json, os, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks")]
import build as B

PY = "/opt/venv/bin/python"


def child_env(variant, libdir, scratch):
    env = B.clean_env()
    env.update(LD_LIBRARY_PATH=libdir, MKL_THREADING_LAYER="SEQUENTIAL", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               TMPDIR=scratch, VERIF_SCRATCH=scratch, VERIF_REPO=B.REPO, VERIF_LIBDIR=libdir, VERIF_VARIANT=variant)
    env.pop("TOMOPY_PYTHON_THREADS", None)
    if variant == "asan":
        lib = subprocess.check_output(["/usr/bin/gcc", "-print-file-name=libasan.so"], text=True).strip()
        ub = subprocess.check_output(["/usr/bin/gcc", "-print-file-name=libubsan.so"], text=True).strip()
        env["LD_PRELOAD"] = os.path.realpath(lib) + ":" + os.path.realpath(ub)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:halt_on_error=1:exitcode=77:log_path=%s/asan:handle_segv=1:"
                               "allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=8192"
                               % scratch)
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=0:log_path=%s/ubsan" % scratch
        env["PYTHONMALLOC"] = "malloc"
    if variant == "tsan":
        lib = subprocess.check_output(["/usr/bin/gcc", "-print-file-name=libtsan.so"], text=True).strip()
        env["LD_PRELOAD"] = os.path.realpath(lib) + ":" + os.path.join(libdir, "minigomp.so")
        env["TSAN_OPTIONS"] = ("report_signal_unsafe=0:exitcode=0:halt_on_error=0:history_size=4:die_after_fork=0:second_deadlock_stack=1:"
                               "ignore_noninstrumented_modules=0:log_path=%s/tsan" % scratch)
        env["MINIGOMP_JITTER"] = "200"
    return env


def load(cid):
    mod = importlib.import_module(cid.lower())
    return mod


class Shard:
    def __init__(self, cid, k, cases, env, scratch, cwd):
        self.cid, self.k, self.cases, self.env, self.scratch, self.cwd = cid, k, cases, env, scratch, cwd
        self.state = os.path.join(scratch, f"state-{k}")
        self.out = os.path.join(scratch, f"out-{k}.jsonl")
        self.todo = os.path.join(scratch, f"todo-{k}.json")
        self.proc = None
        self.pos = 0

    def start(self):
        json.dump(self.cases, open(self.todo, "w"))
        open(self.state, "w").close()
        self.log = open(os.path.join(self.scratch, f"log-{self.k}"), "ab")
        self.proc = subprocess.Popen([PY, os.path.join(VERIF, "lib", "runner.py"), self.cid, "--shard", self.todo,
                                      "--state", self.state, "--out", self.out],
                                     env=self.env, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log,
                                     cwd=self.cwd, start_new_session=True)
        self.t0 = time.time()

    def current(self):
        try:
            s = open(self.state).read()
            return json.loads(s) if s else None
        except Exception:
            return None

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.proc.wait(10)
        except Exception:
            pass


def sanitizer_reports(scratch):
    """Deduplicated ASan/UBSan report blocks whose stack touches libtomo."""
    out = {}
    for f in glob.glob(scratch + "/asan*") + glob.glob(scratch + "/ubsan*"):
        txt = open(f, errors="replace").read()
        pid = f.rsplit(".", 1)[-1]
        if "runtime error" in txt:
            blk = None
            for line in txt.splitlines():
                if "runtime error:" in line:
                    loc, msg = line.split(": runtime error:", 1)
                    if "/libtomo/" in loc:
                        fn = os.path.basename(loc.split(":")[0])
                        out.setdefault("ubsan:" + fn + ":" + " ".join(msg.split()[:3]), (line, pid))
        if "ERROR: AddressSanitizer" in txt:
            head = [l for l in txt.splitlines() if "ERROR: AddressSanitizer" in l][0]
            kind = head.split("AddressSanitizer")[1].lstrip(": ").split()[0]
            fr = [l for l in txt.splitlines() if l.strip().startswith("#") and ("/libtomo/" in l)]
            where = "unknown"
            if fr:
                w = fr[0].split(" in ", 1)[-1]
                where = w.split()[0]
            out.setdefault("asan:" + kind + ":" + where, (head + "\n" + "\n".join(txt.splitlines()[:30]), pid))
    for f in glob.glob(scratch + "/tsan*"):
        for blk in open(f, errors="replace").read().split("=================="):
            if "WARNING: ThreadSanitizer" not in blk:
                continue
            kind = blk.split("WARNING: ThreadSanitizer:")[1].split("(pid")[0].strip().replace(" ", "-")
            fr = [l.strip().split(" ", 1)[1].split()[0] for l in blk.splitlines() if l.strip().startswith("#") and "/libtomo/" in l]
            if fr:
                out.setdefault("tsan:" + kind + ":" + "/".join(sorted(set(fr[:1] + fr[-1:]))), (blk[:3000], ""))
    return out


def run_shards(mod, cid, fams, cases, env, scratch, nshard, deadline, tag=""):
    byname = {f.name: f for f in fams}
    shards = []
    for k in range(nshard):
        cs = cases[k::nshard]
        if cs:
            cwd = os.path.join(scratch, f"cwd{tag}-{k}")
            os.makedirs(cwd, exist_ok=True)
            shards.append(Shard(cid, f"{tag}{k}", cs, env, scratch, cwd))
    for s in shards:
        s.start()
    extra, hung, live = [], [], list(shards)
    timedout = False
    rest = []
    while live:
        time.sleep(0.1)
        for s in list(live):
            rc = s.proc.poll()
            cur = s.current()
            if rc is None:
                if cur and time.time() - cur["t"] > byname[cur["family"]].timeout:
                    s.kill()
                    hung.append((cur["family"], cur["i"]))
                    _resume(s, cur, live)
                    if len(hung) >= 3:
                        # enough to look at: what is left is run later if none of these hangs again
                        for o in list(live):
                            o.kill()
                            c2 = o.current()
                            j = [q for q, c in enumerate(o.cases) if c2 and c[0] == c2["family"] and c[1] == c2["i"]]
                            rest.extend(o.cases[j[0]:] if j else o.cases)
                        live = []
                        break
                elif time.time() > deadline:
                    s.kill()
                    live.remove(s)
                    timedout = True
                continue
            s.kill()   # whatever the shard left running
            if rc == 0:
                live.remove(s)
                continue
            if cur is None:
                live.remove(s)
                extra.append(dict(family="startup", i=-1, params={}, harness_error=True,
                                  viol=[{"key": "startup", "msg": f"shard died at start rc={rc}: " +
                                         open(os.path.join(scratch, f"log-{s.k}"), errors="replace").read()[-3000:]}],
                                  counts={}, sigs=[], dt=0))
                continue
            if rc == 77:
                v = {"key": "sanitizer-abort", "msg": "sanitizer ended the process"}
            else:
                v = {"key": f"crash:{cur['family']}", "msg": f"process died with code {rc} while running the case: " +
                     open(os.path.join(scratch, f"log-{s.k}"), errors="replace").read()[-1500:]}
            extra.append(dict(family=cur["family"], i=cur["i"], params=cur["params"], viol=[v], counts={}, sigs=[], dt=0, pid=str(s.proc.pid)))
            _resume(s, cur, live)
    res = []
    for s in shards:
        if os.path.exists(s.out):
            for l in open(s.out):
                try:
                    res.append(json.loads(l))
                except ValueError:
                    pass
    return res + extra, hung, timedout, rest


def _resume(s, cur, live):
    idx = [j for j, c in enumerate(s.cases) if c[0] == cur["family"] and c[1] == cur["i"]][0]
    s.cases = s.cases[idx + 1:]
    if s.cases:
        s.start()
    else:
        live.remove(s)


def master(cid, tier, seed, replay=None):
    t_start = time.time()
    os.environ["VERIF_TIER"], os.environ["VERIF_SEED"] = tier, str(seed)
    mod = load(cid)
    import vlib
    variant = getattr(mod, "VARIANT", "release")
    scratch = tempfile.mkdtemp(prefix=f"verif-{cid}-")
    os.chmod(scratch, 0o755)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    try:
        fams = mod.FAMILIES
        for f in fams:
            f.variant = getattr(f, "variant", None) or variant
        envs = {}
        for v in sorted({f.variant for f in fams}):
            try:
                libdir = B.build(v)
                accel = B.build_accel(v) if getattr(mod, "ACCEL", False) else ""
            except B.BuildError as e:
                print("BUILD FAILED\n" + str(e))
                return 2
            envs[v] = child_env(v, libdir, scratch)
            envs[v]["VERIF_TIER"], envs[v]["VERIF_SEED"] = tier, str(seed)
            if accel:
                # exceptions: the sanitizers look for the C++ runtime when they start
                cxx = os.path.realpath(subprocess.check_output(["/usr/bin/gcc", "-print-file-name=libstdc++.so.6"], text=True).strip())
                envs[v].update(VERIF_ACCEL=accel, LD_PRELOAD=":".join([x for x in (envs[v].get("LD_PRELOAD"),) if x] + [cxx]))
        limit = getattr(mod, "LIMIT", {}).get(tier, 700 if tier == "quick" else 7200)
        deadline = t_start + limit
        nsh = getattr(mod, "SHARDS", 7)
        vof = {f.name: f.variant for f in fams}
        res, timedout, confirmed = [], False, False

        def confirm(hung, rnd):
            """a hang is only believed when the case hangs again, alone"""
            for fam, i in hung:
                r3, h3, _, _ = run_shards(mod, cid, fams, [(fam, i)], envs[vof[fam]], scratch, 1, time.time() + 1000, f"h{fam}{i}-{rnd}")
                res.extend(r3)
                if h3:
                    f = {x.name: x for x in fams}[fam]
                    res.append(dict(family=fam, i=i, params=vlib.make_params(f, i), counts={}, sigs=[], dt=f.timeout,
                                    viol=[{"key": f"hang:{fam}", "msg": f"call did not finish within {f.timeout} s twice (second time alone)"}]))
                    return True
            return False

        if replay:
            rp = json.load(open(replay))
            if not rp["family"]:
                print("this report belongs to no single case; rerun with --seed %s --tier %s\n%s" % (rp["seed"], rp["tier"], rp["msg"]))
                return 0
            cases = [(rp["family"], rp["i"], rp["params"])]
            res, hung, timedout, _ = run_shards(mod, cid, fams, cases, envs[vof[rp["family"]]], scratch, 1, deadline)
            confirmed = confirm(hung, 0)
        else:
            allc = vlib.case_list(fams)
            serial = {f.name for f in fams if f.serial}
            for v in sorted(envs):
                # interleave families over the shards
                allc.sort(key=lambda c: (c[1], c[0]))
                par = [c for c in allc if c[0] not in serial and vof[c[0]] == v]
                ser = [c for c in allc if c[0] in serial and vof[c[0]] == v]
                for cs, k, tag in ((par, nsh, v), (ser, getattr(mod, "SERIAL_SHARDS", 1), v + "s")):
                    rnd = 0
                    while cs and not timedout and not confirmed:
                        r2, hung, t2, cs = run_shards(mod, cid, fams, cs, envs[v], scratch, k, deadline, f"{tag}r{rnd}-" if rnd else tag)
                        res += r2
                        timedout |= t2
                        confirmed = confirm(hung, rnd)
                        rnd += 1
        reports = sanitizer_reports(scratch)
        post = mod.finish(res, scratch, envs) if hasattr(mod, "finish") else {}
        return verdict(cid, tier, seed, mod, fams, res, reports, post, timedout, t_start, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def verdict(cid, tier, seed, mod, fams, res, reports, post, timedout, t_start, replay):
    known = {}
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf)):
            if e["property"] == cid and e["status"] == "open":
                known[e["key"]] = e
    counts, sigs, per = {}, set(), {}
    nev = 0
    viols = []
    herr = []
    slow = []
    for r in res:
        if r.get("harness_error"):
            herr.append(r)
            continue
        nev += 1
        per[r["family"]] = per.get(r["family"], 0) + 1
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for s in r["sigs"]:
            sigs.add(r["family"] + s)
        for v in r["viol"]:
            viols.append((v["key"], v["msg"], r))
        slow.append((r["dt"], r["family"], r["i"]))
    aborted = [r for k, m, r in viols if k == "sanitizer-abort"]
    for k, (m, pid) in reports.items():
        mine = [r for r in aborted if r.get("pid") == pid]
        viols.append((k, m, mine[0] if mine else aborted[0] if aborted and k.startswith("asan") else None))
    # a sanitizer abort is explained by its report
    if reports:
        viols = [v for v in viols if v[0] != "sanitizer-abort"]
    for k, m in post.get("violations", []):
        viols.append((k, m, None))
    for k, v in post.get("counts", {}).items():
        counts[k] = counts.get(k, 0) + v
    sigs |= set(post.get("sigs", []))
    seen, new = {}, []
    for k, m, r in viols:
        if k in seen:
            seen[k] += 1
            continue
        seen[k] = 1
        if k in known:
            continue
        new.append((k, m, r))
    for k, e in known.items():
        print(f"KNOWN-FINDING: property={cid} {e['what']}" + ("" if k in seen else " (not reproduced in this run)"))
    rc = 0
    for j, (k, m, r) in enumerate(new[:12]):
        path = os.path.join(VERIF, "evidence", "replay", f"{cid}-{j}.json")
        with open(path, "w") as f:
            json.dump(dict(property=cid, key=k, msg=m, family=r and r["family"], i=r and r["i"],
                           params=r and r["params"], seed=seed, tier=tier, occurrences=seen[k],
                           how="bin/check %s --replay %s" % (cid, path)), f, indent=1)
        print(f"  [{k}] x{seen[k]} {m[:700]}")
        print(f"VIOLATION property={cid} replay={path}")
        rc = 1
    missing = [f.name for f in fams if f.n() and per.get(f.name, 0) < max(1, f.n() // 3)]
    need = getattr(mod, "REQUIRED", [])
    unreached = [n for n in need if counts.get(n, 0) == 0]
    if not replay and rc == 0:
        if herr:
            print("CHECK ERROR:", herr[0]["viol"][0]["msg"])
            rc = 2
        elif missing or unreached:
            print(f"INCONCLUSIVE property={cid}: families short of cases {missing}, monitors never reached {unreached}, timedout={timedout}")
            rc = 3
    slow.sort(reverse=True)
    samples = []
    for f in fams:
        for r in res:
            if r["family"] == f.name and not r.get("harness_error"):
                samples.append({"family": f.name, "i": r["i"], "params": r["params"], "monitors": r["counts"]})
                break
    ev = {"property": cid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": nev, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
                       "samples": samples[:12], "cases_per_family": per, "observed": dict(sorted(counts.items())),
                       "time_limit_reached": bool(timedout),
                       "sanitizer_reports": len(reports), **post.get("coverage", {})},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t_start, 2), "violations": len(new)}
    if not replay:
        with open(os.path.join(VERIF, "evidence", f"{cid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{cid} {tier} seed={seed}: {nev} cases, {len(sigs)} distinct, {sum(counts.values())} observations, "
          f"{len(new)} new violations, {len(seen) - len(new)} known, {ev['wall_s']} s" +
          (f"; slowest {slow[0][1]}#{slow[0][2]} {slow[0][0]:.1f}s" if slow else ""))
    return rc


def shard_main(cid, todo, state, out):
    B_REPO = os.environ["VERIF_REPO"]
    sys.path.insert(0, os.path.join(B_REPO, "source"))
    mod = load(cid)
    import vlib
    byname = {f.name: f for f in mod.FAMILIES}
    if hasattr(mod, "shard_init"):
        mod.shard_init()
    for c in json.load(open(todo)):
        f = byname[c[0]]
        params = c[2] if len(c) > 2 else vlib.make_params(f, c[1])
        with open(state + ".tmp", "w") as fh:
            json.dump(dict(family=c[0], i=c[1], params=params, t=time.time()), fh)
        os.replace(state + ".tmp", state)
        mon, dt = vlib.run_case(f, params)
        with open(out, "a") as fh:
            fh.write(json.dumps(dict(family=c[0], i=c[1], params=params, viol=mon.viol, counts=mon.counts,
                                     sigs=sorted(mon.sigs)[:500], dt=round(dt, 3))) + "\n")
    open(state, "w").close()
    sys.stdout.flush()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--shard")
    ap.add_argument("--state")
    ap.add_argument("--out")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.shard:
        shard_main(a.cid, a.shard, a.state, a.out)
    sys.exit(master(a.cid, a.tier, a.seed, a.replay))


if __name__ == "__main__":
    main()
