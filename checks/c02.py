from vlib import *
import catalog, threading, ctypes
tomopy = lazy("tomopy")
RULE = ("'race': a ThreadSanitizer build of the kernels, OpenMP regions on an instrumented pthread stand-in with jittered starts, runs reconstructions over several worker threads, threaded 3D filters, inpainting and "
        "stripe detection with 2-5 threads, and 2-4 calls at the same time from different Python threads; 'concurrent': the release build runs 3-6 random calls (any mix) at the same time, repeatedly, behind a barrier, and "
        "every result is compared bit for bit with the same call issued alone; 'pool': the same for the functions evaluated by numexpr, on data large enough for its thread pool; non-trivial: calls whose time intervals overlapped")
ASSUMPTIONS = ["worker processes are not forked while other threads run (ncore=1 for the process-based functions)", "functions drawing from rand() (random inpainting) are compared outside the mask only",
               "the FFT library and numpy are not instrumented"]
KERN = ["recon:" + a for a in catalog.ALGS] + ["vector", "vector2", "vector3", "project", "project2", "project3", "downsample", "upsample", "normalize_bg", "remove_ring", "median_filter3d",
        "remove_outlier3d", "inpainter_morph", "stripes_detect3d", "stripes_mask3d", "remove_stripe_sf"]
MIX = KERN + ["gaussian_filter", "median_filter", "sobel_filter", "remove_outlier", "retrieve_phase", "remove_stripe_fw", "remove_stripe_based_sorting", "remove_dead_stripe", "distortion_correction_proj", "pad", "circ_mask"]


class _Mgr:
    """stand-in for multiprocessing.Manager: forking a helper process from a threaded ThreadSanitizer process is not supported by that tool"""
    def Queue(self, *a):
        import queue
        return queue.Queue(*a)

    def __getattr__(self, k):
        return lambda *a, **kw: None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def shard_init():
    if os.environ.get("VERIF_VARIANT") == "tsan":
        import multiprocessing
        multiprocessing.Manager = _Mgr


def gen_race(rng, i):
    return dict(first=KERN[i % len(KERN)], others=[pick(rng, KERN) for _ in range(int(rng.integers(0, 4)))], same=bool(rng.random() < .4))


def gen_conc(rng, i):
    return dict(first=MIX[i % len(MIX)], others=[pick(rng, MIX) for _ in range(int(rng.integers(2, 6)))], same=bool(rng.random() < .5))


def calls(p, tag, lone):
    rng = rng_for(tag, p["seed"])
    out = []
    for k, n in enumerate([p["first"]] + ([p["first"]] * len(p["others"]) if p["same"] else p["others"])):
        c = catalog.make(n, rng)
        over = {}
        if c.ncore:
            over["ncore"] = 1 if c.threads == "process" else int(pick(rng, [1, 2, 3, 5] if not lone else [2, 3, 5]))
        if c.nchunk and c.threads != "process":
            over["nchunk"] = int(pick(rng, [1, 2]))
        out.append((c, over))
    return out


def together(cs, reps, mon):
    """all calls at once; returns results and overlap pairs"""
    n = len(cs)
    bar = threading.Barrier(n)
    res, err, span = [[None] * reps for _ in cs], [], []
    lock = threading.Lock()

    def work(k):
        c, over = cs[k]
        for r in range(reps):
            a = c.fresh()
            try:
                bar.wait(60)
            except threading.BrokenBarrierError:
                return
            t0 = time.perf_counter()
            try:
                x = [np.array(y) for y in catalog.res(c.run(a, **over))]
                res[k][r] = x
            except BaseException as e:
                err.append((c.name, e))
                bar.abort()
                return
            with lock:
                span.append((r, k, t0, time.perf_counter()))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()            # the runner ends a case that hangs and looks at it again, alone
    if err and os.environ.get("VERIF_VARIANT") == "tsan" and isinstance(err[0][1], (EOFError, ConnectionError)):
        mon.count("fork-trouble")     # of the tool, not of the code under test
    elif err:
        mon.fail("concurrent-exception", f"{err[0][0]}: {err[0][1]!r} with {[c.name for c, _ in cs]}")
    ov = [(a[1], b[1]) for a in span for b in span if a[0] == b[0] and a[1] < b[1] and a[2] < b[3] and b[2] < a[3]]
    return res, ov


def run_race(p, mon):
    cs = calls(p, "c02r", lone=not p["others"])
    g = ctypes.CDLL(None)
    r0 = g.minigomp_members()
    if len(cs) == 1:
        try:
            cs[0][0].run(cs[0][0].fresh(), **cs[0][1])
        except (EOFError, ConnectionError):
            mon.count("fork-trouble")
    else:
        _, ov = together(cs, 2, mon)
        mon.count("overlapping-calls", len(ov))
        for a, b in ov:
            mon.sig(*sorted((cs[a][0].name, cs[b][0].name)))
    mon.count("omp-team-members", g.minigomp_members() - r0)
    for c, over in cs:
        mon.count("fn:" + c.name)
        if over.get("ncore", 1) > 1:
            mon.sig("workers", c.name, over["ncore"])
    mon.count("race-runs")


def run_conc(p, mon):
    cs = calls(p, "c02c", lone=False)
    ref = [[np.array(y) for y in catalog.res(c.run(c.fresh(), **over))] for c, over in cs]
    res, ov = together(cs, 6, mon)
    mon.count("overlapping-calls", len(ov))
    for a, b in ov:
        mon.sig(*sorted((cs[a][0].name, cs[b][0].name)))
    for k, (c, over) in enumerate(cs):
        for x in res[k]:
            if x is None:
                continue
            for g, b in zip(x, ref[k]):
                if c.name == "inpainter_morph:random":
                    g, b = np.where(c.arrs["mask"], 0, g), np.where(c.arrs["mask"], 0, b)
                mon.equal(g, b, "as-alone", f"{c.name} {over} {c.kw} run together with {[d.name for d, _ in cs]}")


# ---- the numexpr-based functions on data large enough for its thread pool ---------
NE = ["minus_log", "normalize", "normalize_nf", "remove_nan", "remove_neg", "remove_outlier", "remove_outlier1d", "circ_mask", "pad"]


def gen_pool(rng, i):
    return dict(names=[NE[i % len(NE)]] + [pick(rng, NE) for _ in range(int(rng.integers(2, 6)))])


def run_pool(p, mon):
    import numexpr
    rng = rng_for("c02p", p["seed"])
    cs = []
    for nm in p["names"]:
        sh = tuple(int(x) for x in rng.permutation([int(rng.integers(3, 9)), int(rng.integers(60, 130)), int(rng.integers(60, 130))]))
        a = rng.random(sh, dtype=np.float32) + np.float32(.5)
        arrs, kw = dict(arr=a), {}
        if nm == "normalize":
            arrs.update(flat=a[:2] + 9, dark=a[:1])
        elif nm == "normalize_nf":
            arrs = dict(tomo=a, flats=a[:2] + 9, dark=a[:1])
            kw = dict(flat_loc=[0, sh[0] - 1])
        elif nm in ("remove_nan", "remove_neg"):
            a[rng.random(sh) < .1] = np.nan if nm == "remove_nan" else -1
        elif nm.startswith("remove_outlier"):
            kw = dict(dif=.2, size=3)
        elif nm == "circ_mask":
            kw = dict(axis=0)
        elif nm == "pad":
            kw = dict(axis=int(rng.integers(3)), npad=3, mode=pick(rng, ["edge", "constant"]))
        cs.append((catalog.Call(nm, getattr(tomopy, nm), arrs, kw, ncore=True), dict(ncore=int(rng.integers(1, 6)))))
    n0 = int(rng.integers(1, 6))
    old = numexpr.set_num_threads(n0)
    try:
        ref = [[np.array(y) for y in catalog.res(c.run(c.fresh(), **over))] for c, over in cs]
        res, ov = together(cs, 8, mon)
        n1 = numexpr.set_num_threads(n0)
        mon.ok(n1 == n0, "pool-size", f"numexpr had {n0} threads before and {n1} after concurrent {p['names']}")
    finally:
        numexpr.set_num_threads(old)
    mon.count("overlapping-calls", len(ov))
    for a, b in ov:
        mon.sig("pool", *sorted((cs[a][0].name, cs[b][0].name)))
    for k, (c, over) in enumerate(cs):
        for x in res[k]:
            if x is not None:
                for g, b in zip(x, ref[k]):
                    mon.equal(g, b, "as-alone", f"{c.name} {over} {c.kw} run together with {p['names']}")


FAMILIES = [Family("race", gen_race, run_race, 20 * len(KERN), 100 * len(KERN), variant="tsan"), Family("concurrent", gen_conc, run_conc, 12 * len(MIX), 80 * len(MIX), timeout=60), Family("pool", gen_pool, run_pool, 10 * len(NE), 60 * len(NE), timeout=60)]
REQUIRED = ["monitor:as-alone", "overlapping-calls", "omp-team-members", "race-runs"]
