import ctypes, copy, sys, threading, time, types
from vlib import *
tomopy = lazy("tomopy")
RULE = ("the real adapters run against recording stand-ins for astra, lprec, gi/ufo and tomopy_peri: 'astra' CPU projectors and CUDA with 0-5 GPUs, both geometry interfaces, per-slice centers, direct calls and through recon with several workers; 'lprec' 1-4 GPUs with "
        "random delays, all methods, batch sizes limited by the width, concurrent calls; 'ufo' both pipelines; 'peri' implementation selection; 'process' accelerated worker processes; 'errors' failures injected at every kind of package call; an offline checker over the recorded log "
        "demands every slice's data, geometry and options exactly once, its volume in its place, all handles released; non-trivial: some package call was recorded")
ASSUMPTIONS = ["the stand-ins follow the packages' documented interfaces; what the packages compute is outside", "the UFO and log-polar adapters take one center for all slices", "center shifts on astra CPU projectors are whole pixels"]
REQUIRED = ["monitor:" + k for k in ("exactly-once", "sinogram", "center", "geometry", "options", "placed", "released", "caller-unchanged", "error-raised", "gpu-share", "lprec-calls", "lprec-batch", "ufo-graph", "peri", "process")]
LOCK = threading.Lock()
TLS = threading.local()


class Boom(RuntimeError):
    pass


# ---- ASTRA ------------------------------------------------------------------------
class FakeAstra(types.ModuleType):
    def __init__(self, post, fail=None, delay=0.0, seed=0):
        super().__init__("astra")
        self.log, self.live, self.next, self.fail, self.delay = [], {}, [0], fail or {}, delay
        self.rng, self.calls = np.random.default_rng(seed), {}
        sub = lambda **kw: types.SimpleNamespace(**kw)
        self.data2d = sub(link=self._link, create=self._create, delete=self._delete, get=lambda i: self.live[i][2].copy(), get_shared=lambda i: self.live[i][2], clear=lambda: None, store=self._store)
        self.projector = sub(create=lambda *a: self.create_projector(*a), delete=self._delete)
        self.algorithm = sub(create=self._alg, run=self._run, delete=self._delete)
        if post:
            self.geom_postalignment = self._post

    def _count(self, what):
        with LOCK:
            n = self.calls[what] = self.calls.get(what, 0) + 1
        if self.fail.get(what) == n:
            raise Boom(what)

    def _new(self, *obj):
        with LOCK:
            self.next[0] += 1
            self.live[self.next[0]] = obj
            return self.next[0]

    def create_vol_geom(self, *a):
        self._count("vol_geom")
        r, c = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else (a[0], a[0]) if len(a) == 1 else a[:2]
        return dict(GridRowCount=int(r), GridColCount=int(c), option={})

    def create_proj_geom(self, kind, *a):
        self._count("proj_geom")
        return dict(type=kind, DetectorWidth=float(a[0]), DetectorCount=int(a[1]), ProjectionAngles=np.array(a[2], np.float64, copy=True))

    def _post(self, g, f):
        return dict(g, shift=g.get("shift", 0.0) + float(f))

    def create_projector(self, kind, pg, vg):
        self._count("projector")
        return self._new("projector", kind, dict(pg), dict(vg))

    def astra_dict(self, m):
        return dict(type=m)

    def _create(self, kind, geom, data=None):
        return self._link(kind, geom, np.array(data, np.float32, copy=True) if data is not None else np.zeros((geom["GridRowCount"], geom["GridColCount"]), np.float32))

    def _store(self, i, d):
        self.live[i][2][...] = d

    def _link(self, kind, geom, arr):
        self._count("link")
        if not (isinstance(arr, np.ndarray) and arr.dtype == np.float32 and arr.flags.c_contiguous and arr.ndim == 2):
            raise ValueError("Only contiguous float32 arrays can be linked")
        want = (geom["GridRowCount"], geom["GridColCount"]) if kind == "-vol" else (len(geom["ProjectionAngles"]), geom["DetectorCount"])
        if arr.shape != want:
            raise ValueError(f"The dimensions of the data {arr.shape} do not match those of the geometry {want}")
        return self._new("data", kind, arr, copy.deepcopy(geom))

    def _alg(self, cfg):
        self._count("algorithm")
        return self._new("algorithm", copy.deepcopy(dict(cfg)))

    def _run(self, i, n=1):
        self._count("run")
        cfg = self.live[i][1]
        _, _, sino, pg = self.live[cfg["ProjectionDataId"]]
        _, _, vol, vg = self.live[cfg["ReconstructionDataId"]]
        if self.delay:
            time.sleep(float(self.rng.random()) * self.delay)
        with LOCK:
            k = len(self.log)
            self.log.append(dict(sino=sino.copy(), pg=copy.deepcopy(pg), vg=dict(vg), n=int(n), cfg=cfg, projector=self.live[cfg["ProjectorId"]][1:] if "ProjectorId" in cfg else None, init=vol.copy(), thread=threading.get_ident()))
        vol[...] = np.float32(k + 1) + np.arange(vol.size, dtype=np.float32).reshape(vol.shape) / 4096

    def _delete(self, i):
        with LOCK:
            for j in i if isinstance(i, (list, tuple)) else [i]:
                del self.live[j]


def install(**mods):
    old = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    return old


def restore(old):
    for k, v in old.items():
        if v is None:
            sys.modules.pop(k, None)
        else:
            sys.modules[k] = v


def gen(rng, i):
    return dict(i=i, dy=int(rng.integers(1, 9)), dt=int(rng.integers(1, 9)), dx=int(rng.integers(2, 24)), ncore=int(rng.integers(1, 5)), nchunk=pick(rng, [None, 1, 2, 3]))


def data(rng, p):
    t = (1 + rng.random((p["dy"], p["dt"], p["dx"]))).astype(np.float32)
    return t, rng.uniform(-1, 7, p["dt"]).astype(np.float32 if rng.random() < .6 else np.float64)


def spec(a):
    """what the caller can see of an argument"""
    return {k: spec(v) for k, v in a.items()} if isinstance(a, dict) else [spec(v) for v in a] if isinstance(a, (list, tuple)) else (a.tolist() if isinstance(a, np.ndarray) else a)


def setup_astra(rng, p, cuda, wide=True):
    t, th = data(rng, p)
    dx, dy = p["dx"], p["dy"]
    cen = dx / 2 + rng.uniform(-.4, .4, dy) * dx
    if wide and rng.random() < .15:
        cen = dx / 2 + rng.uniform(-3, 3, dy) * dx
    if rng.random() < .3:
        cen = np.round(cen * 2) / 2
    if rng.random() < .2:
        cen[:] = cen[0]
    o = dict(method=pick(rng, ["SART", "SIRT_CUDA", "FBP", "CGLS"]))
    if cuda:
        o["proj_type"] = "cuda"
        if rng.random() < .8:
            g = [int(x) for x in rng.permutation(8)[:int(rng.integers(1, 6))]]
            o["gpu_list"] = g
    elif rng.random() < .7:
        o["proj_type"] = pick(rng, ["line", "linear", "strip"])
    if rng.random() < .7:
        o["num_iter"] = int(rng.integers(1, 300))
    if rng.random() < .6:
        o["extra_options"] = dict(MinConstraint=float(rng.integers(0, 5)), **(dict(MaxConstraint=9) if rng.random() < .5 else {}))
    return t, th, cen.astype(np.float32), o


def run_astra(p, mon):
    rng = rng_for("c28a", p["seed"])
    cuda = bool(rng.random() < .5)
    t, th, cen, o = setup_astra(rng, p, cuda)
    dy, dt, dx = t.shape
    fake = FakeAstra(post=bool(rng.random() < .6), delay=0.002 if rng.random() < .5 else 0, seed=p["seed"])
    gx, gy = (dx, dx) if rng.random() < .4 else (int(rng.integers(1, 20)), int(rng.integers(1, 20)))
    init = rng.random((dy, gx, gy)).astype(np.float32)
    direct = rng.random() < .4
    o0, t0, th0, c0 = copy.deepcopy(o), t.copy(), th.copy(), cen.copy()
    old = install(astra=fake)
    try:
        if direct:
            rec = init.copy()
            r = tomopy.astra(t, cen, rec, np.asarray(th, np.float32), num_gridx=gx, num_gridy=gy, options=o)
            mon.ok(r is None or r is rec, "placed", "the volume goes into the array given")
        else:
            so = bool(rng.random() < .5)
            kw = dict(ncore=p["ncore"], nchunk=p["nchunk"]) if rng.random() < .8 else {}
            if rng.random() < .6:
                kw["init_recon"] = init.copy()
            else:
                init[:] = np.float32(1e-6)
            if (gx, gy) != (dx, dx):
                kw.update(num_gridx=gx, num_gridy=gy)
            rec = tomopy.recon(t if so else np.swapaxes(t, 0, 1), th, center=cen, sinogram_order=so, algorithm=tomopy.astra, options=o, **kw)
    finally:
        restore(old)
    mon.ok(spec(o) == spec(o0), "caller-unchanged", lambda: f"options {o0} became {o}")
    mon.equal(t, t0, "caller-unchanged", "projections")
    mon.equal(th, th0, "caller-unchanged", "angles")
    mon.equal(cen, c0, "caller-unchanged", "centers")
    log = fake.log
    mon.count("package-calls", len(log))
    mon.ok(not fake.live, "released", lambda: f"{len(fake.live)} handles left: {[v[:2] for v in fake.live.values()][:4]}")
    if not mon.ok(len(log) == dy, "exactly-once", f"{len(log)} runs for {dy} slices"):
        return
    what = f"{o0} {t.shape} grid {gx}x{gy} post {hasattr(fake, 'geom_postalignment')} direct {direct}"
    seen = set()
    share = {}
    for s in range(dy):
        k = rec[s].flat[0]
        k = int(k) - 1 if np.isfinite(k) and 1 <= k <= dy else -1
        want = np.float32(k + 1) + np.arange(gx * gy, dtype=np.float32).reshape(gx, gy) / 4096
        if not mon.ok(k >= 0 and k not in seen and np.array_equal(rec[s], want), "placed", lambda: f"slice {s} of {what} does not hold one package volume"):
            return
        seen.add(k)
        e = log[k]
        mon.ok(np.array_equal(e["init"], init[s]), "placed", lambda: f"slice {s} of {what}: the package was started from another volume")
        # detector positions: astra puts pixel j at j + .5 - n / 2 + shift, tomopy at j + .5 - center
        off = dx / 2 - float(cen[s])
        pg = e["pg"]
        shift = pg.get("shift", 0.0)
        if "ExtraDetectorOffset" in pg.get("option", {}):
            x = np.asarray(pg["option"]["ExtraDetectorOffset"], float)
            mon.ok(x.shape == (dt,) and np.ptp(x) == 0, "center", f"offsets {x}")
            shift = -float(x[0])
        n = off - shift
        if cuda:
            mon.ok(abs(n) < 1e-4 * dx, "center", lambda: f"slice {s} of {what}: center {cen[s]}, geometry moved by {shift} instead of {off}")
            n = 0
        else:
            n = {int(np.floor(n + .5)), int(np.ceil(n - .5))}
            n = next((m for m in n if np.array_equal(e["sino"], moved(t0[s], m))), None)
        mon.ok(n is not None and np.array_equal(e["sino"], moved(t0[s], n)), "sinogram" if cuda else "center", lambda: f"slice {s} of {what}, center {cen[s]}: got sinogram {e['sino'].tolist()[:2]} from {t0[s].tolist()[:2]}")
        mon.ok(np.array_equal(e["sino"] if n == 0 else moved(t0[s], n), moved(t0[s], n)), "sinogram", "")
        mon.ok(np.allclose(pg["ProjectionAngles"], th0, rtol=1e-6, atol=1e-6) and len(pg["ProjectionAngles"]) == dt and pg["type"] == "parallel" and pg["DetectorWidth"] == 1 and pg["DetectorCount"] == dx and
               (e["vg"]["GridRowCount"], e["vg"]["GridColCount"]) == (gx, gy), "geometry", lambda: f"slice {s} of {what}: {pg} {e['vg']}")
        pj = e["projector"]
        if pj is not None:
            mon.ok(pj[0] == o0.get("proj_type", "linear") and pj[2] == e["vg"] and np.allclose(pj[1]["ProjectionAngles"], th0, atol=1e-6) and pj[1].get("shift", 0.0) == shift * (0 if "option" in pj[1] and "ExtraDetectorOffset" in pj[1]["option"] else 1), "geometry", lambda: f"slice {s} of {what}: projector {pj}")
        op = dict(e["cfg"].get("option", {}))
        gpu = op.pop("GPUindex", None)
        mon.ok(e["cfg"]["type"] == o0["method"] and e["n"] == o0.get("num_iter", 1) and op == o0.get("extra_options", {}), "options", lambda: f"slice {s} of {what}: {e['cfg']} {e['n']} iterations")
        if cuda and o0.get("gpu_list"):
            mon.ok(gpu in o0["gpu_list"], "options", f"GPU {gpu} of {o0['gpu_list']}")
            share.setdefault(gpu, []).append(s)
    if cuda and o0.get("gpu_list") and direct:
        m = min(len(o0["gpu_list"]), dy)
        big = max(map(len, share.values()))
        mon.ok(big <= -(-dy // m) and all(v == list(range(v[0], v[0] + len(v))) for v in share.values()), "gpu-share", lambda: f"{dy} slices on {o0['gpu_list']}: {share}")
    mon.sig("astra", cuda, direct, dy, len(o0.get("gpu_list") or []), sorted(o0), o0["method"])


def moved(a, n):
    """columns moved by n, zeros elsewhere"""
    r = np.zeros_like(a)
    if n == 0:
        return a.copy()
    if abs(n) < a.shape[1]:
        if n > 0:
            r[:, n:] = a[:, :-n]
        else:
            r[:, :n] = a[:, -n:]
    return r


def run_astra_errors(p, mon):
    rng = rng_for("c28e", p["seed"])
    cuda = bool(rng.random() < .7)
    t, th, cen, o = setup_astra(rng, p, cuda)
    dy, dt, dx = t.shape
    where = pick(rng, ["run", "link", "algorithm", "projector", "proj_geom", "vol_geom"])
    n = int(rng.integers(1, dy + 1)) if where not in ("vol_geom", "proj_geom") else 1
    fake = FakeAstra(post=bool(rng.random() < .6), fail={where: n}, delay=0.002 if rng.random() < .5 else 0)
    direct = rng.random() < .5
    old = install(astra=fake)
    err = None
    try:
        if direct:
            tomopy.astra(t, cen, np.zeros((dy, dx, dx), np.float32), np.asarray(th, np.float32), num_gridx=dx, num_gridy=dx, options=o)
        else:
            tomopy.recon(t, th, center=cen, sinogram_order=True, algorithm=tomopy.astra, options=o, ncore=p["ncore"])
    except Boom as e:
        err = e
    finally:
        restore(old)
    mon.ok(err is not None, "error-raised", f"astra's error in {where} call {n} was lost ({o}, {dy} slices, direct {direct})")
    for bad in ({}, dict(num_iter=3)):
        try:
            call_with(fake, t, cen, th, dx, bad)
            mon.ok(False, "error-raised", f"a missing method was accepted: {bad}")
        except ValueError:
            mon.ok(True, "error-raised")
    mon.sig("astra-error", where, n, cuda, direct, dy)


def call_with(fake, t, cen, th, dx, o):
    old = install(astra=fake)
    try:
        tomopy.astra(t, cen, np.zeros((t.shape[0], dx, dx), np.float32), np.asarray(th, np.float32), num_gridx=dx, num_gridy=dx, options=o)
    finally:
        restore(old)


# ---- lprec ------------------------------------------------------------------------
METHODS = ["fbp", "grad", "cg", "tv", "em", "tve", "tvl1"]


class FakeLprec:
    def __init__(self, delay, fail=None, seed=0):
        self.inits, self.calls, self.delay, self.fail, self.rng = [], [], delay, fail, np.random.default_rng(seed)
        fk = self

        class lpTransform:
            def __init__(self, N, Nproj, Nslices, filter_type, cor, interp_type):
                self.a, self.pre, self.gpus = (N, Nproj, Nslices, filter_type, cor, interp_type), None, []
                with LOCK:
                    fk.inits.append(self)

            def precompute(self, flg):
                self.pre = bool(flg)

            def initcmem(self, flg, gpu):
                self.gpus.append((bool(flg), gpu))
        self.pkg = types.ModuleType("lprec")
        self.pkg.lpTransform = types.ModuleType("lprec.lpTransform")
        self.pkg.lpTransform.lpTransform = lpTransform
        self.pkg.lpmethods = types.ModuleType("lprec.lpmethods")
        for m in METHODS:
            setattr(self.pkg.lpmethods, m, self._method(m))
        self.mods = {"lprec": self.pkg, "lprec.lpTransform": self.pkg.lpTransform, "lprec.lpmethods": self.pkg.lpmethods}

    def _method(self, name):
        def f(lp, recon, tomo, num_iter, reg_par, gpu):
            with LOCK:
                k = len(self.calls)
                r = .2 + self.rng.random()
                e = dict(name=name, lp=lp, init=np.array(recon), tomo=np.array(tomo), n=num_iter, reg=reg_par, gpu=gpu, t0=time.monotonic())
                self.calls.append(e)
            if self.fail == k + 1:
                raise Boom("lprec")
            if self.delay:
                time.sleep(r * self.delay)
            e["t1"] = time.monotonic()
            return (np.asarray(tomo).sum((1, 2), dtype=np.float64)[:, None, None] + np.arange(recon.shape[1] * recon.shape[2]).reshape(recon.shape[1:])).astype(np.float32)
        return f


def run_lprec(p, mon):
    import concurrent.futures as cf
    rng = rng_for("c28l", p["seed"])
    dy = int(rng.integers(1, 14))
    t = (1 + rng.random((dy, p["dt"], p["dx"]))).astype(np.float32)
    th = np.linspace(0, np.pi, p["dt"], dtype=np.float32)
    if p["i"] % 12 == 0:                      # batches limited by the width of the detector, one slice at least
        w = int(pick(rng, [3000, 4096, 4300, 5000]))
        t = rng.random((min(dy, 4), 1, w)).astype(np.float32)
        th = th[:1]
    dy, dt, dx = t.shape
    wide = dx > 2000
    g = (dx, dx) if not wide else (3, 4)
    cen = dx / 2 + int(rng.integers(-3, 4))
    if dx % 2:
        cen += .5
    gpus = [int(x) for x in rng.permutation(8)[:int(rng.integers(1, 5))]]
    kw = {}
    for k, v in (("lpmethod", pick(rng, METHODS)), ("filter_name", pick(rng, ["ramp", "parzen", "hann"])), ("interp_type", "linear"), ("num_iter", int(rng.integers(2, 9))), ("reg_par", float(rng.random())), ("gpu_list", gpus)):
        if rng.random() < .65:
            kw[k] = v
    fail = int(rng.integers(1, 3)) if rng.random() < .15 else None
    fk = FakeLprec(0.004 if rng.random() < .7 else 0, fail, p["seed"])
    ncalls = int(pick(rng, [1, 1, 2, 3])) if not wide else 1
    ncore = int(rng.integers(1, 4))
    direct = rng.random() < .5
    kw0 = copy.deepcopy(kw)
    init = rng.random((dy,) + g).astype(np.float32)
    old = install(**fk.mods)

    def one(j):
        tj = t + np.float32(j)
        if direct:
            r = init.copy()
            tomopy.lprec(tj, np.full(dy, cen, np.float32), r, th, num_gridx=g[0], num_gridy=g[1], options={}, **kw)
            return r
        return tomopy.recon(tj, th, center=cen, sinogram_order=True, algorithm=tomopy.lprec, ncore=ncore, init_recon=init.copy(), num_gridx=g[0], num_gridy=g[1], **kw)
    try:
        with cf.ThreadPoolExecutor(ncalls) as e:
            fs = [e.submit(one, j) for j in range(ncalls)]
            errs = [f.exception() for f in fs]
            outs = [f.result() if f.exception() is None else None for f in fs]
    finally:
        restore(old)
    what = f"{kw0} {t.shape} ncore {ncore} calls {ncalls} direct {direct}"
    mon.ok(kw == kw0, "caller-unchanged", "options")
    if fail and len(fk.calls) >= fail:
        mon.ok(any(isinstance(x, Boom) for x in errs), "error-raised", f"lprec's error was lost: {errs} {what}")
    elif not mon.ok(not any(errs), "lprec-calls", f"{what}: {[repr(x) for x in errs if x]}"):
        return
    opt = dict(lpmethod="fbp", filter_name="None", interp_type="cubic", num_iter=1, reg_par=1, gpu_list=[0])
    opt.update(kw0)
    flg = opt["lpmethod"] != "fbp"
    mon.count("package-calls", len(fk.calls))
    for lp in fk.inits:
        N, M, S, f, c, it = lp.a
        mon.ok((N, M, f, it) == (dx, dt, opt["filter_name"], opt["interp_type"]) and abs(c - cen) < 1 and lp.pre == flg, "lprec-calls", f"{what}: transform {lp.a} {lp.pre}")
        mon.ok(fail is not None or lp.gpus == [(flg, q) for q in opt["gpu_list"]], "lprec-calls", f"{what}: memory set up on {lp.gpus}")
        for c in fk.calls:
            if c["lp"] is lp:
                mon.ok(1 <= len(c["tomo"]) <= S, "lprec-batch", f"{what}: {len(c['tomo'])} slices in a batch, announced {S}")
    for c in fk.calls:
        mon.ok(c["name"] == opt["lpmethod"] and c["n"] == opt["num_iter"] and c["reg"] == opt["reg_par"] and c["gpu"] in opt["gpu_list"], "lprec-calls", f"{what}: {c['name']} {c['n']} {c['reg']} {c['gpu']}")
        mon.ok(len({id(d["lp"]) for d in fk.calls if d is not c and d["lp"] is c["lp"] and d["gpu"] == c["gpu"] and "t1" in d and "t1" in c and d["t0"] < c["t1"] and c["t0"] < d["t1"]}) == 0, "gpu-share", f"{what}: two batches of one call at a time on GPU {c['gpu']}")
    for j in range(ncalls):
        if errs[j] is not None:
            continue
        for s in range(dy):
            src = t[s] + np.float32(j)
            hit = sum(int(np.array_equal(x, src)) for c in fk.calls for x in c["tomo"])
            mon.ok(hit == 1, "exactly-once", f"{what}: slice {s} of call {j} was handed over {hit} times")
            ref = (src.sum(dtype=np.float64) + np.arange(g[0] * g[1]).reshape(g)).astype(np.float32)
            mon.close(outs[j][s], ref, "placed", f"{what}: slice {s} of call {j}", rtol=1e-6)
    for c in fk.calls:
        for x, i0 in zip(c["tomo"], c["init"]):
            s = [q for q in range(dy) if np.array_equal(x - x.flat[0], t[q] - t[q].flat[0]) or any(np.array_equal(x, t[q] + np.float32(j)) for j in range(ncalls))]
            mon.ok(len(s) >= 1 and any(np.array_equal(i0, init[q]) for q in s), "placed", lambda: f"{what}: slices {s} started from another volume")
    mon.sig("lprec", dy, ncalls, ncore, len(opt["gpu_list"]), opt["lpmethod"], direct, wide)


# ---- UFO --------------------------------------------------------------------------
class FakeUfo:
    """task graph whose tasks only pass the data on; the last one enlarges it"""

    def __init__(self, size, fail=None):
        import queue
        self.size, self.fail, self.edges, self.tasks, self.got, self.out = size, fail, [], [], [], queue.Queue()
        fk = self

        class Buffer:
            def __init__(self):
                self.ptr = None

            def set_host_array(self, ptr, free):
                if fk.fail == "buffer":
                    raise Boom("ufo")
                self.ptr, self.free = ptr, free

        class Task:
            def __init__(self, name):
                self.name, self.props = name, {}
                fk.tasks.append(self)

            def set_properties(self, **kw):
                self.props.update(kw)

        class InputTask(Task):
            def __init__(self):
                Task.__init__(self, "input")
                self.stopped = threading.Event()

            def get_input_buffer(self):
                return Buffer()

            def release_input_buffer(self, b):
                n = fk.shape[0] * fk.shape[1]
                a = np.ctypeslib.as_array(ctypes.cast(b.ptr, ctypes.POINTER(ctypes.c_float)), (n,)).reshape(fk.shape).copy()
                fk.got.append((a, b.free))
                fk.out.put(len(fk.got))

            def stop(self):
                self.stopped.set()

        class OutputTask(Task):
            def __init__(self):
                Task.__init__(self, "output")
                self.released = 0

            def get_output_buffer(self):
                k = fk.out.get(timeout=20)
                a = np.full((fk.size, fk.size), k * 10000, np.float32)
                return a + np.arange(fk.size * fk.size, dtype=np.float32).reshape(a.shape)

            def release_output_buffer(self, b):
                self.released += 1

        class TaskGraph:
            def connect_nodes(self, a, b):
                fk.edges.append((a, b))

        class PluginManager:
            def get_task(self, n):
                if fk.fail == "task":
                    raise Boom("ufo")
                return Task(n)

        class Scheduler:
            def __init__(self):
                self.props = types.SimpleNamespace(time=0.)

            def run(self, g):
                i = [t for t in fk.tasks if t.name == "input"][0]
                fk.stopped = i.stopped.wait(6)
                if fk.fail == "run":
                    raise Boom("ufo")
        Ufo = types.SimpleNamespace(TaskGraph=TaskGraph, PluginManager=PluginManager, Scheduler=Scheduler, InputTask=InputTask, OutputTask=OutputTask)
        gi, repo = types.ModuleType("gi"), types.ModuleType("gi.repository")
        gi.require_version = lambda *a: None
        gi.repository = repo
        repo.Ufo = Ufo
        ufo, un = types.ModuleType("ufo"), types.ModuleType("ufo.numpy")
        ufo.numpy = un
        un.empty_like = lambda a: Buffer()
        un.asarray = lambda a: a
        self.mods = {"gi": gi, "gi.repository": repo, "ufo": ufo, "ufo.numpy": un}


CHAIN = dict(ufo_fbp=["input", "fft", "filter", "ifft", "backproject", "output"], ufo_dfi=["input", "zeropad", "fft", "dfi-sinc", "swap-quadrants", "ifft", "swap-quadrants", "output"])


def run_ufo(p, mon):
    rng = rng_for("c28u", p["seed"])
    t, _ = data(rng, dict(p, dt=max(2, p["dt"])))
    dy, dt, dx = t.shape
    step = float(rng.uniform(.01, .3))
    th = (np.arange(dt) * step).astype(np.float32)
    cen = float(dx / 2 + rng.uniform(-3, 3))
    name = pick(rng, sorted(CHAIN))
    size = dx if rng.random() < .3 else dx + 2 * int(rng.integers(0, 9))
    fk = FakeUfo(size, pick(rng, [None] * 8 + ["task", "run", "buffer"]))
    fk.shape = (dt, dx)
    direct = bool(rng.random() < .6)
    t0 = t.copy()
    rec = np.zeros((dy, dx, dx), np.float32)
    hooked, unraised = threading.excepthook, []
    threading.excepthook = lambda a: unraised.append(a.exc_value)
    old = install(**fk.mods)
    err = None
    try:
        if direct:
            getattr(tomopy, name)(t, np.full(dy, cen, np.float32), rec, th, num_gridx=dx, num_gridy=dx, options={})
        else:
            rec = tomopy.recon(t, th, center=cen, sinogram_order=True, algorithm=getattr(tomopy, name), ncore=1)
    except Exception as e:
        err = e
    finally:
        restore(old)
        threading.excepthook = hooked
    what = f"{name} {t.shape} size {size} direct {direct}"
    if fk.fail:
        mon.ok(isinstance(err, Boom), "error-raised", f"{what}: UFO's error in {fk.fail} was lost ({err!r}, in the feeding thread {unraised})")
        mon.sig("ufo-error", name, fk.fail)
        return
    if not mon.ok(err is None and not unraised, "ufo-graph", f"{what}: {err!r} {unraised}"):
        return
    mon.equal(t, t0, "caller-unchanged", what)
    mon.count("package-calls", len(fk.got))
    mon.ok(len(fk.got) == dy, "exactly-once", f"{what}: {len(fk.got)} sinograms")
    for s, (a, free) in enumerate(fk.got):
        mon.equal(a, t0[s], "sinogram", f"{what}: sinogram {s}")
        mon.ok(not free, "sinogram", "the caller's memory was given away")
        lo = (size - dx) // 2
        ref = (np.full((size, size), (s + 1) * 10000, np.float32) + np.arange(size * size, dtype=np.float32).reshape(size, size))[lo:lo + dx, lo:lo + dx]
        mon.equal(rec[s], ref, "placed", f"{what}: slice {s}")
    o = [x for x in fk.tasks if x.name == "output"][0]
    mon.ok(o.released == dy, "released", f"{what}: {o.released} output buffers given back")
    nxt = {id(a): b for a, b in fk.edges}
    n = [x for x in fk.tasks if x.name == "input"][0]
    chain, pr = [], {}
    while n is not None and len(chain) < 20:
        chain.append(n.name)
        pr[n.name] = dict(pr.get(n.name, {}), **n.props)
        n = nxt.get(id(n))
    mon.ok(chain == CHAIN[name] and len(fk.edges) == len(chain) - 1, "ufo-graph", f"{what}: {chain}")
    if name == "ufo_fbp":
        b = pr["backproject"]
        mon.ok(abs(b["axis_pos"] - cen) < 1e-4 and abs(b["angle_step"] - step) < 1e-5 and pr["ifft"].get("crop_width") == dx, "geometry", f"{what}: {pr}")
    else:
        mon.ok(abs(pr["zeropad"]["center_of_rotation"] - cen) < 1e-4 and abs(pr["dfi-sinc"]["angle_step"] - step) < 1e-5 and pr["ifft"].get("dimensions") == 2 and pr["fft"].get("dimensions") == 1, "geometry", f"{what}: {pr}")
    mon.sig("ufo", name, dy, dt, dx, size)


# ---- accelerated packages and worker processes -------------------------------------
def run_peri(p, mon):
    rng = rng_for("c28p", p["seed"])
    t, th = data(rng, p)
    t = np.swapaxes(t, 0, 1)
    log, back = [], object()

    def impl(*a, **kw):
        log.append((a, kw))
        return back
    args = dict(center=float(rng.random()), emission=bool(rng.random() < .5), algorithm=pick(rng, ["mlem", "ospml_hybrid"]), hardware=pick(rng, ["Xeon_Phi", "nVidia_GPU", None]), acc_option=pick(rng, [None, dict(a=1)]), init_recon=pick(rng, [None, 7]))
    args = {k: v for k, v in args.items() if rng.random() < .8}
    more = dict(num_iter=int(rng.integers(1, 5))) if rng.random() < .6 else {}
    mods = {"tomopy_peri": types.ModuleType("tomopy_peri"), "tomopy_peri.algorithm": types.ModuleType("tomopy_peri.algorithm")}
    mods["tomopy_peri"].algorithm = mods["tomopy_peri.algorithm"]
    mods["tomopy_peri.algorithm"].recon_accelerated = impl
    import importlib.machinery
    for k, m in mods.items():
        m.__spec__ = importlib.machinery.ModuleSpec(k, None)
    how = pick(rng, ["function", "tomoperi", "default", "absent", "absent-default", "unknown", "number"])
    imp = dict(function=dict(implementation=impl), tomoperi=dict(implementation="tomoperi"), default={}, absent=dict(implementation="tomoperi"), unknown=dict(implementation="tomopery"), number=dict(implementation=3)).get(how, {})
    old = install(**mods) if how in ("function", "tomoperi", "default") else {}
    err = r = None
    try:
        r = tomopy.recon_accelerated(t, th, **args, **imp, **more)
    except ValueError as e:
        err = e
    finally:
        restore(old)
    if how in ("absent", "absent-default", "unknown", "number"):
        mon.ok(err is not None and not log, "peri", f"{how}: accepted")
    else:
        d = dict(center=None, emission=True, algorithm=None, hardware=None, acc_option=None, init_recon=None)
        d.update(args)
        ok = err is None and len(log) == 1 and r is back
        if ok:
            a, kw = log[0]
            names = ["tomo", "theta", "center", "emission", "algorithm", "hardware", "acc_option", "init_recon"]
            g = dict(zip(names, a))
            g.update({k: v for k, v in kw.items() if k in names})
            ok = g["tomo"] is t and g["theta"] is th and {k: g[k] for k in d} == d and {k: v for k, v in kw.items() if k not in names} == more
        mon.ok(ok, "peri", f"{how} {args} {more}: {err!r} {[(len(a), sorted(k)) for a, k in log]}")
    mon.count("package-calls", len(log))
    mon.sig("peri", how, sorted(args))


def proc_alg(tomo, center, recon, theta, **kw):
    """runs in a worker process"""
    import os
    o = kw["options"]
    if o.get("fail") is not None and np.any(tomo[:, 0, 0] == o["fail"]):
        raise Boom("worker")
    if np.any(tomo[:, 0, 0] == o["slow"]):
        time.sleep(.08)
    with open(o["log"], "a") as f:
        f.write(f"{os.getpid()} {os.environ.get('TOMOPY_DEVICE_NUM')} {' '.join(str(int(x)) for x in tomo[:, 0, 0])}\n")
    for i in range(tomo.shape[0]):
        recon[i] += tomo[i].sum() + 10 * center[i] + theta.sum()


def run_process(p, mon):
    import os, tempfile
    rng = rng_for("c28q", p["seed"])
    t, th = data(rng, p)
    dy, dt, dx = t.shape
    t[:, 0, 0] = np.arange(dy) + 100
    cen = (dx / 2 + rng.random(dy)).astype(np.float32)
    init = rng.random((dy, dx, dx)).astype(np.float32)
    fail = 100 + int(rng.integers(dy)) if rng.random() < .25 else None
    with tempfile.TemporaryDirectory() as d:
        err = r = None
        before = {k: os.environ.get(k) for k in ("TOMOPY_DEVICE_NUM", "TOMOPY_PYTHON_THREADS")}
        try:
            r = tomopy.recon(t, th, center=cen, sinogram_order=True, algorithm=proc_alg, accelerated=True, ncore=p["ncore"], nchunk=p["nchunk"], init_recon=init.copy(), options=dict(log=d + "/l", fail=fail, slow=100 + int(rng.integers(dy))))
        except Boom as e:
            err = e
        after = {k: os.environ.get(k) for k in before}
        L = [l.split() for l in open(d + "/l")] if os.path.exists(d + "/l") else []
    what = f"{t.shape} ncore {p['ncore']} nchunk {p['nchunk']}"
    mon.ok(p["ncore"] == 1 or before == after, "process", f"{what}: environment {before} -> {after}")
    if fail is not None:
        mon.ok(err is not None, "error-raised", f"{what}: the worker's error was lost")
        return
    if not mon.ok(err is None, "process", f"{what}: {err!r}"):
        return
    mon.ok(sorted(int(x) for l in L for x in l[2:]) == list(range(100, 100 + dy)), "process", f"{what}: slices handed over {L}")
    mon.ok(len(L) == 1 or p["ncore"] == 1 or len({l[1] for l in L}) == len(L), "process", f"{what}: device numbers {[l[1] for l in L]}")
    mon.close(r, np.stack([init[s] + (t[s].sum(dtype=np.float64) + 10 * cen[s] + th.sum()) for s in range(dy)]), "process", what, rtol=1e-5)
    mon.count("package-calls", len(L))
    mon.sig("process", dy, p["ncore"], p["nchunk"], len(L))


FAMILIES = [Family("astra", gen, run_astra, 900, 9000), Family("astra-errors", gen, run_astra_errors, 240, 2400), Family("lprec", gen, run_lprec, 400, 4000), Family("ufo", gen, run_ufo, 300, 3000),
            Family("peri", gen, run_peri, 200, 2000), Family("process", gen, run_process, 60, 600)]
