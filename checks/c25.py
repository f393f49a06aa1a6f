import ctypes, os, threading, time
from vlib import *
tomopy = lazy("tomopy")
VARIANT = "asan"
ACCEL = True
RULE = ("the accelerated C++ kernels (built from the working tree with sanitizers, against stand-ins for the tasking library and OpenCV; the stand-in reproduces recordings made with the real OpenCV) called through tomopy.recon(accelerated=True): 'values' algorithm x interpolation x grid "
        "(detector sized, larger, smaller, rectangular) x pool sizes x initial reconstructions x hostile pixels under ASan+UBSan against an independent numpy oracle; 'threads' TSan with random task delays and overlapping calls; 'failures' invalid options and failing tasks; 'workers' worker processes; "
        "'recorded' the reconstructions stored with the test data; non-trivial: the thread pool ran a task")
ASSUMPTIONS = ["OpenCV's rotation and PTL's thread pool are stand-ins (checked against recordings of the real OpenCV)", "GPU kernels are outside", "single-precision rounding; nearest-neighbour positions closer than 2e-5 degrees to a tie are skipped"]
REQUIRED = ["monitor:" + k for k in ("accel-values", "accel-pool", "accel-slice", "accel-argument", "accel-center", "accel-history", "accel-tasks", "accel-threads-left", "accel-race", "accel-error", "accel-after-error", "accel-workers", "accel-recorded")]
_lib = [None]


def lib():
    if _lib[0] is None:
        import tomopy.util.extern.accel as A
        L = _lib[0] = ctypes.CDLL(os.environ["VERIF_ACCEL"])
        L.accel_set.argtypes = [ctypes.c_long, ctypes.c_long]
        A.LIB_TOMOPY_ACCEL = L
    return _lib[0]


def seen():
    a = (ctypes.c_long * 5)()
    lib().accel_get(a)
    return dict(pools=a[0], threads=a[1], tasks=a[2], together=a[3], running=a[4])


def left(n):
    """threads beyond n (a joined thread stays listed for a moment)"""
    end = time.time() + 3
    while len(os.listdir("/proc/self/task")) > n and time.time() < end:
        time.sleep(.01)
    return len(os.listdir("/proc/self/task")) - n


def call(p, t, th, **kw):
    lib()
    k = dict(algorithm=p["alg"], accelerated=True, device=p["device"], interpolation=p["interp"], pool_size=p["pool"], num_iter=p["iter"], ncore=1, sinogram_order=True)
    if p["grid"]:
        k.update(num_gridx=p["grid"][0], num_gridy=p["grid"][1])
    k.update(kw)
    return tomopy.recon(t, th, **k)


# ---- oracle ---------------------------------------------------------------------------
F = np.float32
HALF, TWO, DEG = F(0.5) * F(np.pi), F(2) * F(np.pi), F(180) / F(np.pi)


def weights(f, inter):
    if inter == "LINEAR":
        return np.stack([1 - f, f])
    A = -0.75
    c0 = ((A * (f + 1) - 5 * A) * (f + 1) + 8 * A) * (f + 1) - 4 * A
    c1 = ((A + 2) * f - (A + 3)) * f * f + 1
    g = 1 - f
    c2 = ((A + 2) * g - (A + 3)) * g * g + 1
    return np.stack([c0, c1, c2, 1 - c0 - c1 - c2])


def rotate(img, deg, inter):
    """rotation about the middle pixel; positions in 1/1024, weights in 1/32 of a pixel (OpenCV's documented arithmetic)"""
    nx, ny = img.shape
    cx, cy = ny // 2, nx // 2
    a, b = np.cos(deg * np.pi / 180), np.sin(deg * np.pi / 180)
    m = np.array([[a, b, (1 - a) * cx - b * cy], [-b, a, b * cx + (1 - a) * cy]])
    D = m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    i00, i11, i01, i10 = m[1, 1] / D, m[0, 0] / D, -m[0, 1] / D, -m[1, 0] / D
    i02, i12 = -i00 * m[0, 2] - i01 * m[1, 2], -i10 * m[0, 2] - i11 * m[1, 2]
    y, x = np.arange(nx)[:, None], np.arange(ny)[None]
    rd = 512 if inter == "NN" else 16
    X = np.rint((i01 * y + i02) * 1024).astype(int) + rd + np.rint(i00 * x * 1024).astype(int)
    Y = np.rint((i11 * y + i12) * 1024).astype(int) + rd + np.rint(i10 * x * 1024).astype(int)

    def get(yy, xx):
        ok = (yy >= 0) & (xx >= 0) & (yy < nx) & (xx < ny)
        return np.where(ok, img[np.clip(yy, 0, nx - 1), np.clip(xx, 0, ny - 1)], 0)
    if inter == "NN":
        return get(Y >> 10, X >> 10)
    X, Y = X >> 5, Y >> 5
    wx, wy = weights((X & 31) / 32, inter), weights((Y & 31) / 32, inter)
    X, Y = X >> 5, Y >> 5
    o = 0 if inter == "LINEAR" else 1
    out = 0
    for i in range(len(wy)):
        for j in range(len(wx)):
            v = get(Y + i - o, X + j - o)
            # no weight outside the image, even where a neighbour is not finite
            inside = (Y + i - o >= 0) & (X + j - o >= 0) & (Y + i - o < nx) & (X + j - o < ny)
            out = out + np.where(inside, v * wy[i] * wx[j], 0)
    return out


def oracle(alg, sino, th, init, n, inter, eps=0.0):
    """one slice; rotate, compare row sums with the projection, spread, rotate back"""
    nx, ny = init.shape
    dt, dx = sino.shape
    x = init.astype(F)
    ang = [np.float64(np.fmod(F(F(t) + HALF), TWO)) * np.float64(DEG) + eps for t in th]
    dist = sum((rotate(np.ones((nx, ny), int), -a, "NN") > 0).astype(int) for a in ang)
    rows = [(d, d + nx // 2 - dx // 2) for d in range(dx) if 0 <= d + nx // 2 - dx // 2 < nx]
    for _ in range(n):
        upd = np.zeros((nx, ny))
        for p in range(dt):
            rot = rotate(x, -ang[p], inter).astype(F)
            s = rot.sum(1, dtype=np.float64)
            for d, r in rows:
                if s[r] != 0:
                    u = sino[p, d] / s[r] if alg == "mlem" else sino[p, d] - s[r]
                    if np.isfinite(F(u)):
                        rot[r] += F(u)
            upd += rotate(rot, ang[p], inter).astype(F)
        with np.errstate(all="ignore"):
            new = x * (upd / dist / dx) if alg == "mlem" else x + upd / dist / dx
        x = np.where((dist != 0) & ((upd == upd) if alg == "mlem" else np.isfinite(upd)), new, x).astype(F)
    return x.astype(np.float64)


def shifted(sino, c):
    s = c - sino.shape[1] / 2
    if s == 0:
        return sino
    i = np.arange(sino.shape[1])
    return np.stack([np.interp(i + s, i, r) for r in sino]).astype(F)


def expected(p, t, th, cen, init):
    """the oracle's volume, a bound on its rounding, and whether rounding decides a nearest neighbour"""
    out, tol, ill = [], [], False
    rng = rng_for("c25n", p["seed"])
    for s in range(t.shape[0]):
        a = (p["alg"], shifted(t[s], cen[s]), th)
        b = (p["iter"], p["interp"])
        r = oracle(*a, init[s], *b)
        alt = [oracle(*a, init[s], *b, eps=e) for e in (2e-5, -2e-5)]
        sc = np.max(np.abs(r[np.isfinite(r)]), initial=0)
        n = oracle(a[0], (a[1] * (1 + 1e-6 * rng.uniform(-1, 1, a[1].shape))).astype(F), th, (init[s] * (1 + 1e-6 * rng.uniform(-1, 1, init[s].shape))).astype(F), *b)
        e = 30 * np.max(np.abs(n - r)[np.isfinite(n - r)], initial=0)
        lim = e + 2e-5 * sc
        with np.errstate(all="ignore"):
            ill |= any(not np.all((np.abs(q - r) <= .5 * lim) | (q == r) | ((q != q) & (r != r))) for q in alt) if p["interp"] == "NN" else False
            if p["interp"] != "NN":
                # weights are multiples of 1/32: a perturbed angle moves some of them by one step
                lim += 4 * max(np.max(np.abs(q - r)[np.isfinite(q - r)], initial=0) for q in alt)
        ill |= not np.array_equal(np.isfinite(n), np.isfinite(r)) or e > 1e-2 * sc
        out.append(r)
        tol.append(lim)
    return np.stack(out), tol, ill


# ---- workloads --------------------------------------------------------------------------
def gen(rng, i):
    dx = int(rng.integers(1, 20))
    g = int(rng.integers(6))
    grid = None if g < 2 else [dx, dx] if g == 2 else [int(rng.integers(1, 24))] * 2 if g == 3 else [int(rng.integers(1, 24)), int(rng.integers(1, 24))] if g == 4 else [dx + 2 * int(rng.integers(1, 4))] * 2
    return dict(alg=pick(rng, ["mlem", "sirt"]), interp=pick(rng, ["NN", "LINEAR", "CUBIC"]), dy=int(rng.integers(1, 4)), dt=int(rng.integers(1, 9)), dx=dx, grid=grid, pool=int(pick(rng, [0, 1, 2, 3, 5])), iter=int(pick(rng, [0, 1, 1, 2, 3, 4])),
                device=pick(rng, ["cpu", "cpu", "gpu"]), center=pick(rng, ["mid", "mid", "whole", "frac"]), hostile=bool(rng.random() < .15), init=bool(rng.random() < .5), span=pick(rng, ["half", "full", "any"]))


def data(p, key):
    rng = rng_for(key, p["seed"])
    dy, dt, dx = p["dy"], p["dt"], p["dx"]
    t = (rng.random((dy, dt, dx)) * 3 + .2).astype(F)
    if rng.random() < .3:
        t *= rng.random(t.shape) < .6
    th = (np.arange(dt) * np.pi / dt if p["span"] == "half" else np.arange(dt) * 2 * np.pi / dt if p["span"] == "full" else rng.uniform(-4, 8, dt)).astype(F)
    if p["hostile"]:
        for v in (np.nan, np.inf):
            t[tuple(rng.integers(n) for n in t.shape)] = v
    cen = np.full(dy, dx / 2, F)
    if p["center"] != "mid" and not p["hostile"]:
        cen += rng.integers(-2, 3, dy) if p["center"] == "whole" else rng.uniform(-2, 2, dy).astype(F)
    g = p["grid"] or [dx, dx]
    init = (rng.random([dy] + g) + .3).astype(F)
    return t, th, cen, init


def run_values(p, mon):
    t, th, cen, init = data(p, "c25")
    L = lib()
    L.accel_set(int(rng_for("d", p["seed"]).integers(3)) * 200, -1)
    kw = dict(center=cen.copy() if p["center"] != "mid" else None)
    if p["init"]:
        kw["init_recon"] = init.copy()
    else:
        init = np.full(init.shape, 1e-6, F)
    t0, th0 = t.copy(), th.copy()
    b, nth = seen(), len(os.listdir("/proc/self/task"))
    r = call(p, t, th, **kw)
    a = seen()
    what = f"{p}"
    mon.ok(a["tasks"] - b["tasks"] == p["iter"] * p["dt"] and a["running"] == 0, "accel-tasks", f"{what}: {a['tasks'] - b['tasks']} tasks for {p['iter']} iterations of {p['dt']} angles")
    mon.ok(left(nth) <= 0, "accel-threads-left", what)
    mon.equal(t, t0, "accel-argument", what + " data")
    mon.equal(th, th0, "accel-argument", what + " angles")
    mon.count("tasks", a["tasks"] - b["tasks"])
    mon.count("pool-threads", a["threads"] - b["threads"])
    e, tol, ill = expected(p, t, th, cen, init)
    if not mon.ok(r.shape == e.shape and r.dtype == F, "accel-values", f"{what}: {r.shape} {r.dtype}"):
        return
    if ill:
        mon.count("skipped_illconditioned")
    else:
        for s in range(p["dy"]):
            mon.close(r[s], e[s], "accel-center" if p["center"] != "mid" else "accel-values", f"{what} slice {s}", rtol=0, atol=tol[s])
    # number of threads, neighbours, iterations in two goes
    lim = [2e-5 * np.max(np.abs(e[s][np.isfinite(e[s])]), initial=0) + tol[s] for s in range(p["dy"])]
    def ini(x):
        return dict(init_recon=x.copy())
    q = dict(p, pool=1 if p["pool"] != 1 else 4)
    r2 = call(q, t, th, center=kw["center"], **ini(init))
    one = int(rng_for("o", p["seed"]).integers(p["dy"]))
    r3 = call(p, t[one:one + 1].copy(), th, center=None if kw["center"] is None else cen[one:one + 1].copy(), **ini(init[one:one + 1]))
    if not ill:
        for s in range(p["dy"]):
            mon.close(r2[s], r[s], "accel-pool", f"{what} slice {s}: pool {p['pool']} and {q['pool']}", rtol=0, atol=lim[s])
        mon.close(r3[0], r[one], "accel-slice", f"{what}: slice {one} alone", rtol=0, atol=lim[one])
        if p["iter"] > 1:
            r4 = call(dict(p, iter=1), t, th, center=kw["center"], **ini(init))
            r4 = call(dict(p, iter=p["iter"] - 1), t, th, center=kw["center"], **ini(r4))
            for s in range(p["dy"]):
                mon.close(r4[s], r[s], "accel-history", f"{what} slice {s}: 1 + {p['iter'] - 1} iterations", rtol=0, atol=lim[s])
    if p["iter"] == 0:
        mon.equal(r, init, "accel-history", what + ": no iterations")
    mon.sig("values", p["alg"], p["interp"], p["grid"] is None, p["pool"], p["iter"], p["dx"] % 2)


def gen_threads(rng, i):
    p = gen(rng, i)
    p.update(pool=int(rng.integers(2, 6)), dt=int(rng.integers(4, 12)), iter=int(rng.integers(1, 4)), calls=int(rng.integers(1, 4)), delay=int(pick(rng, [0, 100, 800])), hostile=False, dy=int(rng.integers(1, 4)), init=True)
    return p


def run_threads(p, mon):
    L = lib()
    ps = [dict(p, seed=p["seed"] + k, pool=p["pool"] + k, alg=("mlem", "sirt")[(k + (p["alg"] == "sirt")) % 2]) for k in range(p["calls"])]
    ds = [data(q, "c25t") for q in ps]
    L.accel_set(0, -1)
    alone = [call(dict(q, pool=1), d[0], d[1], center=d[2].copy(), init_recon=d[3].copy()) for q, d in zip(ps, ds)]
    L.accel_set(p["delay"], -1)
    seen()
    out, bar = [None] * len(ps), threading.Barrier(len(ps))

    def go(k):
        try:
            bar.wait()
            out[k] = call(ps[k], ds[k][0], ds[k][1], center=ds[k][2].copy(), init_recon=ds[k][3].copy())
        except Exception as e:
            out[k] = e
    ts = [threading.Thread(target=go, args=(k,)) for k in range(len(ps))]
    [x.start() for x in ts]
    [x.join() for x in ts]
    a = seen()
    L.accel_set(0, -1)
    mon.ok(a["running"] == 0, "accel-tasks", f"{p}: tasks left running")
    for k, q in enumerate(ps):
        if isinstance(out[k], Exception):
            mon.fail("accel-race", f"{q}: {out[k]!r}")
            continue
        for s in range(q["dy"]):
            sc = np.max(np.abs(alone[k][s][np.isfinite(alone[k][s])]), initial=0)
            # cubic weights may make a sum nearly cancel
            mon.close(out[k][s], alone[k][s], "accel-race", f"{q} slice {s} with {len(ps)} calls at a time", rtol=0, atol=(2e-2 if q["interp"] == "CUBIC" and q["alg"] == "mlem" else 2e-4) * sc)
    mon.count("overlapping-tasks", a["together"])
    mon.sig("threads", len(ps), a["together"], p["pool"], p["alg"])


def gen_fail(rng, i):
    p = gen(rng, i)
    p.update(kind=pick(rng, ["task", "task", "interp", "pool", "case"]), iter=int(rng.integers(1, 4)), hostile=False, pool=int(rng.integers(1, 4)), init=True)
    return p


def run_fail(p, mon):
    t, th, cen, init = data(p, "c25f")
    L = lib()
    L.accel_set(0, -1)
    go = lambda q, **k: call(q, t, th, center=cen.copy(), init_recon=init.copy(), **k)
    base = go(p)
    sc = np.max(np.abs(base[np.isfinite(base)]), initial=0)
    tol = (2e-2 if p["interp"] == "CUBIC" and p["alg"] == "mlem" else 2e-4) * sc
    r = rng_for("c25k", p["seed"])
    if p["kind"] == "pool":
        mon.close(go(dict(p, pool=-int(r.integers(1, 5)))), base, "accel-pool", f"{p}: negative number of threads", rtol=0, atol=tol)
    elif p["kind"] == "case":
        mon.close(go(dict(p, interp=pick(r, [p["interp"].lower(), p["interp"].capitalize(), {"NN": "0", "LINEAR": "1", "CUBIC": "2"}[p["interp"]]]))), base, "accel-values", f"{p}: interpolation in another spelling", rtol=0, atol=tol)
    else:
        err = None
        nth = len(os.listdir("/proc/self/task"))
        bad = pick(r, ["7", "bilinear", "", "nearest", "AREA", "-1", "NN "]) if p["kind"] == "interp" else None
        if bad is None:
            L.accel_set(0, int(r.integers(p["iter"] * p["dt"])))
        try:
            go(p, **({} if bad is None else dict(interpolation=bad)))
        except Exception as e:
            err = e
        L.accel_set(0, -1)
        mon.ok(err is not None, "accel-error", f"{p}: {'a failing task' if bad is None else 'interpolation ' + repr(bad)} went unnoticed")
        mon.ok(left(nth) <= 0 and seen()["running"] == 0, "accel-threads-left", f"{p}: after the failure")
    mon.close(go(p), base, "accel-after-error", f"{p}", rtol=0, atol=tol)
    mon.sig("fail", p["kind"], p["alg"], p["interp"])


def run_workers(p, mon):
    t, th, cen, init = data(p, "c25w")
    lib().accel_set(0, -1)
    one = call(p, t, th, center=cen.copy(), init_recon=init.copy())
    r = rng_for("c25ww", p["seed"])
    n = int(r.integers(2, 4))
    two = call(p, t, th, center=cen.copy(), init_recon=init.copy(), ncore=n, nchunk=int(r.integers(1, 3)))
    for s in range(p["dy"]):
        sc = np.max(np.abs(one[s][np.isfinite(one[s])]), initial=0)
        mon.close(two[s], one[s], "accel-workers", f"{p} slice {s} with {n} worker processes", rtol=0, atol=(2e-2 if p["interp"] == "CUBIC" and p["alg"] == "mlem" else 2e-4) * sc)
    mon.sig("workers", p["alg"], p["dy"], n)


def gen_workers(rng, i):
    p = gen(rng, i)
    p.update(dy=int(rng.integers(2, 6)), hostile=False, init=True, pool=int(rng.integers(1, 3)))
    return p


def run_recorded(p, mon):
    """recordings made upstream with the real OpenCV"""
    d = os.path.join(os.environ["VERIF_REPO"], "test/test_tomopy/test_data")
    lib().accel_set(p["delay"], -1)
    t, th = np.load(d + "/proj.npy").astype(F), np.load(d + "/angle.npy").astype(F)
    r = tomopy.recon(t, th, algorithm=p["alg"], num_iter=4, accelerated=True, device="cpu", ncore=1, pool_size=p["pool"])
    ref = np.load(f"{d}/{p['alg']}_accel.npy")
    mon.close(r, ref, "accel-recorded", f"{p}", rtol=1e-4)
    mon.sig("recorded", p["alg"], p["pool"])


def gen_recorded(rng, i):
    return dict(alg=("mlem", "sirt")[i % 2], pool=1 + i, delay=0)


FAMILIES = [Family("values", gen, run_values, 500, 6000), Family("threads", gen_threads, run_threads, 120, 1200, variant="tsan"), Family("failures", gen_fail, run_fail, 160, 1600),
            Family("workers", gen_workers, run_workers, 30, 240, variant="release"), Family("recorded", gen_recorded, run_recorded, 4, 8, variant="release")]
