from vlib import *
import catalog
tomopy = lazy("tomopy")
RULE = ("'pc','vo','entropy': analytic (pixel-integrated) projections of 6-14 random discs or Gaussians with a known, sub-pixel rotation center, offset to either side, varying widths, angles, search ranges, tolerances, initial guesses; the median error over "
        "several objects of a case is bounded; 'vo' also recomputes the published metric over the coarse and fine grid and accepts only its minimiser (or a near tie); 'slices': the answer for a slice of a stack equals the answer for that slice alone, in "
        "both data orders, whatever the other slices hold; 'sweep': the files written by write_center, their names and pixels against individual reconstructions; 'empty': empty-slice masks against the definition; non-trivial: a center was returned or a file compared")
ASSUMPTIONS = ["objects rich enough to determine the center (random discs/Gaussians inside the field of view)", "search ranges keep at least a third of the sinogram overlapping", "center names have two decimals, ranges with steps of at least 0.01 are used"]
REQUIRED = ["monitor:pc-truth", "monitor:vo-truth", "monitor:vo-minimiser", "monitor:entropy-truth", "monitor:slice-alone", "monitor:sweep-files", "monitor:sweep-image", "monitor:empty"]


def sino(rng, nt, nx, c, kind, closed, rows=1, R=None):
    """(nt, rows, nx) projections over half a turn of random objects about column c"""
    th = np.linspace(0, np.pi, nt, endpoint=closed)
    x = np.arange(nx)
    out = np.zeros((nt, rows, nx))
    R = .9 * min(c, nx - 1 - c) if R is None else R
    for s in range(rows):
        for _ in range(int(rng.integers(6, 15))):
            w = max(1.5, rng.uniform(.04, .15) * R)
            r, ph, a = min(np.sqrt(rng.random()) * R, R - 2 * w), rng.random() * 2 * np.pi, rng.uniform(.3, 1)
            u = x[None] - (c + r * np.cos(th - ph))[:, None]
            if kind == "disc":
                def F(v):
                    q = np.clip(v / w, -1, 1)
                    return w * w * (q * np.sqrt(1 - q * q) + np.arcsin(q))
                out[:, s] += a * (F(u + .5) - F(u - .5))
            else:
                out[:, s] += a * w * np.exp(-(u / w) ** 2)
    return out.astype(np.float32), th.astype(np.float32)


def gen(rng, i):
    return dict(nx=int(rng.integers(64, 150)), nt=int(rng.integers(60, 181)), off=float(rng.uniform(-8, 8)), kind=pick(rng, ["disc", "gauss"]), closed=bool(rng.integers(2)))


def run_pc(p, mon):
    rng = rng_for("c19p", p["seed"])
    tol = pick(rng, [None, .5, .25, .1])
    nx, c = p["nx"], (p["nx"] - 1) / 2 + p["off"]
    err = []
    for k in range(5):
        ny = int(rng.integers(24, 50))
        a = sino(rng, 2, nx, c, "gauss", True, ny)[0]
        a1, a2 = np.ascontiguousarray(a[0]), np.ascontiguousarray(a[1])
        kw = {} if tol is None else dict(tol=tol)
        if rng.random() < .6:
            kw["rotc_guess"] = float(c + rng.uniform(-3, 3))
        err.append(float(tomopy.find_center_pc(a1, a2, **kw)) - c)
    e = float(np.median(np.abs(err)))
    mon.ok(e <= (tol or .5) / 2 + .12 and abs(np.median(err)) <= (tol or .5) / 2 + .12, "pc-truth", f"width {nx} center {c:.3f} tol {tol}: errors {np.round(err, 3).tolist()}")
    mon.sig("pc", nx, round(c, 2), tol)


# ---- Vo's metric, from the paper --------------------------------------------------
def vo_mask(nrow, ncol, radius, drop):
    du, dv = 1. / ncol, (nrow - 1.) / (nrow * 2 * np.pi)
    cr, cc = int(np.ceil(nrow / 2.)) - 1, int(np.ceil(ncol / 2.)) - 1
    drop = min(drop, int(np.ceil(.05 * nrow)))
    m = np.zeros((nrow, ncol))
    for i in range(nrow):
        w = int(np.ceil((i - cr) * dv / radius / du))
        lo, hi = sorted((cc - w, cc + w))
        m[i, max(lo, 0):min(hi, ncol - 1) + 1] = 1
    m[cr - drop:cr + drop + 1] = 0
    m[:, cc - 1:cc + 2] = 0
    return m


def vo_metric(s, cen, mask):
    from scipy import ndimage
    n = s.shape[1]
    sh = 2 * (cen - (n - 1) / 2.)
    flip = s[:, ::-1]
    comp = s[::-1]
    if sh == int(sh):
        b = np.roll(flip, int(sh), 1)
    else:
        b = ndimage.shift(flip, (0, sh), order=3, prefilter=True)
    k = int(np.ceil(abs(sh)))
    b = np.array(b)
    if k:
        if sh > 0:
            b[:, :k] = comp[:, :k]
        else:
            b[:, n - k:] = comp[:, n - k:]
    return float((np.abs(np.fft.fftshift(np.fft.fft2(np.vstack([s, b])))) * mask).mean())


def run_vo(p, mon):
    from scipy import ndimage
    rng = rng_for("c19v", p["seed"])
    nx = max(p["nx"], 90)
    lim = nx // 6
    step, srad = pick(rng, [(.25, 6), (.5, 4), (.1, 3), (.2, 5)])
    err = []
    for k in range(3):
        off = float(rng.uniform(-lim * .6, lim * .6))
        c = (nx - 1) / 2 + off
        smin, smax = sorted(int(round(x)) for x in (off - rng.uniform(4, lim * .6), off + rng.uniform(4, lim * .6)))
        rows = int(pick(rng, [1, 2, 3, 14]))
        ind = pick(rng, [None, 0, rows - 1])
        nt = p["nt"]
        if rows == 14:
            one, _ = sino(rng, nt, nx, c, p["kind"], p["closed"], 1)
            t = one * rng.uniform(.5, 1.5, rows).astype(np.float32)[None, :, None]
            if ind is None:      # only the rows that are averaged carry the object's center
                t[:, [0, 1, 12, 13]] = rng.random((nt, 4, nx))
        else:
            t, _ = sino(rng, nt, nx, c, p["kind"], p["closed"], rows)
        kw = dict(smin=smin, smax=smax, srad=srad, step=step, ncore=int(pick(rng, [1, 2, 3])), ratio=pick(rng, [.5, .5, .8]), drop=pick(rng, [20, 20, 4]))
        two = rows == 1 and rng.random() < .5
        if ind is not None:
            kw["ind"] = ind
        r = float(tomopy.find_center_vo(t[:, 0] if two else t, **kw))
        i = rows // 2 if ind is None else ind
        if two:
            i = 0
        s = t[:, i - 5:i + 5].mean(1) if rows > 10 and ind is None else t[:, i]
        err.append(r - c)
        # reference search
        n = s.shape[1]
        mask = vo_mask(2 * nt, n, .5 * kw["ratio"] * n, kw["drop"])
        sc, sf = ndimage.gaussian_filter(s, (3, 1), mode="reflect"), ndimage.gaussian_filter(s, (2, 2), mode="reflect")
        cf = (n - 1) / 2.
        lo, hi = int(np.clip(smin + cf, 0, n - 1) - cf), int(np.clip(smax + cf, 0, n - 1) - cf)
        grid = np.arange(n // 2 + lo, n // 2 + hi + .5, .5)
        m = np.array([vo_metric(sc, g, mask) for g in grid])
        good = False
        msg = ""
        for g in grid[m <= m.min() * (1 + 1e-4)]:
            sr = np.clip(srad, 1., n / 4.)
            g = np.clip(g, sr, n - sr - 1)
            fg = g + np.arange(-sr, sr + step, step)
            f = np.array([vo_metric(sf, x, mask) for x in fg])
            ok = fg[f <= f.min() * (1 + 3e-4)]
            msg += f" coarse {g} fine {ok.tolist()}"
            good |= bool((np.abs(ok - r) < 1e-3).any())
        mon.ok(good, "vo-minimiser", lambda: f"returned {r}, minimiser of the metric:{msg}; {kw} shape {t.shape}")
        mon.sig("vo", nx, nt, smin, smax, step, rows, ind)
    mon.ok(min(abs(e) for e in err) <= step / 2 + .8, "vo-truth", f"errors {err} width {nx} angles {p['nt']} {p['kind']}")


def run_big(p, mon):
    """data beyond four million elements, for which the coarse search works on binned columns"""
    rng = rng_for("c19b", p["seed"])
    nt, nx = pick(rng, [(1000, 4100), (1500, 2700), (2100, 1950), (2700, 1500)])
    off = float(rng.uniform(-30, 30))
    c = (nx - 1) / 2 + off
    t, _ = sino(rng, nt, nx, c, p["kind"], p["closed"], 1)
    r = float(tomopy.find_center_vo(t, smin=int(off) - 36, smax=int(off) + 36, srad=8, step=1, ncore=8))
    mon.ok(abs(r - c) <= 2.5, "vo-big", f"{t.shape}: found {r}, center {c}")
    mon.sig("big", nt, nx, round(off))


def run_many(p, mon):
    """more projections than a short integer counts"""
    rng = rng_for("c19m", p["seed"])
    nt, nx = int(rng.integers(33000, 52000)), 96
    off = float(rng.uniform(-5, 5))
    c = (nx - 1) / 2 + off
    t, _ = sino(rng, nt, nx, c, p["kind"], p["closed"], 1)
    r = float(tomopy.find_center_vo(t, smin=int(off) - 6, smax=int(off) + 6, srad=2, step=.5, ncore=8))
    mon.ok(abs(r - c) <= 1.5, "vo-many", f"{t.shape}: found {r}, center {c}")
    mon.sig("many", nt, nx, round(off))


def run_entropy(p, mon):
    rng = rng_for("c19e", p["seed"])
    nx, nt = min(p["nx"], 110), max(p["nt"], 80)
    tol = pick(rng, [.5, .2, .1])
    err = []
    for k in range(3):
        off = p["off"] if rng.random() < .8 else 0.
        c = (nx - 1) / 2 + off
        R = .9 * min(c, nx - 1 - c)
        t, th = sino(rng, nt, nx, c, p["kind"], False, 1)
        kw = dict(tol=tol, init=float(c + rng.uniform(-3, 3)))
        if rng.random() < .3:
            kw["mask"] = False
        elif rng.random() < .3:
            kw["ratio"] = float(pick(rng, [.8, .95]))
        if rng.random() < .5:
            t, kw["sinogram_order"] = np.ascontiguousarray(t.swapaxes(0, 1)), True
        r = tomopy.find_center(t, th, **kw)
        err.append(float(np.ravel(r)[0]) - c)
    mon.ok(np.median(np.abs(err)) <= tol / 2 + .5, "entropy-truth", f"errors {np.round(err, 3).tolist()} tol {tol} width {nx} angles {nt} center offset {p['off']:.2f}")
    mon.sig("entropy", nx, nt, round(p["off"], 1), tol)


def run_slices(p, mon):
    rng = rng_for("c19s", p["seed"])
    nx, nt, rows = int(rng.integers(32, 60)), int(rng.integers(30, 60)), int(rng.integers(2, 6))
    c = (nx - 1) / 2 + rng.uniform(-3, 3)
    t, th = sino(rng, nt, nx, c, p["kind"], False, rows)
    ind = pick(rng, [None] + list(range(rows)))
    k = rows // 2 if ind is None else ind
    ia = {} if ind is None else dict(ind=ind)
    kw = dict(tol=float(pick(rng, [.5, .3])))
    if rng.random() < .5:
        kw["init"] = float(c + rng.uniform(-2, 2))
    if rng.random() < .5:
        kw["mask"] = False
    else:
        kw["ratio"] = float(pick(rng, [1., .7, .9]))
    a = np.ravel(tomopy.find_center(t.copy(), th, **ia, **kw))[0]
    b = np.ravel(tomopy.find_center(np.ascontiguousarray(t[:, k:k + 1]), th, **kw))[0]
    mon.equal(a, b, "slice-alone", f"find_center slice {k} of {rows} alone {kw}")
    b = np.ravel(tomopy.find_center(np.ascontiguousarray(t.swapaxes(0, 1)), th, sinogram_order=True, **ia, **kw))[0]
    mon.equal(a, b, "data-order", f"find_center in sinogram order {kw}")
    u = rng.random(t.shape).astype(np.float32)
    u[:, k] = t[:, k]
    b = np.ravel(tomopy.find_center(u, th, **ia, **kw))[0]
    mon.equal(a, b, "other-slices", f"find_center, other slices replaced {kw}")
    # the answer is at least as good as the starting point by the image entropy
    def cost(x):
        rec = tomopy.recon(t[:, k:k + 1], th, center=np.float32(x), algorithm="gridrec", ncore=1)
        if kw.get("mask", True):
            rec = tomopy.circ_mask(rec, 0, ratio=kw.get("ratio", 1.))
        return rec
    r0 = cost(nx / 2)
    lo, hi = float(r0.min()), float(r0.max())
    lo, hi = (2 * lo if lo < 0 else lo / 2), (hi / 2 if hi < 0 else 2 * hi)

    def ent(x):
        rec = cost(x)
        h = np.histogram(rec, bins=64, range=[lo, hi])[0] / rec.size + 1e-12
        return -float((h * np.log2(h)).sum())
    i0 = kw.get("init", nx // 2)
    mon.ok(ent(a) <= ent(i0) + 1e-2, "not-worse-than-start", lambda: f"entropy {ent(a)} at {a}, {ent(i0)} at the initial guess {i0}; {kw}")
    mon.sig("slices", nx, nt, rows, ind, sorted(kw))


def run_sweep(p, mon):
    import tifffile, tempfile, shutil
    rng = rng_for("c19w", p["seed"])
    nx, nt, rows = int(rng.integers(8, 30)), int(rng.integers(5, 20)), int(rng.integers(1, 5))
    t = array(rng, (nt, rows, nx), pick(rng, ["positive", "smooth"]))
    th = np.sort(rng.uniform(0, np.pi, nt)).astype(np.float32)
    order = bool(rng.integers(2))
    alg = pick(rng, ["gridrec", "gridrec", "gridrec", "fbp", "sirt", "art", "mlem", "grad", "tv", "bart"])
    ind = pick(rng, [None] + list(range(rows)))
    kw = {}
    rg = None
    if rng.random() < .7:
        step = float(pick(rng, [.5, 1, .25, .1, .3]))
        lo = float(np.round(nx / 2 + rng.uniform(-3, 3), 1))
        rg = [lo, lo + step * int(rng.integers(1, 7)), step]
        kw["cen_range"] = rg
    if ind is not None:
        kw["ind"] = ind
    if rng.random() < .5:
        kw["mask"] = True
        if rng.random() < .7:
            kw["ratio"] = float(pick(rng, [.5, .8]))
    if order:
        kw["sinogram_order"] = True
    if alg != "gridrec" or rng.random() < .5:
        kw["algorithm"] = alg
    f = "parzen"
    if rng.random() < .5:
        f = kw["filter_name"] = pick(rng, ["none", "shepp", "cosine", "ramlak", "parzen"])
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    try:
        path = os.path.join(d, pick(rng, ["c", "a/b/c", "x.y"]))
        if rng.random() < .3:      # an existing folder keeps its other files, old images are replaced
            os.makedirs(path)
            open(os.path.join(path, "other.txt"), "w").write("x")
        tomopy.write_center(np.ascontiguousarray(t.swapaxes(0, 1)) if order else t.copy(), th, dpath=path, **kw)
        cen = np.arange(*rg) if rg else np.arange(nx / 2 - 5, nx / 2 + 5, .5)
        names = {"%.2f.tiff" % c: c for c in cen}
        got = set(os.listdir(path)) - {"other.txt"}
        mon.ok(got == set(names), "sweep-files", lambda: f"range {rg}: missing {sorted(set(names) - got)[:5]}, unexpected {sorted(got - set(names))[:5]}")
        k = rows // 2 if ind is None else ind
        pars = dict(filter_name=f) if alg in ("gridrec", "fbp") else {}
        for nm, c in names.items():
            if nm not in got:
                continue
            im = tifffile.imread(os.path.join(path, nm))
            ref = tomopy.recon(np.ascontiguousarray(t[:, k:k + 1].swapaxes(0, 1)), th, center=float(c), sinogram_order=True, algorithm=alg, ncore=1, **pars)
            if kw.get("mask"):
                ref = tomopy.circ_mask(ref, 0, ratio=kw.get("ratio", 1.))
            mon.ok(im.dtype == np.float32, "sweep-dtype", f"{im.dtype}")
            mon.equal(im, ref[0], "sweep-image", f"image {nm} {kw}")
        mon.sig("sweep", alg, len(cen), sorted(kw), order)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_empty(p, mon):
    rng = rng_for("c19m", p["seed"])
    nt, ny, nx = int(rng.integers(2, 8)), int(rng.integers(2, 12)), int(rng.integers(8, 20))
    t = rng.random((nt, ny, nx)) * .01 + 1
    for y in range(ny):
        if rng.random() < .6:
            t[:, y, nx // 4:nx // 2] += rng.uniform(.05, 3)
    dt = pick(rng, ["float32", "float64", "uint16"])
    t = (t * (1000 if dt == "uint16" else 1)).astype(dt)
    kw = {} if rng.random() < .3 else dict(threshold=float(pick(rng, [.1, .25, .6])))
    m = tomopy.mask_empty_slice(t.copy(), **kw)
    s = t.astype(np.float64).sum(0)
    s /= s.max()
    q = s.sum(0)
    q /= q.max()
    ref = q.std() * kw.get("threshold", .25)
    sd = s.std(1)
    amb = np.abs(sd - ref) < 1e-4 * (ref + sd.max())
    mon.ok(np.shape(m) == (ny,) and (np.asarray(m)[~amb] == (sd < ref)[~amb]).all(), "empty", lambda: f"{np.asarray(m).tolist()} expected {(sd < ref).tolist()} {dt} {kw}")
    mon.sig("empty", nt, ny, nx, dt)


FAMILIES = [Family("big", gen, run_big, 1, 16, timeout=300), Family("many", gen, run_many, 0, 4, timeout=300), Family("pc", gen, run_pc, 120, 1000), Family("vo", gen, run_vo, 84, 500), Family("entropy", gen, run_entropy, 84, 600), Family("slices", gen, run_slices, 120, 900),
            Family("sweep", gen, run_sweep, 160, 1500), Family("empty", gen, run_empty, 200, 1500)]
