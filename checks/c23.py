from vlib import *
tomopy = lazy("tomopy")
PR = lazy("tomopy.sim.project")
PG = lazy("tomopy.sim.propagate")
PH = lazy("tomopy.misc.phantom")
RULE = ("'noise': every generator on random stacks, types and parameters: the deviation from the input has the structure of the requested process (constant along projections for rings, exact saturation values and untouched rest for zingers and salt-and-pepper, the drift formula, counts with "
        "Poisson mean and variance, Gaussian mean, deviation and distribution, independence between pixels), a fixed seed reproduces it and another seed does not; 'angles','ellipsoids','images','wave': formulas in double precision over random sizes and parameters; non-trivial: a perturbed or generated array was compared")
ASSUMPTIONS = ["statistical monitors use bounds of six standard errors", "ellipsoid voxels within rounding of the surface are not judged"]
REQUIRED = ["monitor:" + k for k in ("gaussian", "poisson", "rings", "zingers", "saltpepper", "drift", "reproducible", "angles", "phantom", "shepp3d", "image", "image-native", "tie", "probe", "near", "far")]


def gen(rng, i):
    return dict(i=i)


def stack(rng, big=True):
    s = [int(rng.integers(20, 60)), int(rng.integers(20, 50)), int(rng.integers(20, 60))]
    if rng.random() < .3:
        s[int(rng.integers(3))] = int(rng.integers(64, 300))
    return tuple(s)


def run_noise(p, mon):
    rng = rng_for("c23n", p["seed"])
    s = stack(rng)
    n = int(np.prod(s))
    which = ["gaussian", "poisson", "rings", "zingers", "saltpepper", "drift"][p["i"] % 6]
    sd = int(rng.integers(1 << 30))
    dt = pick(rng, [np.float32, np.float64])
    a = array(rng, s, pick(rng, ["positive", "normal", "smooth", "counts"]), dt)
    kw = {}
    if which == "gaussian":
        f = tomopy.sim.project.add_gaussian
        if rng.random() < .8:
            kw["std"] = float(rng.uniform(.1, 5))
        if rng.random() < .7:
            kw["mean"] = float(rng.uniform(-3, 3))
    elif which == "poisson":
        a = (rng.random(s) * rng.uniform(2, 200)).astype(dt)
        f = tomopy.sim.project.add_poisson
    elif which == "rings":
        f = tomopy.sim.project.add_rings
        a[a == 0] = 1
        if rng.random() < .8:
            kw["std"] = float(rng.uniform(.01, .5))
    elif which == "zingers":
        f = tomopy.sim.project.add_zingers
        if rng.random() < .5:
            a = array(rng, s, "counts", pick(rng, [np.uint16, np.int32, np.uint8]))
        if rng.random() < .8:
            kw["f"] = float(pick(rng, [0., .01, .1, .5, 1.]))
        if rng.random() < .5:
            kw["sat"] = float(rng.uniform(100, 250)) if a.dtype.kind == "f" else int(rng.integers(100, 250))
    elif which == "saltpepper":
        f = tomopy.sim.project.add_salt_pepper
        if rng.random() < .5:
            a = array(rng, s, "counts", pick(rng, [np.uint16, np.int32]))
        if rng.random() < .8:
            kw["prob"] = float(pick(rng, [0., .01, .1, .5, 1.]))
        if rng.random() < .6:
            kw["val"] = float(rng.integers(0, 500))
    else:
        f = tomopy.sim.project.add_drift
        if rng.random() < .8:
            kw.update(amp=float(rng.uniform(0, 1)), period=float(rng.uniform(5, 90)), mean=float(rng.uniform(.5, 3)))
    np.random.seed(sd)
    o = f(a.copy(), **kw)
    np.random.seed(sd)
    o2 = f(a.copy(), **kw)
    mon.equal(o, o2, "reproducible", f"{which} {kw}")
    mon.ok(o.shape == a.shape, "noise-shape", f"{which} {o.shape} for {a.shape}")
    np.random.seed(sd + 1)
    o3 = f(a.copy(), **kw)
    A, O = a.astype(float), np.asarray(o).astype(float)
    tol = 2e-6 * (np.abs(A).max() + 10) if dt == np.float32 else 1e-9 * (np.abs(A).max() + 10)
    se = 6 / np.sqrt(n)
    if which == "gaussian":
        sdv, mu = kw.get("std", float(a.max()) * .05), kw.get("mean", 0)
        d = O - A
        z = (d - mu) / sdv
        from scipy import stats
        ks = stats.kstest(z.ravel(), "norm").statistic
        lag = [abs(float((z * np.roll(z, 1, ax)).mean())) for ax in range(3)]
        mon.ok(abs(d.mean() - mu) <= se * sdv + tol and abs(d.std() - sdv) <= se * sdv + tol and ks < 3 / np.sqrt(n) + 1e-5 * np.abs(A).max() / sdv and max(lag) < se, "gaussian",
               f"{kw} {a.dtype}: mean {d.mean():.5g} (want {mu}) std {d.std():.5g} (want {sdv}) ks {ks:.4g} correlations {lag}")
    elif which == "poisson":
        d = O - A
        mon.ok((O >= 0).all() and (O == np.rint(O)).all(), "poisson-counts", "not counts")
        m = A.mean()
        z = d / np.sqrt(np.maximum(A, 1e-9))
        big = A > 1
        v = (z[big] ** 2).mean()
        mon.ok(abs(d.mean()) <= 6 * np.sqrt(m / n) and abs(v - 1) < 6 * np.sqrt(3. / big.sum()), "poisson", f"mean deviation {d.mean():.4g}, variance/mean {v:.4g}")
        zz = np.where(big, z, 0)
        lag = [abs(float((zz * np.roll(zz, 1, ax)).mean())) for ax in range(3)]
        mon.ok(max(lag) < 12 / np.sqrt(n), "poisson-independent", f"correlations {lag} of neighbours {s}")
        mon.ok((O[A == 0] == 0).all(), "poisson-zero", "counts from nothing")
    elif which == "rings":
        r = O / A
        g = r.mean(0)
        mon.ok(np.abs(r - g).max() <= 1e-5 + (1e-4 if dt == np.float32 else 0) and abs(g.mean() - 1) <= 6 * kw.get("std", .05) / np.sqrt(g.size) + 1e-6 and abs(g.std() / kw.get("std", .05) - 1) < 6 / np.sqrt(2 * g.size),
               "rings", f"{kw}: varies along projections by {np.abs(r - g).max():.3g}, mean {g.mean():.5g} std {g.std():.5g}")
        mon.ok(min(np.ptp(g, 0).max(), np.ptp(g, 1).max()) > 0 and len(np.unique(np.round(g, 9))) > .9 * g.size, "rings-pixels", "pixels share a sensitivity")
    elif which in ("zingers", "saltpepper"):
        if which == "zingers":
            fr, val = kw.get("f", .01), kw.get("sat", 2 ** 16)
            if a.dtype.kind in "ui":
                val = min(val, np.iinfo(a.dtype).max)
        else:
            fr, val = kw.get("prob", .01), kw.get("val", a.max())
        val = float(np.asarray(val).astype(a.dtype))
        ch = O == val
        mon.ok((O[~ch] == A[~ch]).all(), which, f"{kw} {a.dtype}: other values than {val} appeared: {np.unique(O[O != A])[:4]}")
        own = (A == val)
        k, m = (ch & ~own).sum(), (~own).sum()
        mon.ok(abs(k - fr * m) <= 6 * np.sqrt(fr * (1 - fr) * m) + 1, which + "-fraction", f"{kw} {a.dtype}: {k} of {m} changed")
        for ax in range(3):          # every pixel is drawn for itself
            both = ~own & ~np.roll(own, 1, ax)
            k2, m2 = (ch & np.roll(ch, 1, ax) & both).sum(), both.sum()
            mon.ok(abs(k2 - fr ** 2 * m2) <= 9 * fr * np.sqrt(m2) + 3, which + "-independent", f"{kw} {a.dtype} {s}: {k2} of {m2} neighbours along axis {ax} both changed, {fr ** 2 * m2:.1f} expected")
        for ax in range(3):
            q = (ch & ~own).sum(tuple(x for x in range(3) if x != ax))
            mm = m / s[ax]
            mon.ok(np.abs(q - fr * mm).max() <= 7 * np.sqrt(fr * (1 - fr) * mm) + 3 + own.sum(), which + "-spread", f"{kw}: axis {ax} {q.tolist()}")
    else:
        x = np.arange(s[0])
        dr = kw.get("amp", .2) * np.sin(2 * np.pi * x / kw.get("period", 50)) + kw.get("mean", 1) + (x / (s[0] - 1.))
        mon.close(O, A * dr[:, None, None], "drift", f"{kw}", rtol=1e-5)
    if which != "drift" and not (kw.get("f") in (0., 1.) or kw.get("prob") in (0., 1.)):
        mon.ok(not np.array_equal(o, o3), "seed-matters", f"{which} the same for two seeds")
    mon.sig(which, s, sorted(kw.items()), str(a.dtype))


def run_angles(p, mon):
    rng = rng_for("c23a", p["seed"])
    n = int(pick(rng, [1, 2, 3, int(rng.integers(4, 2000))]))
    kw = {}
    if rng.random() < .7:
        kw["ang1"] = float(rng.uniform(-400, 400))
    if rng.random() < .7:
        kw["ang2"] = float(rng.uniform(-400, 400))
    a = tomopy.angles(n, **kw)
    lo, hi = np.radians(kw.get("ang1", 0)), np.radians(kw.get("ang2", 180))
    ref = lo + (hi - lo) * np.arange(n) / max(n - 1, 1)
    mon.close(a, ref, "angles", f"{n} {kw}", rtol=1e-12, atol=1e-12, scale=10)
    mon.sig("angles", n, kw)


def rot(ax, d):
    c, s = np.cos(np.radians(d)), np.sin(np.radians(d))
    return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]]) if ax == "z" else np.array([[1, 0, 0], [0, c, s], [0, -s, c]])


def ellipsoids(size, pars):
    g = np.meshgrid(*[np.linspace(-1, 1, k) if k > 1 else np.array([-1.]) for k in size], indexing="ij")
    x = np.stack([v.ravel() for v in g])
    out, amb = np.zeros(x.shape[1]), np.zeros(x.shape[1], bool)
    for q in pars:
        M = rot("z", q["psi"]) @ rot("x", q["theta"]) @ rot("z", q["phi"])     # Euler angles, z-x'-z''
        u = (M @ x - np.array([[q["x0"]], [q["y0"]], [q["z0"]]])) / np.array([[q["a"]], [q["b"]], [q["c"]]])
        r = (u * u).sum(0)
        out += q["A"] * (r <= 1)
        amb |= np.abs(r - 1) < 1e-6
    return out.reshape(size), amb.reshape(size)


SHEPP = [[1., .69, .92, .81, 0, 0, 0, 90, 90, 90], [-.8, .6624, .874, .78, 0, -.0184, 0, 90, 90, 90], [-.2, .11, .31, .22, .22, 0, 0, -108, 90, 100], [-.2, .16, .41, .28, -.22, 0, 0, 108, 90, 100],
         [.1, .21, .25, .41, 0, .35, -.15, 90, 90, 90], [.1, .046, .046, .05, 0, .1, .25, 90, 90, 90], [.1, .046, .046, .05, 0, -.1, .25, 90, 90, 90], [.1, .046, .023, .05, -.08, -.605, 0, 90, 90, 90],
         [.1, .023, .023, .02, 0, -.606, 0, 90, 90, 90], [.1, .023, .046, .02, .06, -.605, 0, 90, 90, 90]]
KEYS = ["A", "a", "b", "c", "x0", "y0", "z0", "phi", "theta", "psi"]


def run_ellipsoids(p, mon):
    rng = rng_for("c23e", p["seed"])
    size = tuple(int(v) for v in rng.integers(2, 34, 3))
    pars = [dict(A=float(rng.uniform(-2, 2)), a=float(rng.uniform(.1, 1)), b=float(rng.uniform(.1, 1)), c=float(rng.uniform(.1, 1)), x0=float(rng.uniform(-.6, .6)), y0=float(rng.uniform(-.6, .6)), z0=float(rng.uniform(-.6, .6)),
                 phi=float(rng.uniform(-180, 180)), theta=float(rng.uniform(-180, 180)), psi=float(rng.uniform(-180, 180))) for _ in range(int(rng.integers(1, 6)))]
    dt = pick(rng, ["float32", "float64"])
    kw = {} if rng.random() < .3 else dict(dtype=dt)
    o = tomopy.misc.phantom.phantom(size, [dict(q) for q in pars], **kw)
    ref, amb = ellipsoids(size, pars)
    mon.ok(o.shape == size and o.dtype == np.dtype(kw.get("dtype", "float32")), "phantom-type", f"{o.shape} {o.dtype}")
    mon.close(np.where(amb, 0, o), np.where(amb, 0, ref), "phantom", f"{size} {pars}", rtol=0, atol=1e-5)
    # the order of the ellipsoids does not matter
    o2 = tomopy.misc.phantom.phantom(size, [dict(q) for q in pars[::-1]], **kw)
    mon.close(o2, o, "phantom-order", "reversed list", rtol=0, atol=1e-5)
    k = int(rng.integers(2, 40))
    sz = k if rng.random() < .4 else tuple(int(v) for v in rng.integers(2, 34, 3))
    dt = pick(rng, ["float32", "float64", "float16"])
    kw = {} if rng.random() < .3 else dict(dtype=dt)
    o = tomopy.shepp3d(size=sz, **kw)
    shp = (k, k, k) if isinstance(sz, int) else sz
    ref, amb = ellipsoids(shp, [dict(zip(KEYS, r)) for r in SHEPP])
    dt = np.dtype(kw.get("dtype", "float32"))
    mon.ok(o.shape == shp and o.dtype == dt and o.min() >= 0 and o.max() <= 1.001, "shepp3d-type", f"{o.shape} {o.dtype} range {o.min()}..{o.max()} for {sz} {kw}")
    if dt.kind == "f":
        mon.close(np.where(amb, 0, o), np.where(amb, 0, np.maximum(ref, 0)), "shepp3d", f"{sz} {dt}", rtol=0, atol=3e-3 if dt == np.float16 else 1e-5)
    mon.sig("ellipsoid", size, shp, str(dt))


IMAGES = ["baboon", "barbara", "cameraman", "checkerboard", "lena", "peppers", "shepp2d"]


def run_images(p, mon):
    import tifffile
    import skimage.transform as T
    rng = rng_for("c23i", p["seed"])
    nm = IMAGES[p["i"] % len(IMAGES)]
    raw = tifffile.imread(os.path.join(os.environ["VERIF_REPO"], "source", "tomopy", "data", nm + ".tif"))
    sz = pick(rng, [None, int(rng.integers(2, 300)), tuple(int(v) for v in rng.integers(2, 300, 2))])
    dt = pick(rng, ["float32", "float64", "uint8", "uint16"])
    kw = {}
    if sz is not None:
        kw["size"] = sz
    if rng.random() < .6:
        kw["dtype"] = dt
    o = getattr(tomopy, nm)(**kw)
    shp = (512, 512) if sz is None else ((sz, sz) if isinstance(sz, int) else sz)
    mon.ok(o.shape == (1,) + shp and o.dtype == np.dtype(kw.get("dtype", "float32")) and o.min() >= min(0, raw.min()) and o.max() <= raw.max(), "image-type", f"{nm} {kw}: {o.shape} {o.dtype} {o.min()}..{o.max()} (file {raw.min()}..{raw.max()})")
    if shp == raw.shape:
        mon.close(o[0], raw, "image-native", nm, rtol=0, atol=1)
    ref = T.resize(raw, shp, order=3, preserve_range=True, mode="constant", anti_aliasing=False)
    mon.close(o[0], ref, "image", f"{nm} {kw}", rtol=1e-4, atol=1. if o.dtype.kind == "u" else 0)
    mon.sig(nm, shp, str(o.dtype))


def grad(a, ax, h):
    a = np.moveaxis(a, ax, 0)
    g = np.empty(a.shape)
    g[1:-1] = (a[2:] - a[:-2]) / (2 * h)
    g[0], g[-1] = (a[1] - a[0]) / h, (a[-1] - a[-2]) / h
    return np.moveaxis(g, 0, ax)


def run_wave(p, mon):
    rng = rng_for("c23w", p["seed"])
    s = int(rng.integers(1, 6)), int(rng.integers(2, 20)), int(rng.integers(2, 20))
    dt = pick(rng, [np.float32, np.float64])
    mu, de = rng.random(s).astype(dt), rng.normal(size=s).astype(dt)
    px, di = float(rng.uniform(.1, 3)), float(rng.uniform(0, 4))
    o = tomopy.propagate_tie(mu.copy(), de.copy(), px, di)
    i1, d = np.exp(-mu.astype(float)), de.astype(float)
    ref = i1 + di * (grad(i1 * grad(d, 1, px), 1, px) + grad(i1 * grad(d, 2, px), 2, px))
    mon.close(o, ref, "tie", f"{s} {px} {di}", rtol=1e-5)
    nx, ny = int(rng.integers(2, 40)), int(rng.integers(2, 40))
    kw = {}
    if rng.random() < .7:
        kw["fwhm"] = float(rng.uniform(1, 30))
    if rng.random() < .7:
        kw["center"] = [float(rng.uniform(0, nx)), float(rng.uniform(0, ny))]
    if rng.random() < .7:
        kw["max_int"] = float(rng.uniform(.1, 50))
    o = tomopy.probe_gauss(nx, ny, **kw)
    c = kw.get("center", [nx // 2, ny // 2])
    r2 = (np.arange(nx)[:, None] - c[0] + .5) ** 2 + (np.arange(ny)[None] - c[1] + .5) ** 2
    mon.close(o, kw.get("max_int", 1) * .5 ** (4 * r2 / kw.get("fwhm", max(nx, ny) // 2) ** 2), "probe", f"{nx}x{ny} {kw}", rtol=1e-9)
    # raster scan of the probe over the object
    sx, sy = int(rng.integers(2, 9)), int(rng.integers(2, 9))
    px_, py_ = sx + int(rng.integers(0, 20)), sy + int(rng.integers(0, 20))
    pr, ob = rng.random((sx, sy)) + (1j * rng.random((sx, sy)) if rng.random() < .5 else 0), rng.random((px_, py_)) + (1j * rng.random((px_, py_)) if rng.random() < .5 else 0)
    kw = {}
    if rng.random() < .6:
        kw["shift_x"] = int(rng.integers(1, 6))
    if rng.random() < .6:
        kw["shift_y"] = int(rng.integers(1, 6))
    hx, hy = kw.get("shift_x", sx // 2), kw.get("shift_y", sy // 2)
    psi = np.array([pr * ob[i:i + sx, j:j + sy] for i in range(0, px_ - sx + 1, hx) for j in range(0, py_ - sy + 1, hy)])
    mode = pick(rng, [None, "near", "far", "far"])
    o = tomopy.calc_intensity(pr.copy(), ob.copy(), **kw, **({} if mode is None else dict(mode=mode)))
    if mode == "far":
        k = [np.exp(-2j * np.pi * np.outer(np.arange(m) - m // 2, np.arange(m)) / m) for m in (sx, sy)]
        mon.close(o, np.abs(np.einsum("ab,nbc,dc->nad", k[0], psi, k[1])) ** 2, "far", f"probe {sx}x{sy} object {px_}x{py_} {kw}", rtol=1e-9)
    else:
        mon.close(o, np.abs(psi) ** 2, "near", f"probe {sx}x{sy} object {px_}x{py_} {kw}", rtol=1e-9)
    mon.sig("wave", s, nx, ny, sx, sy, px_, py_, mode)


FAMILIES = [Family("noise", gen, run_noise, 3000, 15000), Family("angles", gen, run_angles, 600, 3000), Family("ellipsoids", gen, run_ellipsoids, 1200, 6000), Family("images", gen, run_images, 840, 4200), Family("wave", gen, run_wave, 1500, 7500)]
