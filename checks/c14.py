from vlib import *
import itertools
tomopy = lazy("tomopy")
RULE = ("random stacks (1-20 per axis, floats with ties, integers, constants, outliers placed exactly at, just above and just below the "
        "threshold, NaN/inf/negative values) through every filter, all axes and sizes incl. even ones and windows larger than the image; "
        "'tomocuda': the filters for the tomocuda package run against a stand-in for it that computes window medians; every voxel is compared with an independent evaluation of the definition; non-trivial: the filter changed a voxel")
REQUIRED = ["monitor:median", "monitor:median3d", "monitor:outlier", "monitor:outlier1d", "monitor:outlier3d", "monitor:gaussian", "monitor:sobel",
            "monitor:nonfinite", "monitor:nonfinite-raise", "monitor:repair", "monitor:circ-mask", "monitor:range", "monitor:enhance", "monitor:median-cuda", "monitor:outlier-cuda"]


def dims(rng, big=14):
    return [int(pick(rng, [1, 2, 3, 5, int(rng.integers(4, big)), int(rng.integers(4, big))])) for _ in range(3)]


def gen(rng, i):
    return dict(sh=dims(rng), kind=pick(rng, ["normal", "ints", "counts", "constant", "smooth", "large"]), axis=int(rng.integers(3)), neg=bool(rng.random() < .15),
                size=int(pick(rng, [1, 2, 3, 3, 4, 5, 7, 11])), ncore=int(pick(rng, [1, 2, 3, 8, 30])), dt=pick(rng, ["float32", "float32", "float64", "uint16", "int32"]),
                dif=float(pick(rng, [0.5, 1.0, 2.0, 3.0, 10.0])), out=pick(rng, ["none", "none", "given", "same"]), dflt=bool(rng.random() < .3))


def data(p, rng, tag=""):
    sh = tuple(p["sh"])
    k = p["kind"]
    if k == "ints":
        a = rng.integers(0, 6, sh).astype(np.float64)
    else:
        a = array(rng, sh, k, np.float64)
    # outliers of both signs at exactly known distances
    m = rng.random(sh) < .12
    a = np.where(m, np.rint(a) + rng.choice([-1, 1, -1, 1, 1], sh) * rng.choice([p["dif"], p["dif"] * 2, 50, 1000], sh), a)
    dt = p["dt"]
    if dt in ("uint16", "int32"):
        a = np.rint(a) if k in ("ints", "counts", "large") else np.rint(a * 20)
        if dt == "uint16":
            a = np.clip(a, 0, 65535)
    return np.ascontiguousarray(a.astype(dt))


def windows(a, size, mode):
    """all neighbourhoods with scipy's window placement [i - size//2, i - size//2 + size)"""
    pad = [(s // 2, s - 1 - s // 2) for s in size]
    b = a
    for ax, (l, r) in enumerate(pad):       # one axis at a time; repeated reflection for windows beyond the image
        n = a.shape[ax]
        idx = np.arange(-l, n + r)
        if mode == "symmetric":
            idx = idx % (2 * n)
            idx = np.where(idx >= n, 2 * n - 1 - idx, idx)
        else:
            if n == 1:
                idx = idx * 0
            else:
                idx = idx % (2 * n - 2)
                idx = np.where(idx >= n, 2 * n - 2 - idx, idx)
        b = np.take(b, idx, axis=ax)
    w = np.lib.stride_tricks.sliding_window_view(b, tuple(size))
    return w.reshape(a.shape + (-1,))


def medref(a, size, mode="symmetric"):
    w = np.sort(windows(a, size, mode), axis=-1)
    return w[..., w.shape[-1] // 2]


def axis_arg(p):
    return p["axis"] - 3 if p["neg"] else p["axis"]


def run_median(p, mon):
    rng = rng_for("c14m", p["seed"])
    a = data(p, rng)
    kw = dict(ncore=p["ncore"])
    ax, size = p["axis"], p["size"]
    if p["dflt"]:
        ax, size = 0, 3
    else:
        kw.update(axis=axis_arg(p), size=size)
    f = tomopy.median_filter
    if rng.random() < .1:
        f = tomopy.median_filter_cuda
        kw.pop("ncore")
    r = f(a, **kw)
    sz = [size] * 3
    sz[ax] = 1
    ref = medref(a.astype(np.float32), sz)
    mon.equal(r, ref, "median", f"size {size} axis {ax}")
    if not np.array_equal(ref, a):
        mon.sig("m", a.shape, size, ax, p["kind"], p["dt"])


def run_median3d(p, mon):
    rng = rng_for("c14d", p["seed"])
    a = data(p, rng)
    size = int(pick(rng, [3, 3, 5, 7]))
    x = a if a.dtype in (np.uint16, np.float32) else a.astype(np.float32)
    h = (size - 1) // 2
    n = x.shape
    cols = []
    I = np.indices(n)
    for off in itertools.product(range(-h, h + 1), repeat=3):
        ix = []
        for d in range(3):
            j = I[d] + off[d]
            ix.append(np.where((j < 0) | (j >= n[d]), I[d], j))    # outside: own coordinate
        cols.append(x[tuple(ix)])
    w = np.sort(np.stack(cols, -1), -1)
    med = w[..., w.shape[-1] // 2]
    kw = dict(ncore=p["ncore"])
    if not (size == 3 and p["dflt"]):
        kw["size"] = size
    r = tomopy.median_filter3d(a, **kw)
    mon.ok(r.dtype == x.dtype, "dtype3d", lambda: f"{r.dtype} for {a.dtype}")
    mon.equal(r, med, "median3d", f"size {size}")
    dif = p["dif"]
    r = tomopy.remove_outlier3d(a, dif, **kw)
    dv = np.abs(x.astype(np.float64) - med.astype(np.float64))
    ref = np.where(dv >= dif, med, x)
    amb = (np.abs(dv - dif) < 1e-6 * (np.abs(x) + np.abs(med) + dif)) & (dv != dif)
    mon.equal(np.where(amb, 0, r), np.where(amb, 0, ref), "outlier3d", f"size {size} dif {dif}")
    mon.ok(r.dtype == x.dtype, "dtype3d", lambda: f"{r.dtype} for {a.dtype}")
    mon.count("outliers3d", (dv >= dif).sum())
    mon.sig("3", a.shape, size, p["kind"], p["dt"], dif)


def run_outlier(p, mon):
    rng = rng_for("c14o", p["seed"])
    a = data(p, rng)
    ax, size, dif = p["axis"], p["size"], p["dif"]
    kw = dict(ncore=p["ncore"])
    if p["dflt"]:
        ax, size = 0, 3
    else:
        kw.update(axis=axis_arg(p), size=size)
    x = a.astype(np.float32)
    for one in (False, True):
        b = a.copy()
        out = None
        if p["out"] == "given":
            out = np.full(a.shape, 3.25, np.float32)
        elif p["out"] == "same" and a.dtype == np.float32:
            out = b
        sz = [1] * 3 if one else [size] * 3
        sz[ax] = size if one else 1
        k2 = dict(kw)
        f = tomopy.remove_outlier1d if one else tomopy.remove_outlier
        if not one and out is None and rng.random() < .1:
            f = tomopy.remove_outlier_cuda
            k2.pop("ncore")
        else:
            k2["out"] = out
        r = f(b, dif, **k2)
        if out is not None:
            mon.ok(r is out, "out-buffer", "result not in the output buffer")
        med = medref(a, sz, "reflect" if one else "symmetric").astype(np.float32)
        dv = x.astype(np.float64) - med
        ref = np.where(dv >= dif, med, x)
        amb = (np.abs(dv - dif) < 1e-6 * (np.abs(x) + np.abs(med) + dif)) & (dv != dif)
        mon.equal(np.where(amb, 0, r), np.where(amb, 0, ref), "outlier1d" if one else "outlier", f"size {size} axis {ax} dif {dif} ncore {p['ncore']}")
        mon.count("outliers2d", (dv >= dif).sum())
        mon.count("exactly_at_threshold", (dv == dif).sum())
        if (dv >= dif).any():
            mon.sig("o", one, a.shape, size, ax, p["kind"], p["dt"], p["out"])


def run_linear(p, mon):
    import scipy.ndimage as ni
    rng = rng_for("c14g", p["seed"])
    a = data(p, rng)
    x = a.astype(np.float32).astype(np.float64)
    ax = p["axis"]
    sig = pick(rng, [0.5, 1, 2.2, 3, [0.7, 2.0], [3.0, 0.5]])
    order = pick(rng, [0, 0, 0, 1, 2, [0, 1], [1, 0]])
    kw = dict(ncore=p["ncore"])
    if p["dflt"]:
        ax, sig, order = 0, 3, 0
    else:
        kw.update(axis=axis_arg(p), sigma=sig, order=order)
    r = tomopy.gaussian_filter(a, **kw)
    y = np.moveaxis(x, ax, 0)
    ref = np.empty_like(y)
    for i in range(len(y)):
        if order == 0:
            z = y[i]
            for d, s in enumerate(np.broadcast_to(sig, 2)):
                rad = int(4 * s + .5)
                k = np.exp(-.5 * (np.arange(-rad, rad + 1) / s) ** 2)
                k /= k.sum()
                szs = [1, 1]
                szs[d] = 2 * rad + 1
                z = (windows(z, szs, "symmetric") * k).sum(-1)
            ref[i] = z
        else:
            ref[i] = ni.gaussian_filter(y[i], sig, order=order)
    ref = np.moveaxis(ref, 0, ax)
    mon.close(r, ref, "gaussian", f"sigma {sig} order {order} axis {ax}", rtol=0, atol=2e-6 * np.abs(x).max() + 1e-12)
    kw = {} if p["dflt"] else dict(axis=axis_arg(p))
    r = tomopy.sobel_filter(a, ncore=p["ncore"], **kw)
    for i in range(len(y)):
        w = windows(y[i], (3, 3), "symmetric").reshape(y[i].shape + (3, 3))
        ref_i = (w * (np.array([[1], [2], [1]]) * np.array([[-1, 0, 1]]))).sum((-1, -2))
        np.moveaxis(ref, ax, 0)[i] = ref_i
    mon.close(r, ref, "sobel", f"axis {ax}", rtol=0, atol=3e-6 * np.abs(x).max() + 1e-12)
    mon.sig("g", a.shape, ax, p["kind"], str(sig), str(order))


def run_repair(p, mon):
    rng = rng_for("c14r", p["seed"])
    p = dict(p, dt=pick(rng, ["float32", "float32", "float64"]))
    a = data(p, rng)
    a[rng.random(a.shape) < .15] = np.nan
    a[rng.random(a.shape) < .05] = np.inf
    a[rng.random(a.shape) < .05] = -np.inf
    a[rng.random(a.shape) < .05] = -0.0
    a = np.where(rng.random(a.shape) < .3, -a, a).astype(p["dt"])
    x = a.astype(np.float32)
    v = float(pick(rng, [0, 1.5, -3, 1e6]))
    kw = {} if v == 0 and p["dflt"] else dict(val=v)
    r = tomopy.remove_nan(a.copy(), ncore=p["ncore"], **kw)
    mon.equal(r, np.where(np.isnan(x), np.float32(v), x), "repair", "remove_nan")
    r = tomopy.remove_neg(a.copy(), ncore=p["ncore"], **kw)
    mon.equal(r, np.where(x < 0, np.float32(v), x), "repair", "remove_neg")
    # non-finite median
    size = int(pick(rng, [3, 3, 5, 7]))
    ref, bad = x.copy(), False
    h = size // 2
    for t, i, j in np.argwhere(~np.isfinite(x)):
        w = x[t, max(0, i - h):i + h + 1, max(0, j - h):j + h + 1]
        w = w[np.isfinite(w)]
        if w.size == 0:
            bad = True
        else:
            ref[t, i, j] = np.float32(np.median(w.astype(np.float64)))
    calls = []
    kw = {} if size == 3 and p["dflt"] else dict(size=size)
    if rng.random() < .5:
        kw["callback"] = lambda *c: calls.append(c)
    try:
        r = tomopy.median_filter_nonfinite(x.copy(), **kw)
        mon.ok(not bad, "nonfinite-raise", "a window without finite values did not raise")
        if not bad:
            fin = np.isfinite(x)
            mon.equal(r[fin], x[fin], "nonfinite", "finite pixel changed")
            mon.close(r, ref, "nonfinite", f"size {size}", rtol=0, atol=3e-7 * np.abs(ref))
            if "callback" in kw:
                mon.ok(len(calls) == len(x) and all(c[0] == len(x) for c in calls), "callback", lambda: f"{len(calls)} calls for {len(x)} projections")
    except ValueError:
        mon.ok(bad, "nonfinite-raise", "raised although every window holds finite values")
    # circular mask
    b = data(p, rng)
    ratio = float(pick(rng, [1, 1, .5, .8, .95, 1.2]))
    kw = {} if ratio == 1 and p["dflt"] else dict(ratio=ratio)
    if v:
        kw["val"] = v
    r = tomopy.circ_mask(b.copy(), axis_arg(p), ncore=p["ncore"], **kw)
    y = np.moveaxis(b.astype(np.float32), p["axis"], 0)
    n1, n2 = y.shape[1:]
    d = (np.arange(n1)[:, None] - (n1 - 1) / 2) ** 2 + (np.arange(n2)[None] - (n2 - 1) / 2) ** 2
    lim = (ratio * min(n1, n2) / 2) ** 2
    amb = (np.abs(d - lim) < 1e-9) & (ratio != 1)
    ref = np.where(d < lim, y, np.float32(v))
    mon.equal(np.where(amb, 0, np.moveaxis(np.asarray(r), p["axis"], 0)), np.where(amb, 0, ref), "circ-mask", f"ratio {ratio} axis {p['axis']}")
    # range
    lo, hi = sorted(rng.normal(size=2) * 2)
    lo, hi = np.float32(lo), np.float32(hi)
    mode = int(rng.integers(4))
    kw = {}
    ref = b.copy()
    if mode & 1:
        kw["dmin"] = lo
        ref = np.maximum(ref, ref.dtype.type(lo))
    if mode & 2:
        kw["dmax"] = hi
        ref = np.minimum(ref, ref.dtype.type(hi))
    if b.min() <= hi and lo <= b.max():      # otherwise the requested range is inverted
        mon.equal(tomopy.adjust_range(b.copy(), **kw), ref, "range", str(kw))
    mon.sig("r", b.shape, mode, ratio, size, v)


def gen_enh(rng, i):
    return dict(sh=[int(rng.integers(1, 5)), int(rng.integers(1, 20)), int(rng.integers(1, 20))], ks=int(pick(rng, [1, 3, 5, 7])), dt=pick(rng, ["float32", "float64", "uint8"]),
                ncore=int(pick(rng, [1, 2])), dflt=bool(rng.integers(2)))


def run_enh(p, mon):
    rng = rng_for("c14e", p["seed"])
    a = rng.integers(1, 40, p["sh"]).astype(p["dt"])
    if p["dt"] != "uint8":
        a = (a + rng.random(p["sh"]) * (rng.random() < .5)).astype(p["dt"])
    ks = 5 if p["dflt"] else p["ks"]
    r = tomopy.enhance_projs_aps_1id(a, ncore=p["ncore"], **({} if p["dflt"] else dict(median_ks=ks)))
    mon.ok(r.shape == a.shape, "enhance-shape", str(r.shape))
    for i in range(len(a)):
        x = a[i].astype(np.float64)
        w = (np.sum(a[i].ravel()[None] < a[i].reshape(-1, 1), 1).reshape(x.shape) + 1) / x.size
        h = ks // 2
        z = np.pad(x, h)
        s = np.sort(np.lib.stride_tricks.sliding_window_view(z, (ks, ks)).reshape(x.shape + (-1,)), -1)
        m = s[..., ks * ks // 2]
        e = m * m * w
        if e.max() == 0:
            continue
        mon.close(r[i], e / e.max(), "enhance", f"ks {ks}", rtol=1e-6)
    mon.sig(p["sh"], ks, p["dt"])


class MFilter:
    """stand-in for tomocuda's filter: medians of the windows of a padded image"""
    log = []

    def __init__(self, nx, ny, nz, size):
        self.n, self.size = (nx, ny), size
        MFilter.log.append([(nx, ny, nz, size), 0])

    def setCuImage(self, im):
        assert im.dtype == np.float32 and im.shape == ((self.n[1] + self.size - 1) * (self.n[0] + self.size - 1),)
        self.im = im.copy().reshape(self.n[1] + self.size - 1, -1)

    def run(self, size):
        assert size == self.size
        MFilter.log[-1][1] += 1
        w = np.sort(np.lib.stride_tricks.sliding_window_view(self.im, (size, size)).reshape(self.n[1], self.n[0], -1), -1)
        return w[..., w.shape[-1] // 2]

    def run2DFilter(self, size):
        self.r = self.run(size)

    def run2DRemoveOutliner(self, size, dif):
        m = self.run(size)
        l = size // 2
        c = self.im[l:l + self.n[1], l:l + self.n[0]]
        self.r = np.where(c - m >= np.float32(dif), m, c)

    def retreive(self):
        return self.r.ravel().copy()


def gen_cuda(rng, i):
    p = gen(rng, i)
    p.update(size=int(pick(rng, [1, 2, 3, 3, 4, 5, 7, 15, 16, 17])), given=bool(rng.random() < .8))
    if p["size"] > 15:      # scipy's own filter needs images of half the window for these
        p["sh"] = [int(v) for v in rng.integers(8, 20, 3)]
    return p


def run_cuda(p, mon):
    """the variants that hand the projections to tomocuda give what the plain filters give"""
    import sys, types, warnings
    rng = rng_for("c14c", p["seed"])
    a = data(p, rng)
    size, ax, dif = p["size"], p["axis"], p["dif"]
    kw = dict(axis=axis_arg(p), size=size)
    if not p["given"]:
        size, ax, kw = 3, 0, {}
    x = a.astype(np.float32)
    sz = [size] * 3
    sz[ax] = 1
    med = medref(x, sz)
    old = sys.modules.get("tomocuda")
    sys.modules["tomocuda"] = m = types.ModuleType("tomocuda")
    m.mFilter = MFilter
    MFilter.log.clear()
    b = a.copy()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = tomopy.median_filter_cuda(b, **kw)
            n = [list(v) for v in MFilter.log]
            MFilter.log.clear()
            o = tomopy.remove_outlier_cuda(b, dif, **kw)
    finally:
        if old is None:
            del sys.modules["tomocuda"]
        else:
            sys.modules["tomocuda"] = old
    mon.equal(b, a, "cuda-argument", "the input changed")
    mon.equal(r, med, "median-cuda", f"size {size} axis {ax}")
    if 2 <= size <= 15:
        mon.ok(sum(v[1] for v in n) == a.shape[ax] == sum(v[1] for v in MFilter.log), "cuda-frames", f"{n} {MFilter.log} frames run for {a.shape} axis {ax}")
    dv = x.astype(np.float64) - med
    amb = (np.abs(dv - dif) < 1e-6 * (np.abs(x) + np.abs(med) + dif)) & (dv != dif)
    mon.equal(np.where(amb, 0, o), np.where(amb, 0, np.where(dv >= dif, med, x)), "outlier-cuda", f"size {size} axis {ax} dif {dif}")
    mon.sig("c", a.shape, size, ax, p["kind"], p["dt"])


FAMILIES = [Family("median", gen, run_median, 2625, 13125), Family("median3d", gen, run_median3d, 2100, 10500), Family("outlier", gen, run_outlier, 3150, 15750),
            Family("linear", gen, run_linear, 2100, 10500), Family("repair", gen, run_repair, 2625, 13125), Family("enhance", gen_enh, run_enh, 105, 525), Family("tomocuda", gen_cuda, run_cuda, 400, 4000)]
