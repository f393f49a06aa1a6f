from vlib import *
import itertools
import time
tomopy = lazy("tomopy")
RULE = ("random arrays (2D and 3D, 1-14 per axis, positive and mixed sign data) with random, blocky, border and full masks, all inpainting "
        "types, window sizes, iteration counts, axes and worker counts; random and stripe-like volumes through stripe detection and masking with "
        "parameters over their admissible range; every voxel is compared with an independent evaluation; non-trivial: a masked voxel was filled / "
        "the mask has both values")
REQUIRED = ["monitor:unmasked", "monitor:filled-mean", "monitor:filled-median", "monitor:filled-random", "monitor:random-rule", "monitor:range", "monitor:empty-mask",
            "monitor:weights", "monitor:weights-range", "monitor:stripe-mask"]
ASSUMPTIONS = ["stripe detection keeps the rank just below the middle of its vertical window, as the code has done since its publication",
               "extra inpainting iterations: one pass or as many as requested are both accepted"]


def gen(rng, i):
    nd = int(pick(rng, [2, 3, 3, 3]))
    sh = [int(pick(rng, [1, 2, 3, int(rng.integers(4, 13)), int(rng.integers(4, 13))])) for _ in range(nd)]
    return dict(sh=sh, axis=None if nd == 2 else pick(rng, [None, None, 0, 1, 2]), type=["mean", "median", "random"][i % 3], size=int(pick(rng, [1, 1, 2, 3, 5])),
                it=int(pick(rng, [0, 0, 1, 2, 4])), mask=pick(rng, ["random", "sparse", "block", "dense", "border", "empty", "single"]), ncore=int(pick(rng, [1, 1, 2, 4, 9])),
                kind=pick(rng, ["positive", "normal", "counts"]), garbage=bool(rng.integers(2)), dflt=bool(rng.random() < .2))


def mask_of(p, rng):
    sh = tuple(p["sh"])
    m = np.zeros(sh, bool)
    k = p["mask"]
    if k == "random":
        m = rng.random(sh) < .3
    elif k == "sparse":
        m = rng.random(sh) < .05
    elif k == "dense":
        m = rng.random(sh) < .93
    elif k == "block":
        s = tuple(slice(a, a + int(rng.integers(1, max(2, n)))) for n, a in ((n, int(rng.integers(0, n))) for n in sh))
        m[s] = True
    elif k == "border":
        m[..., :max(1, sh[-1] // 3)] = True
    elif k == "single":
        m[tuple(int(rng.integers(n)) for n in sh)] = True
    return m


def offs(nd, h):
    # collection order: x outermost, then y, then z; array axes are (z, y, x)
    for o in itertools.product(range(-h, h + 1), repeat=nd):
        yield o[::-1]


def fill(x, m, typ, size, iters, variant="full"):
    """x: 2D or 3D float64 with zeros where masked."""
    nd, sh = x.ndim, x.shape
    out = x.copy()
    upd = out.copy()
    todo = m.copy()
    full = (2 * size + 1) ** nd

    def one(pos):
        vals, w = [], []
        near = False
        for o in offs(nd, size):
            q = tuple(a + b for a, b in zip(pos, o))
            if all(0 <= c < n for c, n in zip(q, sh)) and out[q] != 0:
                vals.append(out[q])
                w.append(np.exp(-sum(c * c for c in o) / (2 * full)))
        for o in offs(nd, 1):
            q = tuple(a + b for a, b in zip(pos, o))
            if all(0 <= c < n for c, n in zip(q, sh)) and out[q] != 0:
                near = True
                break
        if not near or not vals:
            return
        if typ == "mean":
            upd[pos] = np.dot(vals, w) / np.sum(w)
        else:
            if variant == "full":
                v = sorted(vals)
            else:
                v = sorted(vals[:-1]) + vals[-1:]
            upd[pos] = v[len(v) // 2]
        todo[pos] = False

    for _ in range(int(m.sum())):
        for pos in map(tuple, np.argwhere(todo)):
            one(pos)
        out[...] = upd
        if not todo.any():
            break
    for _ in range(iters):
        todo[...] = m
        for pos in map(tuple, np.argwhere(todo)):
            one(pos)
        out[...] = upd
    return out


def run_hopeless(p, mon):
    """regions nothing can be filled from: the call ends at once and leaves them zero"""
    rng = rng_for("c15h", p["seed"])
    sh = (int(rng.integers(8, 15)), int(rng.integers(30, 60)), int(rng.integers(60, 100)))
    x = array(rng, sh, "positive")
    m = np.ones(sh, bool)
    if rng.integers(2):      # isolated by zeros
        x[:] = 0
        m = rng.random(sh) < .5
    axis = pick(rng, [None, None, 0])
    typ = pick(rng, ["mean", "median", "random"])
    t0 = time.time()
    r = tomopy.inpainter_morph(x.copy(), m, size=int(pick(rng, [1, 2])), iterations=int(pick(rng, [0, 1])), inpainting_type=typ, axis=axis, ncore=int(pick(rng, [1, 2])))
    mon.ok((r[m] == 0).all() and np.array_equal(r[~m], x[~m]), "hopeless", f"{sh} {typ} axis={axis}")
    mon.count("seconds_hopeless", int(time.time() - t0))
    mon.sig("hopeless", sh, typ, axis)


def reachable(x, m):
    return (~m & (x != 0)).any()


def run_inpaint(p, mon):
    rng = rng_for("c15", p["seed"])
    sh = tuple(p["sh"])
    x = array(rng, sh, p["kind"])
    x[x == 0] = 1
    m = mask_of(p, rng)
    src = x.copy()
    if p["garbage"] and m.any():
        src[m] = rng.choice(np.array([np.nan, np.inf, 1e30, -7, 0], np.float32), int(m.sum()))
    size, it, typ = p["size"], p["it"], p["type"]
    kw = dict(ncore=p["ncore"], axis=p["axis"])
    if p["dflt"]:
        size, it, typ = 5, 2, "random"
    else:
        kw.update(size=size, iterations=it, inpainting_type=typ)
    r = tomopy.inpainter_morph(src.copy(), m, **kw)
    mon.ok(r.dtype == np.float32 and r.shape == sh, "shape", lambda: f"{r.dtype} {r.shape}")
    mon.equal(r[~m], src[~m], "unmasked", f"{typ} axis={p['axis']}")
    if not m.any():
        mon.equal(r, src, "empty-mask", typ)
        return
    z = np.where(m, 0, x).astype(np.float64)
    parts = [(r, z, m)] if p["axis"] is None else [(np.take(r, i, p["axis"]), np.take(z, i, p["axis"]), np.take(m, i, p["axis"])) for i in range(sh[p["axis"]])]
    for rr, zz, mm in parts:
        if rr.ndim == 3 and rr.shape[0] == 1:
            rr, zz, mm = rr[0], zz[0], mm[0]
        if not mm.any():
            mon.equal(rr, zz, "unmasked", "slice without mask")
            continue
        if not reachable(zz, mm):
            continue
        if p["kind"] == "normal" and typ != "mean":
            # a vicinity of values that cancel exactly counts as empty; not a practical case, excluded
            pass
        known = zz[~mm]
        lo, hi = known.min(), known.max()
        eps = 1e-5 * max(abs(lo), abs(hi))
        mon.ok((rr[mm] >= lo - eps).all() and (rr[mm] <= hi + eps).all(), "range", lambda: f"{typ}: filled {rr[mm].min()}..{rr[mm].max()} outside {lo}..{hi}")
        mon.count("voxels_filled", mm.sum())
        if typ == "random":
            mon.count("monitor:filled-random")
            if it == 0:
                random_rule(rr, zz, mm, size, mon)
            continue
        if mm.size * (2 * size + 1) ** mm.ndim > 250000:
            continue
        ok = False
        for n in sorted({min(it, 1), it}):
            ref = fill(zz, mm, typ, size, n)
            if np.all(np.abs(rr - ref) <= eps * (1 if typ == "mean" else .01)):
                ok = True
                break
        mon.count("monitor:filled-" + typ)
        if not ok and typ == "median" and rr.ndim == 2:
            alt = [fill(zz, mm, typ, size, n, "lastout") for n in sorted({min(it, 1), it})]
            if any(np.all(np.abs(rr - a) <= eps * .01) for a in alt):
                mon.fail("median2d-last-neighbour", "2D median inpainting leaves the last collected neighbour out of the sort")
                continue
        if not ok:
            d = np.abs(rr - ref)
            i = tuple(int(c) for c in np.unravel_index(int(np.argmax(d)), d.shape))
            mon.fail("filled-" + typ, f"{typ} size {size} it {it} shape {rr.shape}: at {i} got {rr[i]!r} expected {ref[i]!r}")
    mon.sig(sh, p["axis"], typ, size, it, p["mask"])


def random_rule(rr, zz, mm, size, mon):
    """isolated masked voxels: mean of the 3x3 neighbours and half the sum of two values of the window"""
    nd = rr.ndim
    for pos in map(tuple, np.argwhere(mm)[:40]):
        big = tuple(slice(max(0, a - size - 1), a + size + 2) for a in pos)
        if mm[big].sum() != 1:
            continue
        win = tuple(slice(max(0, a - size), a + size + 1) for a in pos)
        nea = tuple(slice(max(0, a - 1), a + 2) for a in pos)
        w = zz[win][~mm[win]]
        s = zz[nea][~mm[nea]]
        if not len(s) or (w == 0).any():
            continue
        v = float(rr[pos]) * (len(s) + 1) - s.sum()
        cand = (w[:, None] + w[None]).ravel() / 2
        mon.ok(np.min(np.abs(cand - v)) <= 3e-6 * (np.abs(s).sum() + np.abs(w).max() * 2), "random-rule", lambda: f"{pos}: {v} is not the mean of two neighbours")


def gen_big(rng, i):
    return dict(n=int(rng.integers(30, 60)), size=int(pick(rng, [1, 2])), nd=int(pick(rng, [2, 3])))


def run_random_spread(p, mon):
    rng = rng_for("c15s", p["seed"])
    sh = (p["n"],) * 2 if p["nd"] == 2 else (20, 20, 20)
    x = array(rng, sh, "positive")
    m = np.zeros(sh, bool)
    st = 2 * p["size"] + 3
    m[tuple(slice(p["size"] + 1, None, st) for _ in sh)] = True
    r = tomopy.inpainter_morph(x, m, size=p["size"], iterations=0, inpainting_type="random", ncore=1)
    mon.equal(r[~m], x[~m], "unmasked", "random")
    vals = []
    z = np.where(m, 0, x).astype(np.float64)
    random_rule(r, z, m, p["size"], mon)
    for pos in map(tuple, np.argwhere(m)):
        nea = tuple(slice(max(0, a - 1), a + 2) for a in pos)
        win = tuple(slice(max(0, a - p["size"]), a + p["size"] + 1) for a in pos)
        s = z[nea][~m[nea]]
        v = float(r[pos]) * (len(s) + 1) - s.sum()
        w = np.sort(z[win][~m[win]])
        vals.append((v - w.min()) / (w.max() - w.min()))
    if len(vals) >= 20:
        mon.ok(np.std(vals) > .05, "random-spread", lambda: f"the {len(vals)} random picks do not vary: std {np.std(vals)}")
    mon.sig(sh, p["size"])


def nb(n, off):
    i = np.arange(n)
    j = i + off
    j = np.where((j < 0) | (j >= n), i - off, j)
    return np.where((j < 0) | (j >= n), 0 if off < 0 else n - 1, j)


def gen_det(rng, i):
    sh = [int(rng.integers(2, 30)), int(rng.integers(1, 12)), int(rng.integers(1, 24))]
    return dict(sh=sh, size=int(rng.integers(1, max(2, sh[0] // 2 + 1))), radius=int(rng.integers(1, 4)), ncore=int(pick(rng, [1, 2, 5])),
                kind=pick(rng, ["normal", "uniform", "smooth", "constant", "ints", "stripes"]))


def vol(p, rng):
    sh = tuple(p["sh"])
    if p["kind"] == "ints":
        return rng.integers(0, 4, sh).astype(np.float32)
    if p["kind"] == "stripes":
        x = array(rng, sh, "smooth")
        for _ in range(3):
            x[:, int(rng.integers(sh[1])), int(rng.integers(sh[2]))] += rng.normal()
        return x
    return array(rng, sh, p["kind"])


def run_detect(p, mon):
    rng = rng_for("c15d", p["seed"])
    x = vol(p, rng)
    R = p["radius"]
    r = tomopy.stripes_detect3d(x, size=p["size"], radius=R, ncore=p["ncore"])
    nz, ny, nx = x.shape
    g = np.abs((x[:, :, nb(nx, 2)] - x).astype(np.float64))
    plate = sum(g[nb(nz, a)][:, nb(ny, b)] for a in range(-R, R + 1) for b in range(-R, R + 1)) / (2 * R + 1) ** 2
    h1 = sum(g[:, nb(ny, b)][:, :, nb(nx, c)] for b in (-1, 0, 1) for c in range(1, R + 1)) / (3 * R)
    h2 = sum(g[:, nb(ny, b)][:, :, nb(nx, -c)] for b in (-1, 0, 1) for c in range(1, R + 1)) / (3 * R)
    f = lambda a, b: np.where(np.maximum(a, b) > 0, np.minimum(a, b) / np.where(np.maximum(a, b) > 0, np.maximum(a, b), 1), 0)
    ratio = np.minimum(f(plate, h1), f(plate, h2))
    w = np.sort(np.stack([ratio[nb(nz, k)] for k in range(-p["size"], p["size"] + 1)], -1), -1)
    ref = w[..., p["size"] - 1]
    mon.ok(r.dtype == np.float32 and r.shape == x.shape, "shape", "")
    mon.ok(np.isfinite(r).all() and (r >= 0).all() and (r <= 1).all(), "weights-range", lambda: f"{r.min()}..{r.max()}")
    mon.close(r, ref, "weights", f"size {p['size']} radius {R} {p['kind']}", rtol=0, atol=2e-5)
    if ref.std() > 0:
        mon.sig(p["sh"], p["size"], R, p["kind"])


def gen_mask(rng, i):
    sh = [int(rng.integers(2, 30)), int(rng.integers(1, 12)), int(rng.integers(2, 24))]
    return dict(sh=sh, L=int(rng.integers(1, sh[0])), D=int(rng.integers(0, sh[1])), W=int(rng.integers(1, min(sh[2], 9))), S=float(pick(rng, [1, 20, 50, 85, 85, 99.5, 100])),
                T=float(pick(rng, [0.2, 0.5, 0.6, 0.8])), ncore=int(pick(rng, [1, 2, 5])), kind=pick(rng, ["uniform", "quant", "cols", "cols"]))


def maskref(mask, L, D, W, tv, td):
    nz, ny, nx = mask.shape
    m = mask
    if D:
        c = sum(m[:, nb(ny, b)].astype(int) for b in range(-(D // 2), D // 2 + 1))
        m = m & ~(c > td)
    h = L // 2
    c = sum(m[nb(nz, a)].astype(int) for a in range(-h, h + 1))
    m = m & ~(c < tv)
    c = sum(m[nb(nz, a)].astype(int) for a in range(-h, h + 1))
    m = m & ~(c < h)
    for _ in range(W):
        any_ = lambda ax, rg: np.any([np.take(m, nb(m.shape[ax], o), axis=ax) for o in rg], axis=0)
        hor = any_(2, range(-(W // 2), 1)) & any_(2, range(0, W // 2 + 1))
        ver = any_(0, range(-2 * W, 1)) & any_(0, range(0, 2 * W + 1))
        m = m | hor | ver
    return m


def run_mask(p, mon):
    rng = rng_for("c15m", p["seed"])
    w = rng.random(p["sh"]).astype(np.float32)
    if p["kind"] == "quant":
        w = (np.rint(w * 5) / 5).astype(np.float32)
    elif p["kind"] == "cols":
        w = .7 + .3 * w
        for _ in range(int(rng.integers(1, 6))):
            a = int(rng.integers(0, p["sh"][0]))
            w[a:a + int(rng.integers(1, p["sh"][0] + 1)), int(rng.integers(p["sh"][1])):, :][:, :int(rng.integers(1, 4)), int(rng.integers(p["sh"][2]))] = rng.random() * .5
    w = w.astype(np.float32)
    r = tomopy.stripes_mask3d(w, threshold=p["T"], min_stripe_length=p["L"], min_stripe_depth=p["D"], min_stripe_width=p["W"], sensitivity_perc=p["S"], ncore=p["ncore"])
    mon.ok(r.dtype == bool and r.shape == w.shape, "shape", "")
    m0 = w <= np.float32(p["T"])
    cand = lambda n: sorted({int(np.floor(p["S"] * n / 100 + e)) for e in (-1e-4, 0, 1e-4)} | {0} - {0}) if n else [0]
    good = False
    for tv in cand(p["L"]):
        for td in cand(p["D"]):
            ref = maskref(m0, p["L"], p["D"], p["W"], max(tv, 0), max(td, 0))
            if np.array_equal(ref, r):
                good = True
    mon.ok(good, "stripe-mask", lambda: f"{int((ref != r).sum())} voxels differ, first {np.argwhere(ref != r)[0].tolist()}")
    if r.any() and not r.all():
        mon.sig(p["sh"], p["L"], p["D"], p["W"], p["S"], p["T"])
    mon.count("masked_voxels", r.sum())


FAMILIES = [Family("inpaint", gen, run_inpaint, 1260, 6300), Family("hopeless", gen_big, run_hopeless, 8, 60, timeout=60), Family("random_spread", gen_big, run_random_spread, 18, 90),
            Family("detect", gen_det, run_detect, 750, 4000), Family("stripe_mask", gen_mask, run_mask, 1200, 6000)]
