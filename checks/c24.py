from vlib import *
tomopy = lazy("tomopy")
RULE = ("'definition': random images (noise, smooth, rings, sectors, clipped values), sizes, off-axis centers, thresholds, ring widths, angular extents, both boundary modes, stacks and thread counts: the result against an independent implementation of the polar median / azimuthal mean "
        "definition; 'meaning': constant slices come back unchanged, pixels beyond the largest circle are untouched, corrections never exceed the threshold, concentric rings below the threshold shrink while rings above it and data without rings stay; non-trivial: some pixel was corrected")
ASSUMPTIONS = ["finite data, centers inside the image", "radial windows reaching past the outermost circle see zeros there, as in the reference implementation"]
REQUIRED = ["monitor:definition", "monitor:constant", "monitor:outside", "monitor:bounded", "monitor:ring-reduced", "monitor:over-threshold", "corrected-pixels"]
PI = 3.14159265359
f4 = np.float32


def rnd(x):
    return np.floor(np.asarray(x, np.float64) + .5).astype(int)


def geometry(cx, cy, nx, ny):
    cx, cy = f4(cx), f4(cy)
    R = min(int(cx + f4(1)), int(cy + f4(1)), int(f4(nx) - cx), int(f4(ny) - cy))
    return cx, cy, R, int(rnd(2 * PI * R))


def ref_slice(a, cx, cy, thresh, tmax, tmin, theta_min, rwidth, reflect):
    ny, nx = a.shape
    cx, cy, R, H = geometry(cx, cy, nx, ny)
    th = (np.arange(H) * 2.0 * PI / H).astype(f4).astype(float) + PI / H
    r = np.arange(R)
    x = rnd(((r[None] * np.cos(th)[:, None]).astype(f4) + cx).astype(f4))
    y = rnd(((r[None] * np.sin(th)[:, None]).astype(f4) + cy).astype(f4))
    P = np.clip(a[y, x].astype(float), f4(tmin), f4(tmax))
    mr = 2 * rwidth + 1
    ma = int(np.floor(f4(H) / 360.0 * theta_min))
    if reflect:
        ma = min(ma, H // 2 - 1)
    zones = [(0, R // 3, mr // 3, ma // 3), (R // 3, 2 * R // 3, 2 * mr // 3, 2 * ma // 3), (2 * R // 3, R, mr, ma)]
    h2 = H // 2
    opp = np.where(np.arange(H) < h2, np.arange(H) + h2, np.arange(H) - h2)
    ring = np.zeros((H, R))
    for lo, hi, k, _ in zones:
        for c in range(lo, hi):
            j = np.arange(c - k, c + k + 1)
            w = np.zeros((H, len(j)))
            ins = (j >= 0) & (j < R)
            w[:, ins] = P[:, j[ins]]
            neg = (j < 0) & (-j < R)
            w[:, neg] = P[opp][:, -j[neg]]
            ring[:, c] = np.sort(w, 1)[:, k]
    D = (P.astype(f4) - ring.astype(f4)).astype(float)
    D[np.abs(D) > f4(thresh)] = 0
    out = np.zeros((H, R))
    for lo, hi, _, k in zones:
        n = np.arange(-k, k + 1)
        for c in range(lo, hi):
            v = D[:, c]
            if not reflect:
                m = v[(np.arange(H)[:, None] + n[None]) % H].mean(1)
                first = [0]
            else:
                m = np.empty(H)
                for b, e in ((0, h2), (h2, H)):
                    q = np.arange(b, e)[:, None] + n[None]
                    q = np.where(q < b, 2 * b - q, q)
                    q = np.where(q >= e, 2 * e - q - 2, q)
                    m[b:e] = v[q].mean(1)
                first = [0, h2]
            keep = v != 0
            keep[first] = True
            out[:, c] = np.where(keep, m, 0)
    row, col = np.mgrid[:ny, :nx]
    t = np.arctan2((row - cy).astype(f4).astype(float), (col - cx).astype(f4).astype(float) - PI / H).astype(f4)
    t = np.where(t < 0, (t + 2.0 * PI).astype(f4), t)
    u = (t.astype(float) * H / (2.0 * PI)).astype(f4)
    d = np.sqrt(((row - cy).astype(f4) ** 2 + (col - cx).astype(f4) ** 2).astype(f4))
    pr, pc = rnd(u), rnd(d)
    ok = (pr < H) & (pc < R)
    amb = (np.abs(u - np.floor(u) - .5) < 2e-3) | (np.abs(d - np.floor(d) - .5) < 1e-4) | (np.abs(t) < 1e-5) | (t > 2 * PI - 1e-5)
    corr = np.where(ok, out[np.minimum(pr, H - 1), np.minimum(pc, R - 1)], 0)
    return a - corr, amb, ok


def gen(rng, i):
    return dict(i=i, dz=int(rng.integers(1, 5)), dy=int(rng.integers(12, 72)), dx=int(rng.integers(12, 72)), kind=pick(rng, ["normal", "smooth", "rings", "sectors", "sparse", "large", "positive"]))


def image(rng, dy, dx, cx, cy, kind):
    y, x = np.mgrid[:dy, :dx]
    r, t = np.hypot(x - cx, y - cy), np.arctan2(y - cy, x - cx)
    if kind in ("rings", "sectors"):
        a = rng.normal(size=(dy, dx)) * .3 + 5 * np.sin(x / 9.) + 5
        for _ in range(6):
            q, w, v = rng.random() * min(dx, dy) / 2, rng.uniform(.6, 2), rng.uniform(-30, 30)
            m = np.abs(r - q) < w
            if kind == "sectors":
                s = rng.uniform(-3, 3)
                m &= np.abs(t - s) < rng.uniform(.2, 1.5)
            a[m] += v
        return a
    return array(rng, (dy, dx), kind, np.float64) * float(pick(rng, [1., 10.]))


def args(rng, dx, dy):
    kw = {}
    if rng.random() < .7:
        kw["center_x"], kw["center_y"] = float(rng.uniform(.3, .7) * dx), float(rng.uniform(.3, .7) * dy)
        if rng.random() < .3:
            kw["center_x"] = float(int(kw["center_x"]))
    if rng.random() < .8:
        kw["thresh"] = float(pick(rng, [.5, 5., 50., 300.]))
    if rng.random() < .5:
        kw["thresh_max"], kw["thresh_min"] = float(rng.uniform(.5, 40)), float(rng.uniform(-40, .4))
    if rng.random() < .8:
        kw["theta_min"] = int(rng.integers(0, 180))
    if rng.random() < .85:
        kw["rwidth"] = int(rng.integers(0, 12))
    kw["int_mode"] = pick(rng, ["WRAP", "REFLECT", "wrap", "reflect"])
    return kw


def full(kw, dx, dy):
    return (kw.get("center_x", (dx - 1) / 2), kw.get("center_y", (dy - 1) / 2), kw.get("thresh", 300.), kw.get("thresh_max", 300.), kw.get("thresh_min", -100.), kw.get("theta_min", 30), kw.get("rwidth", 30), kw["int_mode"].lower() == "reflect")


def run_def(p, mon):
    rng = rng_for("c24d", p["seed"])
    dz, dy, dx = p["dz"], p["dy"], p["dx"]
    if p["i"] % 20 == 0:
        dz, dy, dx = 1, 170, 190
    kw = args(rng, dx, dy)
    F = full(kw, dx, dy)
    a = np.stack([image(rng, dy, dx, F[0], F[1], p["kind"]) for _ in range(dz)]).astype(f4)
    run = dict(ncore=int(rng.integers(1, 4)), nchunk=int(rng.integers(1, 3))) if rng.random() < .6 else {}
    out = tomopy.remove_ring(a.copy(), **kw, **run)
    mon.ok(out.shape == a.shape and out.dtype == f4, "shape", f"{out.shape} {out.dtype}")
    for s in range(dz):
        ref, amb, ins = ref_slice(a[s], *F)
        d = np.abs(out[s] - ref)
        ch = int((np.abs(ref - a[s]) > 1e-6).sum())
        mon.count("corrected-pixels", ch)
        tol = 1e-5 * max(np.abs(a[s]).max(), np.abs(ref).max()) + 1e-6
        bad = (d > tol) & ~amb
        mon.ok(bad.sum() <= .002 * d.size, "definition", lambda: f"slice {s} of {a.shape} {kw} {p['kind']}: {int(bad.sum())} of {d.size} pixels differ, up to {d[bad].max():.4g}, first at {np.argwhere(bad)[0].tolist()} got {out[s][bad][0]} expected {ref[bad][0]} input {a[s][bad][0]}")
        mon.equal(out[s][~ins & ~amb], a[s][~ins & ~amb], "outside", f"{kw}")
        mon.ok(np.abs(out[s] - a[s]).max() <= F[2] * (1 + 1e-5) + tol, "bounded", f"corrected by {np.abs(out[s] - a[s]).max()} with threshold {F[2]}")
    mon.sig("def", dz, dy, dx, p["kind"], sorted(kw))


def run_mean(p, mon):
    rng = rng_for("c24m", p["seed"])
    n = int(rng.integers(60, 140))
    cx, cy = n / 2 + rng.uniform(-4, 4), n / 2 + rng.uniform(-4, 4)
    rw = int(rng.integers(4, 8))
    y, x = np.mgrid[:n, :n]
    r = np.hypot(x - cx, y - cy)
    base = float(rng.uniform(20, 80))
    kw = dict(center_x=float(cx), center_y=float(cy), rwidth=rw, theta_min=int(rng.integers(10, 120)), int_mode=pick(rng, ["WRAP", "REFLECT"]))
    c = np.full((2, n, n), base, f4)
    mon.close(tomopy.remove_ring(c.copy(), **kw), c, "constant", f"{kw}", rtol=1e-6)
    # a thin complete ring well inside the field
    q, amp = float(rng.uniform(.25, .7) * n / 2), float(rng.uniform(3, 20) * rng.choice([-1, 1]))
    m = np.abs(r - q) < 1.
    a = c.copy()
    a[:, m] += amp
    o = tomopy.remove_ring(a.copy(), thresh=abs(amp) * 1.5, thresh_max=300., thresh_min=-100., **kw)
    left, was = np.abs(o - c)[:, r < q + 4].mean(), np.abs(a - c)[:, r < q + 4].mean()   # further out the windows may not fit the image
    mon.ok(left < .85 * was, "ring-reduced", f"ring of {amp} at radius {q:.1f}: mean error {was:.4g} only fell to {left:.4g} {kw}")
    o = tomopy.remove_ring(a.copy(), thresh=abs(amp) * .5, **kw)
    mon.close(o, a, "over-threshold", f"ring of {amp}, threshold {abs(amp) * .5}", rtol=1e-5)
    # data clipped to a narrow range before ring detection: a ring entirely above thresh_max is not one
    o = tomopy.remove_ring(a.copy(), thresh=abs(amp) * 1.5, thresh_max=base - abs(amp) - 1, thresh_min=0., **kw)
    mon.close(o, a, "out-of-range", f"thresh_max {base - abs(amp) - 1}", rtol=1e-5)
    mon.sig("mean", n, rw, round(q), kw["int_mode"])


FAMILIES = [Family("definition", gen, run_def, 4800, 24000), Family("meaning", gen, run_mean, 2400, 12000)]
