from vlib import *
tomopy = lazy("tomopy")
AL = lazy("tomopy.prep.alignment")
RULE = ("'shift','jitter': images translated by integer shifts compared exactly with index moves (zeros move in), smooth analytic images with sub-pixel shifts against the analytically shifted image in the interior, opposite shifts cancel, stacks equal single images, the drawn "
        "jitter lies in the requested interval and is the one applied; 'scale','blur': definition; 'distortion': bilinear sampling at the polynomial map in double precision, sinogram equals the row of the corrected stack, identity coefficients, coefficient files; "
        "'slits': synthetic slit boxes located within the stated precision by each method, clip box and removal; 'drift': frames of a slit box moved and slightly turned, adjusted against the reference frame; 'align': jittered projections of random blobs, recovered shifts compared with those put in (up to the shifts equivalent to moving the object); non-trivial: a non-zero transformation was compared")
ASSUMPTIONS = ["sub-pixel shifts judged on band-limited images away from the border", "slit corners lie at least 12 pixels inside their quadrant with clear contrast"]
REQUIRED = ["monitor:shift-int", "monitor:shift-sub", "monitor:shift-cancel", "monitor:jitter", "monitor:scale", "monitor:blur", "monitor:dist-proj", "monitor:dist-sino", "monitor:dist-identity", "monitor:coefs", "monitor:slits",
            "monitor:slitbox", "monitor:drift", "monitor:drift-corners", "monitor:align-residual", "monitor:align-applied"]


def shape(rng, i):
    return dict(nt=int(rng.integers(1, 6)), ny=int(rng.integers(9, 40)), nx=int(rng.integers(9, 40)))


def smooth(rng, ny, nx):
    """function of (row, col) with wavelengths of at least 8 pixels"""
    par = [(rng.uniform(-.75, .75), rng.uniform(-.75, .75), rng.uniform(0, 6.3), rng.uniform(.3, 1)) for _ in range(4)]
    off = rng.uniform(-1, 3)
    return lambda r, c: off + sum(a * np.sin(u * r + v * c + w) for u, v, w, a in par)


def run_shift(p, mon):
    rng = rng_for("c20s", p["seed"])
    nt, ny, nx = p["nt"], p["ny"], p["nx"]
    # whole pixels: out(r, c) = in(r + sx, c + sy)
    a = array(rng, (nt, ny, nx), pick(rng, ["normal", "positive", "counts", "sparse", "large", "zero"]), pick(rng, [np.float32, np.float64]))
    sx, sy = rng.integers(-ny // 2, ny // 2, nt), rng.integers(-nx // 2, nx // 2, nt)
    if rng.random() < .2:
        sx[:] = 0
        sy[:] = 0
    out = tomopy.shift_images(a.copy(), sx.astype(float) if rng.random() < .5 else sx, sy.tolist() if rng.random() < .5 else sy)
    pad = np.pad(a.astype(float), ((0, 0), (ny, ny), (nx, nx)))
    ref = np.stack([pad[m, ny + sx[m]:2 * ny + sx[m], nx + sy[m]:2 * nx + sy[m]] for m in range(nt)])
    ins = np.pad(np.ones(a.shape, bool), ((0, 0), (ny, ny), (nx, nx)))
    ins = np.stack([ins[m, ny + sx[m]:2 * ny + sx[m], nx + sy[m]:2 * nx + sy[m]] for m in range(nt)])
    lo = np.clip(0, a.min((1, 2), keepdims=True), a.max((1, 2), keepdims=True)) * np.ones(a.shape)
    ref = np.where(~ins & (np.abs(out - lo) < np.abs(out)), lo, ref)       # what moves in is zero, or zero clipped to the range of the image
    mon.close(out, ref, "shift-int", f"sx {sx.tolist()} sy {sy.tolist()}", rtol=2e-4, scale=float(np.abs(a).max()))
    # sub-pixel
    fs = [smooth(rng, ny, nx) for _ in range(nt)]
    ny2, nx2 = ny + 20, nx + 20
    r, c = np.mgrid[:ny2, :nx2].astype(float)
    b = np.stack([f(r, c) for f in fs]).astype(np.float32)
    sx, sy = rng.uniform(-4, 4, nt), rng.uniform(-4, 4, nt)
    out = tomopy.shift_images(b.copy(), sx, sy)
    ref = np.stack([f(r + u, c + v) for f, u, v in zip(fs, sx, sy)])
    cl = np.clip(ref, b.min((1, 2), keepdims=True), b.max((1, 2), keepdims=True))
    ref = np.where(np.abs(out - cl) < np.abs(out - ref), cl, ref)     # clipped to the range of the pixels or not
    q = (slice(None), slice(10, -10), slice(10, -10))
    mon.close(out[q], ref[q], "shift-sub", f"sx {sx.tolist()} sy {sy.tolist()}", rtol=4e-3, scale=float(np.abs(b).max()))
    back = tomopy.shift_images(out, -sx, -sy)
    if ny2 > 30 and nx2 > 30:
        q = (slice(None), slice(14, -14), slice(14, -14))
        mon.close(back[q], b[q], "shift-cancel", frac=.02, msg=f"sx {sx.tolist()} sy {sy.tolist()}", rtol=3e-2, scale=float(np.abs(b).max()))
    m = int(rng.integers(nt))
    mon.close(tomopy.shift_images(b[m:m + 1].copy(), sx[m:m + 1], sy[m:m + 1])[0], out[m], "shift-alone", "image shifted alone", rtol=1e-4, scale=float(np.abs(b).max()))
    mon.sig("shift", nt, ny, nx)


def run_jitter(p, mon):
    rng = rng_for("c20j", p["seed"])
    nt, ny, nx = p["nt"], p["ny"], p["nx"]
    a = array(rng, (nt, ny, nx), pick(rng, ["normal", "positive", "large", "zero"]), np.float32)
    lo = float(rng.uniform(-5, 3))
    hi = lo + float(rng.uniform(.1, 4))
    kw = dict(low=lo, high=hi)
    if rng.random() < .2:
        kw, lo, hi = {}, 0., 1.
    out, jx, jy = tomopy.prep.alignment.add_jitter(a.copy(), **kw)
    mon.ok(np.shape(jx) == (nt,) and np.shape(jy) == (nt,) and min(np.min(jx), np.min(jy)) >= lo and max(np.max(jx), np.max(jy)) < hi, "jitter-range", f"{jx} {jy} outside [{lo},{hi})")
    if nt > 1:
        mon.ok(len(np.unique(jx)) == nt and len(np.unique(jy)) == nt and not np.array_equal(jx, jy), "jitter-distinct", f"{jx} {jy}")
    # nearest pixel of in(row + jy, col + jx), zero outside
    r, c = np.mgrid[:ny, :nx].astype(float)
    for m in range(nt):
        rr, cc = r + jy[m], c + jx[m]
        amb = (np.abs(rr - np.floor(rr) - .5) < 1e-4) | (np.abs(cc - np.floor(cc) - .5) < 1e-4)
        ri, ci = np.rint(rr).astype(int), np.rint(cc).astype(int)
        ins = (ri >= 0) & (ri < ny) & (ci >= 0) & (ci < nx)
        ref = np.where(ins, a[m][np.clip(ri, 0, ny - 1), np.clip(ci, 0, nx - 1)], 0)
        # pixels whose sample lies between the last pixel and the border may be either
        amb |= (rr < 0) & (rr > -1) | (rr > ny - 1) & (rr < ny) | (cc < 0) & (cc > -1) | (cc > nx - 1) & (cc < nx)
        mon.close(np.where(amb, 0, out[m]), np.where(amb, 0, ref), "jitter", f"image {m} jitter {jx[m]} {jy[m]}", rtol=1e-5, scale=float(np.abs(a).max()))
    mon.sig("jitter", nt, ny, nx)


def run_scale(p, mon):
    rng = rng_for("c20c", p["seed"])
    dt = pick(rng, ["float32", "float64", "uint16", "int16"])
    a = array(rng, (p["nt"], p["ny"], p["nx"]), pick(rng, ["normal", "positive", "zero", "counts", "large", "tiny"]), dt)
    if rng.random() < .3 and dt != "uint16":
        a = -np.abs(a)
    o, s = tomopy.scale(a.copy())
    m = float(np.abs(a.astype(float)).max()) or 1.
    mon.ok(abs(float(s) - m) <= 1e-6 * m, "scale-factor", f"{s} expected {m}")
    mon.close(o, a / m, "scale", f"{dt}", rtol=2e-6, scale=1.)
    # edge blurring
    b = array(rng, (p["nt"], p["ny"], p["nx"]), "normal", pick(rng, [np.float32, np.float64]))
    lo = float(rng.uniform(0, .6))
    hi = lo + float(rng.uniform(.05, .6))
    kw = pick(rng, [dict(low=lo, high=hi), dict(low=lo, high=hi), {}])
    lo, hi = kw.get("low", 0), kw.get("high", .8)
    o = tomopy.blur_edges(b.copy(), **kw)
    ny, nx = b.shape[1:]
    r = np.hypot(np.arange(ny)[:, None] - ny / 2, np.arange(nx)[None] - nx / 2)
    w = np.clip((hi * r.max() - r) / ((hi - lo) * r.max()), 0, 1)
    mon.close(o, b * w, "blur", f"{kw}", rtol=1e-5)
    # additive noise
    ratio = float(pick(rng, [0., .05, .3]))
    c = array(rng, (6, 20, 30), "positive", np.float32)
    o = tomopy.prep.alignment.add_noise(c.copy(), ratio)
    d = o.astype(float) - c
    n = d.size
    sd = ratio * float(c.max())
    mon.ok(o.shape == c.shape and abs(d.mean()) <= 5 * sd / np.sqrt(n) + 1e-6 and abs(d.std() - sd) <= 5 * sd / np.sqrt(2 * n) + 1e-6, "noise", f"ratio {ratio}: mean {d.mean():.4g} std {d.std():.4g} expected 0, {sd:.4g}")
    mon.sig("scale", dt, p["nt"], p["ny"], p["nx"])


def radial(a, xc, yc, f):
    """corrected images, bilinear at xc+F(r)(x-xc) clipped to the image; also the sampled coordinates"""
    ny, nx = a.shape[1:]
    y, x = np.mgrid[:ny, :nx].astype(float)
    x -= xc
    y -= yc
    r = np.hypot(x, y)
    F = sum(c * r ** i for i, c in enumerate(f))
    X, Y = np.clip(xc + F * x, 0, nx - 1), np.clip(yc + F * y, 0, ny - 1)
    i, j = np.minimum(Y.astype(int), max(ny - 2, 0)), np.minimum(X.astype(int), max(nx - 2, 0))
    u, v = Y - i, X - j
    a = a.astype(float)
    i1, j1 = np.minimum(i + 1, ny - 1), np.minimum(j + 1, nx - 1)
    return a[:, i, j] * (1 - u) * (1 - v) + a[:, i1, j] * u * (1 - v) + a[:, i, j1] * (1 - u) * v + a[:, i1, j1] * u * v


def run_dist(p, mon):
    rng = rng_for("c20d", p["seed"])
    nt, ny, nx = p["nt"] + int(rng.integers(0, 8)), p["ny"], p["nx"] + int(rng.integers(0, 50))
    dt = pick(rng, ["float32", "float32", "float64", "uint16"])
    a = array(rng, (nt, ny, nx), "counts" if dt == "uint16" else pick(rng, ["normal", "positive", "smooth"]), dt)
    xc, yc = float(rng.uniform(-5, nx + 5)), float(rng.uniform(-5, ny + 5))
    k = rng.random()
    R = np.hypot(nx, ny)
    if k < .15:
        f = [1.]
    elif k < .3:
        f = [float(rng.uniform(.5, 1.5))]
    else:
        f = [float(rng.uniform(.8, 1.2))] + [float(rng.normal() * .1 / R ** i) for i in range(1, int(rng.integers(2, 6)))]
    kw = dict(ncore=int(rng.integers(1, 4)), nchunk=int(rng.integers(1, 4))) if rng.random() < .6 else {}
    ref = radial(a, xc, yc, f)
    out = tomopy.distortion_correction_proj(a.copy(), xc, yc, tuple(f) if rng.random() < .3 else list(f), **kw)
    # coordinates are single precision: neighbouring pixels may differ by the full range times eps*coordinate
    tol = 3e-6 * max(nx, ny) * 4 * float(np.ptp(a.astype(float)))
    mon.close(out, ref, "dist-proj", f"{a.shape} center ({xc},{yc}) coefficients {f}", rtol=1e-5, atol=tol)
    if f == [1.]:
        mon.close(out, a, "dist-identity", f"center ({xc},{yc})", rtol=1e-5, atol=tol)
    for ind in {0, ny - 1, int(rng.integers(ny)), int(rng.integers(ny))}:
        s = tomopy.distortion_correction_sino(a.copy(), ind, xc, yc, f)
        mon.close(s, ref[:, ind], "dist-sino", f"row {ind} of {a.shape} center ({xc},{yc}) coefficients {f}", rtol=1e-5, atol=tol, scale=float(np.abs(ref).max()))
    import tempfile
    fd, fn = tempfile.mkstemp(dir=os.environ["VERIF_SCRATCH"])
    lab = rng.random() < .5
    vals = [xc, yc] + f
    with os.fdopen(fd, "w") as h:
        names = ["xcenter", "ycenter"] + [f"factor{i}" for i in range(len(f))]
        txt = "\n".join((f"{n} = {v!r}" if lab else repr(v)) for n, v in zip(names, vals))
        h.write(txt + ("\n" if rng.random() < .5 else ""))
    got = tomopy.load_distortion_coefs(fn)
    os.unlink(fn)
    mon.ok(got[0] == xc and got[1] == yc and list(got[2]) == f, "coefs", f"{got} expected {vals}")
    mon.sig("dist", nt, ny, nx, round(xc), round(yc), len(f))


def run_tall(p, mon):
    """detectors with more rows than a short integer counts"""
    rng = rng_for("c20t", p["seed"])
    nt, ny, nx = 2, int(rng.integers(32760, 70000)), int(rng.integers(2, 6))
    a = array(rng, (nt, ny, nx), "normal", np.float32)
    xc, yc = float(rng.uniform(0, nx)), float(rng.uniform(0, ny))
    f = pick(rng, [[1.], [float(rng.uniform(.9, 1.1))], [1., float(rng.normal() * .02 / ny)]])
    ref = radial(a, xc, yc, f)
    out = tomopy.distortion_correction_proj(a.copy(), xc, yc, f, ncore=1)
    mon.close(out, ref, "dist-proj", f"{a.shape} center ({xc},{yc}) coefficients {f}", rtol=1e-5, atol=1e-6 * ny * 2 * float(np.ptp(a)))
    for ind in {0, ny - 1, ny // 2, 32766, 32767, 32768, int(rng.integers(ny))} & set(range(ny)):
        s = tomopy.distortion_correction_sino(a, ind, xc, yc, f)
        mon.close(s, ref[:, ind], "dist-sino", f"row {ind} of {a.shape} center ({xc},{yc}) coefficients {f}", rtol=1e-5, atol=1e-4, scale=1)
    mon.sig("tall", ny, nx)


def run_slits(p, mon):
    rng = rng_for("c20l", p["seed"])
    ny, nx = int(rng.integers(120, 260)), int(rng.integers(120, 260))
    m = 26
    x0, x1 = int(rng.integers(m, nx // 2 - m)), int(rng.integers(nx // 2 + m, nx - m))
    y0, y1 = int(rng.integers(m, ny // 2 - m)), int(rng.integers(ny // 2 + m, ny - m))
    edge = float(rng.uniform(.8, 2.))
    x, y = np.arange(nx), np.arange(ny)
    from scipy.special import expit
    wx, wy = expit((x - x0) / edge) * expit((x1 - x) / edge), expit((y - y0) / edge) * expit((y1 - y) / edge)
    img = 60 + 3000 * wy[:, None] * wx[None]
    img *= 1 + .002 * rng.normal(size=img.shape)
    dt = pick(rng, ["float32", "uint16", "float64"])
    img = img.astype(dt)
    want = np.array([[x0, y0], [x0, y1], [x1, y1], [x1, y0]], float)
    method = pick(rng, ["simple", "quadrant", "quadrant+", None])
    kw = {} if method is None else dict(method=method)
    # std of the log image rises where the edge enters the box; a log edge of a logistic profile sits about
    # edge*log(contrast) outside the half-height point
    c = tomopy.find_slits_corners_aps_1id(img.copy(), **kw)
    tol = 2 + 3.2 * edge
    mon.ok(np.shape(c) == (4, 2) and np.abs(c - want).max() <= tol, "slits", f"{method} {img.shape} {dt} edge {edge:.2f}: {np.round(c, 2).tolist()} expected {want.tolist()}")
    mon.count("slit-err-milli", int(1000 * np.abs(c - want).max()))
    # the detected corners move with the box
    dx, dy = int(rng.integers(-6, 7)), int(rng.integers(-6, 7))
    c2 = tomopy.find_slits_corners_aps_1id(np.roll(img, (dy, dx), (0, 1)), **kw)
    mon.ok(np.abs(c2 - c - [dx, dy]).max() <= (1.01 if method in ("simple", "quadrant") else .3), "slits-move", f"{method}: moved by {(c2 - c).tolist()} for {dx},{dy}")
    cn = want + rng.uniform(-2, 2, (4, 2))
    inc = tuple(int(v) for v in rng.integers(0, 12, 4))
    kw = {} if rng.random() < .3 else dict(inclip=inc)
    inc = kw.get("inclip", (1, 10, 1, 10))
    box = (int(np.floor(cn[:, 0].min())) + inc[0], int(np.ceil(cn[:, 0].max())) - inc[1], int(np.floor(cn[:, 1].min())) + inc[2], int(np.ceil(cn[:, 1].max())) - inc[3])
    got = tomopy.calc_slit_box_aps_1id(cn, **kw)
    mon.ok(tuple(int(v) for v in got) == box, "slitbox", f"{got} expected {box}")
    st = np.stack([img, img[::-1], img[:, ::-1]])
    r = tomopy.remove_slits_aps_1id(st.copy(), cn, **kw)
    mon.equal(r, st[:, box[2]:box[3], box[0]:box[1]], "slitremove", f"box {box}")
    mon.sig("slits", nx, ny, x0, y0, method)


def run_align(p, mon):
    rng = rng_for("c20a", p["seed"])
    n, ny, nt = int(rng.integers(28, 40)), int(rng.integers(20, 30)), int(rng.integers(24, 40))
    z, y, x = np.mgrid[:ny, :n, :n].astype(float)
    o = np.zeros((ny, n, n))
    for _ in range(12):
        r, ph = n * .25 * np.sqrt(rng.random()), rng.random() * 6.3
        o += rng.uniform(.5, 1) * np.exp(-((x - n / 2 - r * np.cos(ph)) ** 2 + (y - n / 2 - r * np.sin(ph)) ** 2 + (z - rng.uniform(.3, .7) * ny) ** 2) / (2 * rng.uniform(1.3, 2.2) ** 2))
    ang = np.linspace(0, np.pi, nt, endpoint=False).astype(np.float32)
    prj = tomopy.project(o.astype(np.float32), ang, pad=False)
    amp = float(rng.uniform(.8, 1.8))
    sx, sy = rng.uniform(-amp, amp, nt), rng.uniform(-amp, amp, nt)
    moved = tomopy.shift_images(prj.copy(), sx, sy)
    which = p["i"] % 2
    f = [tomopy.prep.alignment.align_seq, tomopy.prep.alignment.align_joint][which]
    pad = (int(rng.integers(0, 4)), int(rng.integers(0, 4)))
    kw = dict(iters=int(pick(rng, [14, 20])) if not which else 30, debug=False, algorithm=pick(rng, ["sirt", "art"]) if which else "sirt", upsample_factor=int(pick(rng, [10, 20])))
    if rng.random() < .5:
        kw.update(pad=pad)
    pad = kw.get("pad", (0, 0))
    if rng.random() < .5:
        kw.update(rin=.6, rout=.95)
    scl = float(pick(rng, [1., 50.]))
    out, gx, gy, conv = f((moved * scl).astype(np.float32), ang, **kw)
    mon.ok(out.shape == (nt, ny + 2 * pad[1], n + 2 * pad[0]) and len(gx) == nt and len(gy) == nt and len(conv) == kw["iters"], "align-shape", f"{out.shape} pad {pad}")
    # put in: shift by s; found g undoes it up to object moves: vertical constant, horizontal a+b cos+c sin
    def resid(v, cols):
        return v - cols @ np.linalg.lstsq(cols, v, rcond=None)[0]
    one = np.ones((nt, 1))
    C = np.c_[one, np.cos(ang)[:, None], np.sin(ang)[:, None]]
    rv0, rh0 = resid(sx, one).std(), resid(sy, C).std()
    rv, rh = resid(sx + gx, one).std(), resid(sy + gy, C).std()
    mon.count("align-resid-milli", int(1000 * max(rv, rh)))
    mon.ok(rv < .3 and rv < .5 * rv0 and rh < (.7 if which else 3) * rh0, "align-residual", f"{f.__name__} {kw}: vertical residual {rv:.3f} (from {rv0:.3f}), horizontal {rh:.3f} (from {rh0:.3f})")
    P = np.pad(moved * scl, ((0, 0), (pad[1],) * 2, (pad[0],) * 2))
    q = (slice(None), slice(5 + pad[1], -5 - pad[1]), slice(5 + pad[0], -5 - pad[0]))
    if which == 0:   # the returned images are the input moved by the returned shifts
        ref = tomopy.shift_images(P.astype(np.float32), gx, gy)
        mon.close(out[q], ref[q], "align-applied", f"{kw}", rtol=.08)
    else:            # the joint variant returns the (padded) input with the shifts
        mon.close(out, P, "align-applied", f"{kw}", rtol=1e-4)
    mon.sig("align", which, n, ny, nt, kw["algorithm"])


def agen(rng, i):
    return dict(i=i)


def run_drift(p, mon):
    """every frame of a drifting detector is moved (and turned) back so that its slits lie where the reference has them"""
    from scipy.special import expit
    from scipy import ndimage
    from tomopy.prep import alignment
    rng = rng_for("c20d", p["seed"])
    ny, nx = int(rng.integers(140, 230)), int(rng.integers(140, 230))
    m, edge = 34, float(rng.uniform(1.2, 2.))
    x0, x1 = float(rng.uniform(m, nx // 2 - m)), float(rng.uniform(nx // 2 + m, nx - m))
    y0, y1 = float(rng.uniform(m, ny // 2 - m)), float(rng.uniform(ny // 2 + m, ny - m))
    Y, X = np.mgrid[:ny, :nx].astype(float)

    def frame(dx, dy, ang):
        c, s = np.cos(ang), np.sin(ang)     # content moved by (dx, dy) and turned about the middle
        u, v = X - dx - nx / 2, Y - dy - ny / 2
        u, v = c * u + s * v + nx / 2, -s * u + c * v + ny / 2
        w = expit((u - x0) / edge) * expit((x1 - u) / edge) * expit((v - y0) / edge) * expit((y1 - v) / edge)
        return 60 + 3000 * w * (1 + .1 * np.sin(u / 9) * np.cos(v / 7))
    moves = [(0., 0., 0.)] + [(float(rng.uniform(-7, 7)), float(rng.uniform(-7, 7)), float(rng.normal() * .004) * p["turn"]) for _ in range(int(rng.integers(1, 4)))]
    st = np.stack([frame(*v) for v in moves])
    ref = st[0]
    st = st.astype(p["dt"])
    a = st.copy()
    try:
        cr = alignment.find_slits_corners_aps_1id(ref.copy(), method="quadrant+")
    except (ValueError, RuntimeError):
        mon.count("corners_not_found")
        return
    out, cn, F = alignment.detector_drift_adjust_aps_1id(a, cr, ncore=2)
    mon.equal(a, st, "drift-argument", "the frames changed")
    mon.ok(out.shape == st.shape and cn.shape == (len(st), 4, 2) and F.shape == (len(st), 3, 3), "drift-shape", f"{out.shape} {cn.shape} {F.shape}")
    r = 24
    for k, (dx, dy, ang) in enumerate(moves):
        c, s = np.cos(ang), np.sin(ang)
        q = cr - [nx / 2, ny / 2]
        want = np.stack([c * q[:, 0] - s * q[:, 1], s * q[:, 0] + c * q[:, 1]], 1) + [nx / 2 + dx, ny / 2 + dy]
        e = np.abs(cn[k] - want).max()
        mon.ok(e <= 2, "drift-corners", f"frame {k} moved by {moves[k]}: {cn[k].tolist()} expected {want.tolist()}")
        before, after = (np.abs(np.asarray(v, float) - ref)[r:-r, r:-r].mean() for v in (st[k], out[k]))
        # a corner error of e pixels leaves the step at the edges displaced by as much
        rim = 2 * (x1 - x0 + y1 - y0) * 3000 * (e + .15) / ((nx - 2 * r) * (ny - 2 * r))
        mon.ok(after <= rim + 8, "drift", f"frame {k} moved by {moves[k]}: mean difference from the reference {before:.1f} before, {after:.1f} after, allowed {rim + 8:.1f}; corner error {e:.3f}")
        mon.count("drift-gain-permille", int(1000 * after / (before + 1e-9)) if k else 0)
    mon.sig("drift", nx, ny, p["dt"], p["turn"])


def run_giveup(p, mon):
    """a frame whose corners stay too far from the reference for every kernel is left where it is"""
    from scipy.special import expit
    from tomopy.prep import alignment
    rng = rng_for("c20g", p["seed"])
    ny, nx, edge, d = 300, 320, 1.3, float(rng.uniform(18, 24))
    x, y = np.arange(nx), np.arange(ny)
    st = []
    for dx in (0., d):
        w = (expit((y - 70) / edge) * expit((220 - y) / edge))[:, None] * (expit((x - 70 - dx) / edge) * expit((240 + dx - x) / edge))[None]
        st.append((60 + 3000 * w) * (1 + .002 * rng.normal(size=w.shape)))
    st = np.array(st)
    cr = alignment.find_slits_corners_aps_1id(st[0].copy(), method="quadrant+")
    out, cn, F = alignment.detector_drift_adjust_aps_1id(st, cr, ncore=4)
    mon.close(cn[1], cr, "drift-giveup", "corners of the frame that was given up", rtol=1e-9)
    mon.close(out[:, 2:-2, 2:-2], st[:, 2:-2, 2:-2], "drift-giveup", "frames", rtol=1e-6, atol=1e-3)
    mon.sig("giveup", round(d, 2))


def gen_drift(rng, i):
    return dict(dt=pick(rng, ["float32", "float64", "uint16"]), turn=int(rng.integers(2)))


FAMILIES = [Family("drift", gen_drift, run_drift, 60, 800), Family("giveup", gen_drift, run_giveup, 0, 1, timeout=600), Family("shift", shape, run_shift, 100, 2000), Family("jitter", shape, run_jitter, 120, 2000), Family("scale", shape, run_scale, 80, 2000), Family("dist", shape, run_dist, 200, 4000), Family("tall", shape, run_tall, 4, 60),
            Family("slits", shape, run_slits, 80, 1500), Family("align", agen, run_align, 14, 100, timeout=300)]
