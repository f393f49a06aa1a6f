from vlib import *
tomopy = lazy("tomopy")
RULE = ("random stacks (1-9 projections, 1-40 x 1-40 pixels, integer counts or floats, dead and saturated pixels, 1-7 flats and darks in "
        "2D or 3D, mean or median, cutoffs, output buffers, worker counts) through every normalisation; each output element is compared "
        "with the documented formula in double precision; non-trivial: the formula changes the element")
REQUIRED = ["monitor:normalize", "monitor:floor", "monitor:cutoff", "monitor:nearest-flat", "monitor:background", "monitor:roi", "monitor:minus-log"]
L = 1e-6


def gen(rng, i):
    return dict(nt=int(rng.integers(1, 10)), ny=int(pick(rng, [1, 2, 3, 7, 16, 40])), nx=int(pick(rng, [1, 2, 3, 8, 17, 40])),
                nf=int(rng.integers(1, 8)), nd=int(rng.integers(1, 8)), f2=bool(rng.integers(2)), d2=bool(rng.integers(2)),
                avg=pick(rng, ["mean", "median"]), cut=pick(rng, [None, None, 0.3, 1.0, 2.5]), kind=pick(rng, ["counts", "float", "small"]),
                dt=pick(rng, ["float32", "float32", "uint16", "float64", "int32"]), out=pick(rng, ["none", "none", "given", "same"]),
                ncore=int(pick(rng, [1, 1, 2, 5])), bad=bool(rng.integers(2)), avg_default=bool(rng.random() < .3))


def fields(p, rng, nf, nd):
    sh = (p["ny"], p["nx"])
    if p["kind"] == "counts":
        dark = rng.integers(80, 120, (nd,) + sh).astype(float)
        flat = rng.integers(500, 4000, sh) + rng.integers(0, 60, (nf,) + sh).astype(float)
        tomo = rng.integers(60, 4500, (p["nt"],) + sh).astype(float)
    elif p["kind"] == "float":
        dark = rng.random((nd,) + sh) * .1
        flat = .5 + rng.random((nf,) + sh)
        tomo = rng.random((p["nt"],) + sh) * 1.5
    else:
        dark = rng.integers(0, 3, (nd,) + sh).astype(float)
        flat = rng.integers(0, 5, (nf,) + sh).astype(float)
        tomo = rng.integers(0, 7, (p["nt"],) + sh).astype(float)
    if p["bad"]:
        m = rng.random(sh) < .15
        flat[:, m] = np.floor(dark[:1, m])        # dead pixel: flat == dark
        dark[:, m] = np.floor(dark[:1, m])
        m2 = rng.random(sh) < .1
        flat[:, m2] = dark[0][m2] * 0 - 3         # flat below dark
        m2 = rng.random(sh) < .1
        dark[:, m2] = np.floor(dark[:1, m2])
        flat[:, m2] = dark[0][m2] + 0.5
    return tomo, flat, dark


def cast(p, *arrs):
    dt = p["dt"]
    if p["kind"] == "float" and dt in ("uint16", "int32"):
        dt = "float32"
    out = []
    for a in arrs:
        if dt == "uint16":
            a = np.clip(a, 0, 65535)
        out.append(np.ascontiguousarray(a.astype(dt)))
    return out


def av(a, how):
    a = a.astype(np.float64)
    return np.mean(a, 0) if how == "mean" else np.median(a, 0)


def reference(t, f, d, cut):
    """value and tolerance; nan tolerance where the floor decision is within rounding"""
    den = f - d
    ferr = 1e-6 * (np.abs(f) + np.abs(d))
    low = den < L
    dd = np.where(low, L, den)
    ref = (t - d) / dd
    tol = 1e-6 * (np.abs(t) + np.abs(d)) / dd + np.abs(ref) * (np.where(low, 0, ferr / dd) + 1e-6)
    amb = (np.abs(den - L) <= ferr) & ~((f == np.rint(f)) & (d == np.rint(d)))
    tol = np.where(amb, np.inf, tol)
    if cut is not None:
        ref = np.minimum(ref, np.float64(np.float32(cut)))
    return ref, tol, low


def outbuf(p, tomo, rng):
    if p["out"] == "given":
        return np.full(tomo.shape, 7.5, np.float32)
    if p["out"] == "same" and tomo.dtype == np.float32:
        return tomo
    return None


def judge(mon, got, ref, tol, low, key, p, tomo):
    good = np.abs(got.astype(np.float64) - ref) <= tol + 1e-30
    mon.count("monitor:" + key)
    if low.any():
        mon.count("monitor:floor")
    if not good.all():
        i = tuple(int(x) for x in np.argwhere(~good)[0])
        mon.fail(key, f"{p['avg']} {(~good).sum()} of {got.size} wrong, first {i}: got {got[i]!r} expected {ref[i]!r} +- {np.broadcast_to(tol, got.shape)[i]:.3g}")
    if p["cut"] is not None:
        mon.ok((got <= np.float32(p["cut"])).all(), "cutoff", lambda: f"max {got.max()} over cutoff {p['cut']}")
    if not np.array_equal(ref, tomo):
        mon.sig(p["kind"], p["dt"], tomo.shape, p["avg"], p["cut"], p["out"], bool(low.any()))


def run_norm(p, mon):
    rng = rng_for("c13n", p["seed"])
    tomo, flat, dark = cast(p, *fields(p, rng, p["nf"], p["nd"]))
    if p["f2"]:
        flat = flat[0]
    if p["d2"]:
        dark = dark[0]
    src = tomo.astype(np.float64)
    out = outbuf(p, tomo, rng)
    kw = dict(cutoff=p["cut"], ncore=p["ncore"])
    if p["avg_default"]:
        p["avg"] = "mean"
    else:
        kw["averaging"] = p["avg"]
    r = tomopy.normalize(tomo, flat, dark, out=out, **kw)
    if out is not None:
        mon.ok(r is out or np.shares_memory(r, out), "out-buffer", "result is not the output buffer")
    mon.ok(r.shape == tomo.shape and r.dtype == np.float32, "shape", lambda: f"{r.shape} {r.dtype}")
    F = av(flat[None] if flat.ndim == 2 else flat, p["avg"])
    D = av(dark[None] if dark.ndim == 2 else dark, p["avg"])
    ref, tol, low = reference(src, F, D, p["cut"])
    judge(mon, r, ref, np.broadcast_to(tol, ref.shape), low, "normalize", p, src)


def gen_nf(rng, i):
    p = gen(rng, i)
    p["nt"] = int(rng.integers(1, 40))
    p["ng"] = int(rng.integers(1, 7))
    p["per"] = int(rng.integers(1, 4))
    p["ny"], p["nx"] = min(p["ny"], 16), min(p["nx"], 17)
    return p


def run_nf(p, mon):
    rng = rng_for("c13f", p["seed"])
    ng = min(p["ng"], p["nt"])
    tomo, flat, dark = cast(p, *fields(p, rng, ng * p["per"], p["nd"]))
    # tell the groups apart
    flat = flat + (np.arange(ng).repeat(p["per"])[:, None, None] * (700 if p["kind"] == "counts" else 3)).astype(flat.dtype)
    loc = np.sort(rng.choice(p["nt"], ng, replace=False))
    if rng.random() < .5:
        loc[0] = 0
    if p["d2"]:
        dark = dark[0]
    src = tomo.astype(np.float64)
    out = outbuf(p, tomo, rng)
    kw = dict(cutoff=p["cut"], ncore=p["ncore"])
    if p["avg_default"]:
        p["avg"] = "mean"
    else:
        kw["averaging"] = p["avg"]
    r = tomopy.normalize_nf(tomo, flat, dark, pick(rng, [loc, [int(x) for x in loc]]), out=out, **kw)
    if out is not None:
        mon.ok(r is out or np.shares_memory(r, out), "out-buffer", "result is not the output buffer")
    mon.ok(r.shape == tomo.shape and r.dtype == np.float32, "shape", lambda: f"{r.shape} {r.dtype}")
    D = av(dark[None] if dark.ndim == 2 else dark, p["avg"])
    gm = flat.reshape((ng, p["per"]) + flat.shape[1:])
    cand = [reference(src, np.median(g.astype(np.float64), 0), D, p["cut"]) for g in gm]
    lo = False
    for t in range(p["nt"]):
        d = np.abs(t - loc)
        adm = set(np.flatnonzero(d == d.min()).tolist())      # both at equal distance
        good = False
        for m in adm:
            ref, tol, low = cand[m]
            lo = lo or bool(low.any())
            if (np.abs(r[t].astype(np.float64) - ref[t]) <= tol[t] + 1e-30).all():
                good = True
                break
        mon.count("projections_judged")
        if not mon.ok(good, "nearest-flat", lambda: f"projection {t} of {p['nt']}, flats at {loc.tolist()}: result is not the normalisation by group {sorted(adm)}"):
            return
    if p["cut"] is not None:
        mon.ok((r <= np.float32(p["cut"])).all(), "cutoff", "over cutoff")
    mon.sig("nf", p["nt"], loc.tolist(), p["per"], p["avg"], p["dt"])


def gen_bg(rng, i):
    p = gen(rng, i)
    p["nx"] = max(2, p["nx"])
    p["air"] = int(pick(rng, [1, 1, 2, 3, 10, 99]))
    p["nchunk"] = pick(rng, [None, 1, 2, 3])
    p["neg"] = pick(rng, ["no", "no", "zero-left", "neg-right", "all"])
    return p


def run_bg(p, mon):
    rng = rng_for("c13b", p["seed"])
    t = array(rng, (p["nt"], p["ny"], p["nx"]), "positive")
    air = min(p["air"], p["nx"])
    if p["neg"] == "zero-left":
        t[:, ::2, :air] = 0
    elif p["neg"] == "neg-right":
        t[::2, :, -air:] = -1.5
    elif p["neg"] == "all":
        t = -t
    src = t.astype(np.float64)
    kw = {} if air == 1 and rng.random() < .5 else dict(air=air)
    r = tomopy.normalize_bg(t, ncore=p["ncore"], nchunk=p["nchunk"], **kw)
    left = src[..., :air].mean(-1)
    right = src[..., src.shape[-1] - air:].mean(-1)
    left = np.where(left <= 0, 1, left)
    right = np.where(right <= 0, 1, right)
    line = left[..., None] + (right - left)[..., None] * np.arange(p["nx"]) / (p["nx"] - 1)
    ref = src / line
    cond = np.maximum(left, right)[..., None] / line
    amb = (np.abs(src[..., :air].mean(-1)) < 1e-6) & (src[..., :air] != 0).any(-1)
    if amb.any():
        return
    mon.close(r, ref, "background", f"air={air} {p['neg']}", rtol=0, atol=np.abs(ref) * (1e-5 * cond) + 1e-30)
    mon.sig(p["nt"], p["ny"], p["nx"], air, p["neg"], p["ncore"], p["nchunk"])


def run_roi(p, mon):
    rng = rng_for("c13r", p["seed"])
    t = array(rng, (p["nt"], p["ny"], p["nx"]), pick(rng, ["positive", "counts", "normal"]))
    src = t.astype(np.float64)
    r0 = int(rng.integers(0, p["ny"])); r2 = int(rng.integers(r0 + 1, p["ny"] + 1))
    r1 = int(rng.integers(0, p["nx"])); r3 = int(rng.integers(r1 + 1, p["nx"] + 1))
    kw = {}
    if rng.random() < .3:
        r0, r1, r2, r3 = 0, 0, min(10, p["ny"]), min(10, p["nx"])      # documented default
    else:
        kw["roi"] = [r0, r1, r2, r3]
    if p["bad"]:
        t[0, r0:r2, r1:r3] = 0
        src = t.astype(np.float64)
    r = tomopy.normalize_roi(t, ncore=p["ncore"], **kw)
    m = src[:, r0:r2, r1:r3].mean((1, 2), keepdims=True)
    ab = np.abs(src[:, r0:r2, r1:r3]).mean((1, 2), keepdims=True)
    zero = (ab == 0)
    ref = np.where(zero, src, src / np.where(m == 0, 1, m))
    tol = np.where(zero, 0, np.abs(ref) * (1e-6 + 3e-6 * ab / np.abs(np.where(m == 0, 1, m))))
    bad = (ab > 0) & (ab > 1e4 * np.abs(m))
    tol = np.where(bad, np.inf, tol)
    mon.close(r, ref, "roi", f"roi {[r0, r1, r2, r3]}", rtol=0, atol=tol + 1e-30)
    mon.sig(t.shape, r0, r1, r2, r3, p["ncore"])


def run_log(p, mon):
    rng = rng_for("c13l", p["seed"])
    t = array(rng, (p["nt"], p["ny"], p["nx"]), pick(rng, ["positive", "uniform", "tiny", "counts", "normal"]))
    t = t.astype(pick(rng, ["float32", "float32", "float64"]))
    src = t.astype(np.float32).astype(np.float64)
    out = outbuf(p, t, rng)
    r = tomopy.minus_log(t, ncore=p["ncore"], out=out)
    if out is not None:
        mon.ok(r is out or np.shares_memory(r, out), "out-buffer", "result is not the output buffer")
    ref = -np.log(src)
    mon.close(r, ref, "minus-log", "", rtol=0, atol=1e-6 * np.abs(np.where(np.isfinite(ref), ref, 0)) + 2e-7)
    mon.ok(r.dtype == np.float32 and r.shape == t.shape, "shape", "")
    mon.sig(t.shape, str(t.dtype), p["out"])


FAMILIES = [Family("normalize", gen, run_norm, 3600, 18000), Family("nearest", gen_nf, run_nf, 2700, 13500),
            Family("background", gen_bg, run_bg, 2700, 13500), Family("roi", gen, run_roi, 1350, 6750), Family("log", gen, run_log, 1350, 6750)]
