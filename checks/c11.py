from vlib import *
import os
import siddon, gridref
tomopy = lazy("tomopy")
NAMED = ["none", "shepp", "cosine", "hann", "hamming", "ramlak", "parzen", "butterworth"]
RULE = ("Fourier-grid reconstructions of random stacks (1-5 slices, widths 1-70, grids smaller/larger than the detector and not square, all "
        "10 filters with random parameters, scalar/per-slice centers, random and regular angles) against a double-precision gridding "
        "reference; named = custom = custom2d filters; linearity; recovery of smooth objects; back-projection against exact "
        "intersection lengths; non-trivial: non-zero data")
ASSUMPTIONS = ["pixels are compared before the method's final deapodisation, whose factor amplifies rounding near the border of the "
               "transform; angles at multiples of 90 degrees get 0.5 % because kernel-table lookups tie there",
               "fbp is the documented unfiltered back-projection"]
REQUIRED = ["pixels_judged", "monitor:gridrec", "monitor:named-custom", "monitor:linear", "monitor:recover", "monitor:fbp"] + ["filter:" + n for n in NAMED + ["custom", "custom2d"]]


def gen(rng, i):
    dx = int(rng.integers(1, 40)) if i % 5 else int(rng.integers(40, 72))
    gx = gy = dx
    if rng.random() < 0.5:
        gx, gy = int(rng.integers(1, 48)), int(rng.integers(1, 48))
    return dict(dx=dx, gx=gx, gy=gy, dy=int(rng.integers(1, 6)), dt=int(rng.integers(1, 14)), filt=(NAMED + ["custom", "custom2d"])[i % 10],
                cen=pick(rng, ["default", "scalar", "varied", "pairs"]), ang=pick(rng, ["random", "random", "regular"]),
                kind=pick(rng, KINDS), par=[float(rng.uniform(0.05, 1.2)), float(rng.uniform(0.5, 9))], defpar=bool(rng.random() < 0.3),
                order=bool(rng.integers(2)), ncore=int(pick(rng, [1, 1, 2])), nchunk=pick(rng, [None, None, 1, 2, 3]))


def geometry(p, rng):
    dx, dy = p["dx"], p["dy"]
    if p["cen"] == "default":
        return None, np.full(dy, dx / 2.0, np.float32)
    if p["cen"] == "scalar":
        c = np.float32(dx / 2 + rng.uniform(-3, 3))
        return float(c), np.full(dy, c)
    cs = (dx / 2 + rng.uniform(-3, 3, dy)).astype(np.float32)
    if p["cen"] == "pairs":
        cs = np.repeat(cs, 2)[int(rng.integers(2)):][:dy].copy()
    return cs, cs


def rec(data, th, cen, p, **kw):
    d = data if p["order"] else np.swapaxes(data, 0, 1)
    return np.array(tomopy.recon(d, th, center=cen, sinogram_order=p["order"], algorithm="gridrec", num_gridx=p["gx"], num_gridy=p["gy"],
                                 ncore=p["ncore"], nchunk=p["nchunk"], **kw))


def run_ref(p, mon):
    rng = rng_for("c11", p["seed"])
    dy, dt, dx, gx, gy = p["dy"], p["dt"], p["dx"], p["gx"], p["gy"]
    data = array(rng, (dy, dt, dx), p["kind"])
    th = (rng.uniform(-7, 7, dt) if p["ang"] == "random" else np.linspace(0, np.pi, dt)).astype(np.float32)
    if p["ang"] == "regular" and min(gx, gy) < 8:
        th += np.float32(0.013)
    cen, cs = geometry(p, rng)
    n = gridref.pdim(dx, gx, gy)
    name = p["filt"]
    kw = dict(filter_name=name)
    if name == "custom":
        f = rng.normal(size=n // 2).astype(np.float32)
        kw["filter_par"] = f if rng.random() < 0.5 else f.tolist()
    elif name == "custom2d":
        f = rng.normal(size=(dt, n // 2)).astype(np.float32)
        kw["filter_par"] = f if rng.random() < 0.5 else f.ravel()
    else:
        par = np.array([0.5, 8], np.float32) if p["defpar"] else np.array(p["par"], np.float32)
        if not p["defpar"]:
            kw["filter_par"] = par if rng.random() < 0.5 else par.tolist()
        f = gridref.filters(name, n, par.astype(np.float64))
        if name == "shepp" and p["defpar"]:
            kw = {}
    mon.count("filter:" + name)
    got = rec(data, th, cen, p, **kw)
    if not mon.ok(got.shape == (dy, gx, gy), "shape"):
        return
    if np.abs(data).max() > 0:
        mon.sig(name, dy, dt, dx, gx, gy, p["cen"], p["ang"], p["kind"])
    S = np.abs(data).max()
    for s in range(dy):
        ref, w = gridref.gridrec(data[s], th, cs[s], gx, gy, f)
        mon.count("pixels_judged", ref.size)
        m = np.abs(ref / w).max()
        # two slices with the same center travel through one transform
        tot = max(m, 1e-3 * max(np.abs(gridref.gridrec(data[t], th, cs[t], gx, gy, f)[0] / w).max() for t in (s - 1, s + 1) if 0 <= t < dy)) if dy > 1 else m
        tie = p["ang"] == "regular"
        if min(gx, gy) < dx and not np.abs((got[s] - ref) / w).max() <= (2e-2 if tie else 6e-4) * tot + 1e-7 * S:
            # what lies outside a small grid travels through the same transform
            full, wf = gridref.gridrec(data[s], th, cs[s], max(gx, dx), max(gy, dx), f)
            tot = max(tot, np.abs(full / wf).max())
        jump = 0
        if not np.abs((got[s] - ref) / w).max() <= (2e-2 if tie else 6e-4) * tot + 1e-7 * S:
            # samples at the very edge of the gridding window move in or out with the last bit of the angle
            jump = max(np.abs((gridref.gridrec(data[s], th.astype(np.float64) + e * (1 + np.abs(th)), cs[s], gx, gy, f)[0] - ref) / w).max() for e in (1e-7, -1e-7, 3e-7, -3e-7, 6e-7, -6e-7))
            jump = min(jump, .02 * tot)
        mon.close(got[s] / w, ref / w, "gridrec", f"{name} slice {s} of {dy}, width {dx}, grid {gx}x{gy}, center {cs[s]}", rtol=0,
                  atol=(2e-2 if tie else 6e-4) * tot + 1e-7 * S + 2 * jump)
    if name not in ("custom", "custom2d"):
        f32 = np.asarray(f, np.float32)
        a = rec(data, th, cen, p, filter_name="custom", filter_par=f32)
        b = rec(data, th, cen, p, filter_name="custom2d", filter_par=np.tile(f32, (dt, 1)))
        for o, lab in ((a, "custom"), (b, "custom2d")):
            mon.close(o / w, got / w, "named-custom", f"{name} vs {lab}", rtol=2e-4)
    # linearity
    d2 = array(rng, (dy, dt, dx), "normal")
    k1, k2 = np.float32(0.7), np.float32(-1.3)
    sc = np.float32(max(S, 1e-6))
    d2 = d2 * sc
    r2 = rec(d2, th, cen, p, **kw).astype(np.float64)
    r3 = rec(k1 * data + k2 * d2, th, cen, p, **kw)
    mon.close(r3 / w, (k1 * got.astype(np.float64) + k2 * r2) / w, "linear", name, rtol=0, atol=3e-4 * np.abs(r2 / w).max())


def gen_obj(rng, i):
    dx = int(rng.integers(48, 100))
    return dict(dx=dx, filt=pick(rng, ["shepp", "ramlak", "cosine", "hann", "hamming", "butterworth"]), dy=int(rng.integers(1, 4)), off=float(rng.uniform(-6, 6)),
                start=float(rng.uniform(-3, 3)), nb=int(rng.integers(1, 4)), small=bool(rng.integers(2)))


def run_obj(p, mon):
    """Gaussian blobs: analytic projections, analytic object"""
    rng = rng_for("c11o", p["seed"])
    dx, dy = p["dx"], p["dy"]
    dt = int(dx * 1.7)
    th = (p["start"] + np.arange(dt) * np.pi / dt).astype(np.float32)
    c = np.float32(dx / 2 + p["off"])
    g = dx if not p["small"] else dx - int(rng.integers(2, dx // 3))
    data = np.zeros((dy, dt, dx)); obj = np.zeros((dy, g, g))
    R = dx / 2.0 - abs(p["off"]) - 9
    # pixel i of the image sits at coordinate i - ... with the rotation axis at the pixel the grid reference defines
    yc = np.arange(g) - (g + 1) // 2
    xc = (np.arange(g) - (g + 1) // 2)[::-1]
    d = np.arange(dx) - float(c)
    for s in range(dy):
        for _ in range(p["nb"]):
            sg = rng.uniform(2.2, 3.5); r = R * np.sqrt(rng.random()) * 0.8; a = rng.uniform(0, 6.28); v = rng.uniform(0.5, 2)
            by, bx = r * np.cos(a), r * np.sin(a)
            obj[s] += v * np.exp(-((xc[:, None] - bx) ** 2 + (yc[None, :] - by) ** 2) / 2 / sg ** 2)
            t = by * np.cos(th)[:, None] + bx * np.sin(th)[:, None]
            data[s] += v * sg * np.sqrt(2 * np.pi) * np.exp(-(d[None, :] - t) ** 2 / 2 / sg ** 2)
    got = np.array(tomopy.recon(data, th, center=c, sinogram_order=True, algorithm="gridrec", filter_name=p["filt"], num_gridx=g, num_gridy=g))
    yy, xx = np.meshgrid(yc, xc)
    m = xx ** 2 + yy ** 2 < (R + 4) ** 2
    lab = f"{p['filt']} width {dx} grid {g} center {c}"
    err = [float(np.sqrt(np.mean((got[s][m] - obj[s][m]) ** 2)) / np.abs(obj).max()) for s in range(dy)]
    mon.count("pixels_judged", m.sum() * dy)
    mon.sig(p["filt"], dx, g, dy)
    mon.ok(max(err) < LIM, "recover", lambda: f"{lab}: rms error {err}")
    if os.environ.get('VERBOSE'): mon.count('err%d' % int(max(err) * 1000))


LIM = 0.12


def run_fbp(p, mon):
    rng = rng_for("c11f", p["seed"])
    dx = 1 + p["dx"] % 14
    gx, gy = (dx, dx) if p["order"] else (1 + p["gx"] % 14, 1 + p["gy"] % 14)
    p = dict(p, dx=dx)
    dy, dt = p["dy"], p["dt"]
    cen, cs = geometry(p, rng)
    data = array(rng, (dy, dt, dx), p["kind"])
    th = rng.uniform(-7, 7, dt).astype(np.float32)
    init = array(rng, (dy, gx, gy), "normal") if p["seed"] % 2 else None
    got = np.array(tomopy.recon(data, th, center=cen, sinogram_order=True, algorithm="fbp", num_gridx=gx, num_gridy=gy,
                                init_recon=None if init is None else init.copy(), ncore=p["ncore"], nchunk=p["nchunk"],
                                **({} if p["filt"].startswith("custom") else dict(filter_name=p["filt"]))))
    S = float(np.abs(data).max())
    for s in range(dy):
        A, amb = siddon.system(th, cs[s], gx, gy, dx)
        d = data[s].astype(np.float64)
        x0 = np.float32(1e-6) if init is None else init[s].astype(np.float64)
        ref = np.tensordot(np.where(amb, 0, d), A, ([0, 1], [0, 1])).reshape(gx, gy) + x0
        # rays that cannot be judged may or may not contribute
        slack = np.tensordot(np.where(amb, np.abs(d), 0), np.ones((dt, dx, 1)) * 1.5, ([0, 1], [0, 1]))[0]
        judged = ~amb.any(0).any() if False else True
        if amb.any():
            A2 = siddon.system(th, cs[s], gx, gy, dx)[0]
            hit = (A2[amb] > 0).any(0).reshape(gx, gy)
            # a ray along a grid line touches pixels on either side
            hit |= np.roll(hit, 1, 0) | np.roll(hit, -1, 0) | np.roll(hit, 1, 1) | np.roll(hit, -1, 1)
            ok = ~hit if (A2[amb].sum(1) > 0).all() else np.zeros((gx, gy), bool)
        else:
            ok = np.ones((gx, gy), bool)
        mon.count("pixels_judged", ok.sum())
        if ok.any() and S > 0:
            mon.sig("fbp", dx, gx, gy, dt, p["cen"], s)
        mon.close(np.where(ok, got[s], 0), np.where(ok, ref, 0), "fbp", f"slice {s} width {dx} grid {gx}x{gy}", rtol=0,
                  atol=S * dt * (1e-3 + 2e-5 * (gx + gy)) + 1e-6 * (1 if init is None else 10))


FAMILIES = [Family("gridrec", gen, run_ref, 2000, 10000), Family("objects", gen_obj, run_obj, 400, 2000), Family("fbp", gen, run_fbp, 1600, 8000)]
