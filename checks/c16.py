from vlib import *
tomopy = lazy("tomopy")
RULE = ("random sinogram stacks (8-48 angles, 1-3 slices, 8-60 columns, and up to 2600 columns or 1700 angles where defaults change: smooth objects with full, partial, large, dead and fluctuating stripes, zero "
        "columns, zero and constant sinograms, NaN for the method that defines it) through every stripe-removal method and its parameters; every "
        "output is compared with an independent double-precision evaluation of the published algorithm, and stripe-strength, constancy, shape and "
        "finiteness monitors run on every call; non-trivial: the method changed the sinogram")
REQUIRED = ["monitor:sf", "monitor:fw", "monitor:ti", "monitor:sorting", "monitor:filtering", "monitor:fitting", "monitor:large", "monitor:dead", "monitor:all",
            "monitor:interpolation", "monitor:constant", "monitor:reduced", "monitor:finite", "stripes_located"]
ASSUMPTIONS = ["comparisons are skipped where a detection threshold or a sort order is within rounding of a tie"]
METHODS = ["sf", "fw", "ti", "sorting", "filtering", "fitting", "large", "dead", "all", "interpolation"]
FUN = dict(sf="remove_stripe_sf", fw="remove_stripe_fw", ti="remove_stripe_ti", sorting="remove_stripe_based_sorting", filtering="remove_stripe_based_filtering",
           fitting="remove_stripe_based_fitting", large="remove_large_stripe", dead="remove_dead_stripe", all="remove_all_stripe", interpolation="remove_stripe_based_interpolation")


class Tie(Exception):
    pass


def gen(rng, i):
    return dict(m=METHODS[i % len(METHODS)], nt=int(rng.integers(8, 49)), ny=int(rng.integers(1, 4)), nx=int(pick(rng, [8, 9, 12, int(rng.integers(10, 60)), int(rng.integers(10, 60))])),
                kind=pick(rng, ["smooth", "noise", "mixed", "mixed", "margin"]), stripes=pick(rng, ["none", "full", "large", "dead", "fluct", "many"]),
                ncore=int(pick(rng, [1, 1, 2])), nchunk=pick(rng, [None, 1, 2]), dflt=bool(rng.random() < .25))


def gen_wide(rng, i):
    """sizes at which the methods change their default windows and margins"""
    m = METHODS[i % len(METHODS)]
    p = dict(gen(rng, i), m=m, ny=1, ncore=1, nchunk=None, dflt=bool(rng.random() < .7), kind=pick(rng, ["smooth", "mixed"]))
    if (i // len(METHODS)) % 2 and m in ("filtering", "fitting", "ti", "dead", "fw"):
        p["nt"], p["nx"] = int(rng.integers(1500, 1700)), int(rng.integers(10, 24))
    else:
        p["nt"], p["nx"] = int(rng.integers(10, 24)), int(pick(rng, [int(rng.integers(500, 900)), 1999, 2000, 2001, int(rng.integers(2001, 2600))]))
        if m in ("ti", "fw"):
            p["nx"] = min(p["nx"], 700)
    return p


def gen_vast(rng, i):
    return dict(gen(rng, i), m=["interpolation", "large"][i % 2], ny=1, nt=8, nx=int(rng.integers(132000, 160000)), ncore=1, nchunk=None, dflt=False, kind="mixed", stripes="full")


def sino(p, rng):
    nt, ny, nx = p["nt"], p["ny"], p["nx"]
    if p["kind"] == "noise":
        d = rng.random((nt, ny, nx)) + .5
    else:
        d = array(rng, (nt, ny, nx), "smooth", np.float64) + 1
        d += rng.random(d.shape) * (.05 if p["kind"] == "mixed" else .001)
    for s in range(ny):
        k = int(rng.integers(0, nx) if rng.random() < .5 else pick(rng, [0, 1, 2, 3, nx - 4, nx - 3, nx - 2, nx - 1]))
        if p["stripes"] == "full":
            d[:, s, k] += rng.choice([-.4, .4, 1])
        elif p["stripes"] == "large":
            d[:, s, k:k + 3] *= rng.choice([.5, 2, 3])
        elif p["stripes"] == "dead":
            d[:, s, k] = rng.choice([0, .3])
        elif p["stripes"] == "fluct":
            d[:, s, k] += rng.normal(size=nt) * 3
        elif p["stripes"] == "many":
            d[:, s] += rng.normal(size=nx) * .2 * (rng.random(nx) < .3)
    if p["kind"] == "margin":
        d[:, :, :2] = 0
        d[:, :, -3:] = 0
    return d.astype(np.float32)


# ---- independent evaluations (one sinogram, angles x columns, float64) ----
def medcols(a, size, dim):
    """median along columns (and rows for dim 2) with mirrored (edge repeated) borders"""
    def win(b, ax, s):
        n = b.shape[ax]
        idx = np.arange(-(s // 2), n + s - 1 - s // 2) % (2 * n)
        idx = np.where(idx >= n, 2 * n - 1 - idx, idx)
        return np.take(b, idx, axis=ax)
    b = win(a, 1, size)
    sz = (1, size)
    if dim == 2:
        b = win(b, 0, size)
        sz = (size, size)
    w = np.sort(np.lib.stride_tricks.sliding_window_view(b, sz).reshape(a.shape + (-1,)), -1)
    return w[..., w.shape[-1] // 2]


def ranks(s, tol):
    o = np.argsort(s, axis=0, kind="stable")
    v = np.take_along_axis(s, o, 0)
    close = (np.diff(v, axis=0) <= tol)
    r = np.empty_like(o)
    np.put_along_axis(r, o, np.arange(len(s))[:, None] * np.ones((1, s.shape[1]), int), 0)
    # positions whose rank is within rounding of another's
    amb = np.zeros(s.shape, bool)
    c = np.zeros(s.shape, bool)
    c[:-1] |= close
    c[1:] |= close
    np.put_along_axis(amb, o, c, 0)
    return r, v, amb


def f_sort(s, size, dim, tol=0.):
    r, v, amb = ranks(s, tol)
    return np.take_along_axis(medcols(v, size, dim), r, 0), amb


def f_sf(s, size):
    avg = s.mean(0)
    n = len(avg)
    k = np.clip(np.arange(n)[:, None] + np.arange(size)[None] - size // 2, 0, n - 1)
    return s - (avg - avg[k].mean(1))


def f_fw(s, level, wname, sigma, pad):
    import pywt
    nt = len(s)
    nx = nt + nt // 8 if pad else nt
    sh = (nx - nt) // 2
    a = np.zeros((nx, s.shape[1]))
    a[sh:sh + nt] = s
    st = []
    for _ in range(level):
        a, det = pywt.dwt2(a, wname)
        st.append(det)
    for h, v, d in st[::-1]:
        my = len(v)
        k = np.arange(my)
        # frequency index k of the transform, shifted so that k=0 sits at my//2
        y = (2 * ((k + my // 2) % my) - my + 1) / 2
        F = np.exp(-2j * np.pi * np.outer(k, k) / my)
        vf = (F @ v) * (1 - np.exp(-y ** 2 / (2 * sigma ** 2)))[:, None]
        v = (np.conj(F) @ vf / my).real
        a = pywt.idwt2((a[:h.shape[0], :h.shape[1]], (h, v, d)), wname)
    return a[sh:sh + nt, :s.shape[1]]


def f_ti(s, nblock, alpha):
    n = len(s)

    def ring(block, h):
        R = block.shape[1]
        tot = block.sum(1)
        if tot.max() == tot.min():
            return block.copy()
        al = 1 / (2 * (tot.max() - tot.min()))
        D = np.zeros((R - len(h) + 1, R))
        for i in range(len(D)):
            D[i, i:i + len(h)] = h
        A = D.T @ D
        return block + np.linalg.solve(A + al * np.eye(R), -A @ block.mean(0))
    if nblock == 0:
        edges = [0, n]
    else:
        st = n // nblock
        edges = [k * st for k in range(n // st)] + [n]
    P = [np.concatenate([ring(s[a:b], h) for a, b in zip(edges, edges[1:])]) for h in (np.array([1., -1]), np.array([-1., 2, -1]))]
    p = P[0] * P[1]
    return np.sqrt(p + alpha * abs(p.min()))


def f_filter(s, sigma, size, dim):
    n = len(s)
    pad = min(150, int(.1 * n))
    N = n + 2 * pad
    a = np.pad(s, ((pad, pad), (0, 0)), "reflect")
    w = np.exp(-.5 * ((np.arange(N) - (N - 1) / 2) / sigma) ** 2)
    sg = (-1.) ** np.arange(N)
    F = np.exp(-2j * np.pi * np.outer(np.arange(N), np.arange(N)) / N)
    sm = ((np.conj(F) @ ((F @ (a * sg[:, None])) * w[:, None]) / N) * sg[:, None]).real[pad:N - pad]
    c, amb = f_sort(sm, size, dim, 2e-6 * np.abs(sm).max())
    return c + (s - sm), amb


def f_fit(s, order, sigma):
    from scipy.signal import savgol_filter
    n, m = s.shape
    n1 = n - 1 if n % 2 == 0 else n
    fit = savgol_filter(s, n1, min(order, n1 - 1), axis=0, mode="mirror")
    pad = min(150, int(.1 * n))
    a = np.pad(fit, ((0, 0), (pad, pad)), "edge")
    mean = a.mean(0, keepdims=True)
    a = np.concatenate([np.repeat(mean, pad, 0), a, np.repeat(mean, pad, 0)], 0)
    H, W = a.shape
    y, x = np.arange(H) - (H - 1) / 2, np.arange(W) - (W - 1) / 2
    win = np.exp(-(x[None] ** 2 / (2 * sigma[0] ** 2) + y[:, None] ** 2 / (2 * sigma[1] ** 2)))
    sg = (-1.) ** (np.arange(H)[:, None] + np.arange(W)[None])
    b = (np.fft.ifft2(np.fft.fft2(a * sg) * win) * sg).real[pad:H - pad, pad:W - pad]
    if b.mean() != 0:
        b = b * fit.mean() / b.mean()
    z = fit == 0
    q = np.where(z, 0, s / np.where(z, 1, fit)) * b
    return q, np.abs(fit)


def locate(f, snr, mon=None):
    n = len(f)
    srt = np.sort(f)[::-1]
    x = np.arange(n, dtype=float)
    k = int(.25 * n)
    sl, ic = np.polyfit(x[k:-k - 1], srt[k:-k - 1], 1)
    t1 = ic + sl * x[-1]
    nz = max(abs(t1 - ic), 1e-6)
    if nz < 1e-4 * max(1e-3, np.abs(f).max()):
        raise Tie       # the noise level itself is within rounding
    m = np.zeros(n, bool)
    e = 1e-4
    for val, th, up in ((abs(srt[0] - ic) / nz, ic + nz * snr * .5, True), (abs(srt[-1] - t1) / nz, t1 - nz * snr * .5, False)):
        if abs(val - snr) < e * max(snr, 1):
            raise Tie
        if val >= snr:
            if np.min(np.abs(f - th)) < 1e-5 * max(1, abs(th)):
                raise Tie
            m |= (f > th) if up else (f <= th)
    if mon is not None and m.any():
        mon.count("stripes_located", m.sum())
    return m


def dilate(m):
    o = m.copy()
    o[1:] |= m[:-1]
    o[:-1] |= m[1:]
    return o


def profile(s, size, drop):
    drop = min(max(drop, 0), .8)
    n = len(s)
    k = int(.5 * drop * n)
    v = np.sort(s, 0)
    sm = medcols(v, size, 1)
    l1, l2 = v[k:n - k].mean(0), sm[k:n - k].mean(0)
    return np.where(l2 != 0, l1 / np.where(l2 != 0, l2, 1), 1), sm


def f_large(s, snr, size, drop, norm, mon=None):
    fact, sm = profile(s, size, drop)
    m = dilate(locate(fact, snr, mon))
    out = s / np.where(fact == 0, 1, fact) if norm else s.copy()
    r, v, amb = ranks(out, 1e-6 * np.abs(out).max())
    c = np.take_along_axis(sm, r, 0)
    out = out.copy()
    out[:, m] = c[:, m]
    return out, amb & m[None]


def interp(s, m):
    m = m.copy()
    m[:2] = m[-2:] = False
    x = np.arange(s.shape[1])
    out = s.copy()
    if m.any():
        for i in range(len(s)):
            out[i, m] = np.interp(x[m], x[~m], s[i, ~m])
    return out


def f_dead(s, snr, size, norm, mon=None):
    n = len(s)
    idx = np.arange(-5, n + 4) % (2 * n)
    idx = np.where(idx >= n, 2 * n - 1 - idx, idx)
    w = np.lib.stride_tricks.sliding_window_view(s[idx], 10, axis=0).mean(-1)
    d = np.abs(s - w).sum(0)
    b = medcols(d[None], size, 1)[0]
    if np.abs(d).max() < 1e-4 * np.abs(s).max() * n:
        raise Tie       # no fluctuation beyond rounding
    f = np.where(b != 0, d / np.where(b != 0, b, 1), 1)
    out = interp(s, dilate(locate(f, snr, mon)))
    if not norm:
        return out, np.zeros(s.shape, bool)
    return f_large(out, snr, size, .1, True, mon)


def f_interp(s, snr, size, drop, norm, mon=None):
    fact, sm = profile(s, size, drop)
    m = dilate(locate(fact, snr, mon))
    out = s / np.where(fact == 0, 1, fact) if norm else s
    return interp(out, m)


def rough(a):
    p = a.astype(np.float64).mean(0)
    return np.abs(np.diff(p, 2, axis=-1)).max(-1)


def run(p, mon):
    rng = rng_for("c16", p["seed"])
    d = sino(p, rng)
    m, nt, ny, nx = p["m"], p["nt"], p["ny"], p["nx"]
    kw = {}
    size5 = 21 if nx > 2000 else max(5, int(.01 * nx))
    dim = int(pick(rng, [1, 1, 2]))
    size = int(pick(rng, [3, 5, 7, 9]))
    if m == "fw" and rng.random() < .3:
        d = np.where(rng.random(d.shape) < .02, -d, d)
    if m == "ti" and rng.random() < .3:
        d[rng.random(d.shape) < .02] = np.nan
    if m == "fitting":
        d = np.abs(d) + .2 * (p["kind"] != "margin")
    src = d.astype(np.float64)
    tol, frac = 2e-5, 0.0
    if m == "sf":
        size = int(pick(rng, [1, 2, 3, 5, 8, 20]))
        if p["dflt"]:
            size = 5
        else:
            kw["size"] = size
        ref = lambda s: (f_sf(s, size), None)
    elif m == "fw":
        lv = int(rng.integers(1, 4)) if not p["dflt"] else int(np.ceil(np.log2(max(nt, nx))))
        wn, sg, pad = ("db5", 2, True) if p["dflt"] else (pick(rng, ["db5", "haar", "sym5", "db2"]), float(pick(rng, [.5, 1, 2, 4])), bool(rng.integers(2)))
        if not p["dflt"]:
            kw.update(level=lv, wname=wn, sigma=sg, pad=pad)
        ref = lambda s: (f_fw(s, lv, wn, sg, pad), None)
    elif m == "ti":
        nb, al = (0, 1.5) if p["dflt"] else (int(pick(rng, [0, 0, 1, 2, 3, 5])), float(pick(rng, [1.5, 1, 3])))
        if not p["dflt"]:
            kw.update(nblock=nb, alpha=al)
        ref = lambda s: (f_ti(np.nan_to_num(s), nb, al), None)
        tol = 2e-3
    elif m == "sorting":
        if p["dflt"]:
            size, dim = size5, 1
        else:
            kw.update(size=size, dim=dim)
        ref = lambda s: f_sort(s, size, dim)
    elif m == "filtering":
        sg = float(pick(rng, [1, 3, 3, 6]))
        if p["dflt"]:
            size, dim, sg = size5, 1, 3
        else:
            kw.update(size=size, dim=dim, sigma=sg)
        ref = lambda s: f_filter(s, sg, size, dim)
    elif m == "fitting":
        o, sg = (3, (5, 20)) if p["dflt"] else (int(pick(rng, [1, 2, 3, 5])), pick(rng, [(5, 20), (3, 8), (10, 60)]))
        if not p["dflt"]:
            kw.update(order=o, sigma=sg)
        ref = None
    else:
        snr = float(pick(rng, [1.5, 3, 3, 6]))
        drop = float(pick(rng, [0, .1, .3]))
        norm = bool(rng.integers(2))
        size = int(pick(rng, [3, 5, 11, 21, 51]))
        if m in ("large", "interpolation"):
            if p["dflt"]:
                snr, drop, norm, size = 3, .1, True, 51 if m == "large" else 31
            else:
                kw.update(snr=snr, size=size, drop_ratio=drop, norm=norm)
            ref = (lambda s: f_large(s, snr, size, drop, norm, mon)) if m == "large" else (lambda s: (f_interp(s, snr, size, drop, norm, mon), None))
        elif m == "dead":
            if p["dflt"]:
                snr, norm, size = 3, True, 51
            else:
                kw.update(snr=snr, size=size, norm=norm)
            ref = lambda s: f_dead(s, snr, size, norm, mon)
        else:
            sm = int(pick(rng, [3, 5, 9]))
            if p["dflt"]:
                snr, size, sm, dim = 3, 61, 21, 1
            else:
                kw.update(snr=snr, la_size=size, sm_size=sm, dim=dim)

            def ref(s):
                a, amb = f_dead(s, snr, size, True, mon)
                b, amb2 = f_sort(a, sm, dim, 1e-6 * np.abs(a).max())
                if amb.any():
                    raise Tie
                return b, amb2
    r = getattr(tomopy, FUN[m])(d.copy(), ncore=p["ncore"], nchunk=p["nchunk"], **kw)
    mon.ok(r.shape == d.shape, "shape", lambda: f"{m} {r.shape}")
    mon.ok(np.isfinite(r).all(), "finite", lambda: f"{m} {kw}: {(~np.isfinite(r)).sum()} non-finite values")
    for s in range(ny):
        x = src[:, s]
        scale = np.nanmax(np.abs(x))
        try:
            if m == "fitting":
                q, fit = f_fit(x, o, sg)
                # conditioning of the division
                at = 1e-4 * scale + np.abs(q) * 3e-5 * scale / np.where(fit == 0, 1, fit)
                at = np.where((fit != 0) & (fit < 1e-4 * scale), np.inf, at)
                mon.close(r[:, s], q, m, f"{kw} {p['kind']}", rtol=0, atol=at)
            else:
                q, amb = ref(x)
                if amb is not None and amb.any():
                    mon.count("elements_with_ambiguous_order", amb.sum())
                    a = np.where(amb, 0, r[:, s])
                    b = np.where(amb, 0, q)
                    if amb.mean() > .5:
                        raise Tie
                else:
                    a, b = r[:, s], q
                if m == "ti":
                    scale = max(scale, np.abs(q).max())
                    # sqrt amplifies near its zero
                    at = tol * scale + np.minimum(tol * scale * scale / np.maximum(q, 1e-9), np.sqrt(tol) * scale)
                    mon.close(a, b, m, f"{kw}", rtol=0, atol=at)
                else:
                    mon.close(a, b, m, f"{kw} {p['kind']} {p['stripes']}", rtol=0, atol=tol * max(scale, np.abs(b).max()))
            if np.abs(q - np.nan_to_num(x)).max() > 1e-3 * scale:
                mon.sig(m, p["nt"], p["nx"], str(kw), p["kind"], p["stripes"])
        except Tie:
            mon.count("skipped_tie")


def run_const(p, mon):
    rng = rng_for("c16k", p["seed"])
    m = p["m"]
    c = np.float32(pick(rng, [0, 1, 2.5, -3, 1000]))
    if m == "fitting":      # its frequency window is centred for even sizes only
        p = dict(p, nt=p["nt"] + p["nt"] % 2, nx=p["nx"] + p["nx"] % 2)
    d = np.full((p["nt"], p["ny"], p["nx"]), c, np.float32)
    f = getattr(tomopy, FUN[m])
    r = f(d.copy(), ncore=1)
    mon.ok(np.isfinite(r).all(), "finite", lambda: f"{m} constant {c}: non-finite")
    if m == "ti":
        want = np.full_like(d, np.sqrt(c * c * 2.5))
    else:
        want = d
    mon.close(r, want, "constant", f"{m} constant {c}", rtol=0, atol=1e-5 * abs(c) + 1e-12)
    mon.sig(m, float(c), p["nt"], p["nx"])


def run_reduce(p, mon):
    """a clear full stripe on a smooth sinogram is reduced"""
    rng = rng_for("c16r", p["seed"])
    m = p["m"]
    nt, ny, nx = 40 + p["nt"], p["ny"], 48 + p["nx"]
    y = np.linspace(0, 1, nt)[:, None, None]
    x = np.linspace(-1, 1, nx)[None, None]
    a, b = rng.random(2)
    d = 3 + np.cos(2 * x + a + 2 * y) + .5 * b * np.sin(3 * y + x) + np.zeros((1, ny, 1))
    # the noise level of the detector
    d = d + rng.normal(size=d.shape) * .01
    k = int(rng.integers(12, nx - 12))
    e = d.copy()
    w = 1
    if m in ("large",):
        w = int(pick(rng, [1, 2, 3]))
    e[:, :, k:k + w] += float(pick(rng, [-.8, .8, 1.2]))
    if m == "dead":      # fluctuating or dead column
        e = d.copy()
        e[:, :, k] = rng.normal(size=(nt, ny)) * 2 + 3
    kw = {}
    if m == "fw":
        kw = dict(level=4, sigma=1)
    e = e.astype(np.float32)
    r = getattr(tomopy, FUN[m])(e.copy(), ncore=1, **kw)
    if m == "dead":
        v = lambda q: np.abs(q[:, :, k].astype(np.float64) - (q[:, :, k - 3] + q[:, :, k + 3]) / 2).mean(0)
        mon.ok((v(r) < .3 * v(e)).all(), "reduced", lambda: f"{m}: fluctuation {v(e)} -> {v(r)}")
    else:
        def strength(q):
            pr = q.astype(np.float64).mean(0)
            return np.abs(pr[:, k:k + w].mean(-1) - (pr[:, k - 4] + pr[:, k + w + 3]) / 2)
        mon.ok((strength(r) < .75 * strength(e)).all(), "reduced", lambda: f"{m}: stripe {strength(e)} -> {strength(r)}")
    mon.sig(m, nt, nx, k, w)


FAMILIES = [Family("vast", gen_vast, run, 1, 6), Family("wide", gen_wide, run, 120, 600), Family("reference", gen, run, 3000, 15000), Family("constant", gen, run_const, 360, 1800), Family("reduce", gen, run_reduce, 300, 1500)]
