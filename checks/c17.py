from vlib import *
tomopy = lazy("tomopy")
RULE = ("random stacks (1-5 projections, odd and even sizes 1-40, random physical parameters and distances giving pads from 0 to several image "
        "widths, worker counts and chunks); every projection is compared with the padded Paganin filter in double precision; constants, "
        "linearity and independence are monitored on the same calls; non-trivial: the filter changed the projection")
REQUIRED = ["monitor:paganin", "monitor:constant", "monitor:linear"]


def gen(rng, i):
    return dict(nt=int(rng.integers(1, 6)), ny=int(pick(rng, [2, 3, 8, int(rng.integers(2, 40)), int(rng.integers(2, 40))])), nx=int(pick(rng, [2, 5, 16, int(rng.integers(2, 40)), int(rng.integers(2, 40))])),
                px=float(10 ** rng.uniform(-4.3, -3)), dist=float(10 ** rng.uniform(-1, 2)), en=float(rng.uniform(8, 60)), al=float(10 ** rng.uniform(-4, -1)),
                pad=bool(rng.integers(2)), kind=pick(rng, ["normal", "positive", "smooth", "sparse", "counts"]), ncore=int(pick(rng, [1, 1, 2, 4])), nchunk=pick(rng, [None, 1, 2, 3]),
                dflt=bool(rng.random() < .2))


def reference(t, px, dist, en, al, pad):
    nt, ny, nx = t.shape
    lam = 2 * 3.14159265359 * 6.58211928e-19 * 299792458e+2 / en
    P = []
    for n in (ny, nx):
        extra = np.ceil(3.14159265359 * lam * dist / px ** 2)
        P.append(int((2 ** np.ceil(np.log2(n + extra)) - n) * .5) if pad else 0)
    a = np.pad(t, ((0, 0), (P[0], P[0]), (P[1], P[1])), "edge")
    c = []
    for n in a.shape[1:]:
        f = (np.arange(n) - (n - 1) / 2) / ((n - 1) * px)
        h = n // 2                          # the coordinate of frequency index k, zero (or the first half step) at k = 0
        c.append(np.concatenate([f[h:], f[:h]]) ** 2)
    w2 = c[0][:, None] + c[1][None]
    H = 1 / (lam * dist * w2 / (4 * 3.14159265359) + al)
    r = np.fft.ifft2(np.fft.fft2(a) * (H / H.max())).real
    return r[:, P[0]:P[0] + ny, P[1]:P[1] + nx], P


def run(p, mon):
    rng = rng_for("c17", p["seed"])
    t = array(rng, (p["nt"], p["ny"], p["nx"]), p["kind"])
    kw = dict(ncore=p["ncore"], nchunk=p["nchunk"])
    a = (p["px"], p["dist"], p["en"], p["al"], p["pad"])
    if p["dflt"]:
        a = (1e-4, 50, 20, 1e-3, True)
    else:
        kw.update(pixel_size=a[0], dist=a[1], energy=a[2], alpha=a[3], pad=a[4])
    ref, P = reference(t.astype(np.float64), *a)
    if (t.shape[1] + 2 * P[0]) * (t.shape[2] + 2 * P[1]) > 400000:
        mon.count("skipped_large")
        return
    r = tomopy.retrieve_phase(t.copy(), **kw)
    sc = float(np.abs(t).max())
    mon.ok(r.shape == t.shape, "shape", str(r.shape))
    mon.close(r, ref, "paganin", f"{t.shape} {a} pads {P}", rtol=0, atol=3e-5 * sc)
    c = np.float32(pick(rng, [1, 2.5, -3, 100]))
    k = tomopy.retrieve_phase(np.full(t.shape, c, np.float32), **kw)
    mon.close(k, np.full(t.shape, c), "constant", f"{t.shape} {a} pads {P}", rtol=3e-5)
    u = array(rng, t.shape, "normal")
    x = tomopy.retrieve_phase(u, **kw)
    y = tomopy.retrieve_phase(t * np.float32(2) + u, **kw)
    mon.close(y, 2. * r + x, "linear", f"{a}", rtol=0, atol=5e-5 * (2 * sc + np.abs(u).max()))
    if np.abs(ref - t).max() > 1e-3 * sc:
        mon.sig(t.shape, P, p["kind"], a[4])
    mon.count("padded_calls" if P != [0, 0] else "unpadded_calls")


FAMILIES = [Family("paganin", gen, run, 1400, 7000)]
