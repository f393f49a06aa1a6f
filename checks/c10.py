from vlib import *
import siddon, reconref as R
tomopy = lazy("tomopy")
ALGS = ["art", "bart", "sirt", "mlem", "osem", "pml_quad", "pml_hybrid", "ospml_quad", "ospml_hybrid", "tv", "grad", "tikh", "vector", "vector2", "vector3"]
POS = {"mlem", "osem", "pml_quad", "pml_hybrid", "ospml_quad", "ospml_hybrid"}
RULE = ("every iterative algorithm on random stacks of 1-3 slices, detector widths 1-14, non-square grids, 1-8 angles in any order and "
        "range (unambiguous ones), scalar and per-slice centers, 1-4 iterations, given and default initial guesses, 1..dt+1 ordered "
        "subsets with permuted projection order, regularisation over 4 decades; each volume is compared pixel by pixel with the "
        "published update in double precision with exact intersection lengths; non-trivial: judged pixels crossed by a ray")
ASSUMPTIONS = ["angles for which single precision cannot decide which pixels a ray touches are not used",
               "pixels crossed by less than 0.01 px in total are not judged"]
REQUIRED = ["pixels_judged"] + ["alg:" + a for a in ALGS]


def gen(rng, i):
    alg = ALGS[i % len(ALGS)]
    dx = int(rng.integers(2, 15))
    dt = int(rng.integers(1, 9))
    if rng.random() < 0.04 and alg not in ("vector2", "vector3", "art"):
        dx = int(rng.integers(24, 48))
    if rng.random() < 0.04:
        dx = 1
    gx, gy = max(dx, 2), max(dx, 2)
    if dx == 1 or rng.random() < 0.45:
        lo = 2 if "pml" in alg or alg == "tv" else 1
        gx, gy = int(rng.integers(lo, 15)), int(rng.integers(lo, 15))
    if alg.startswith("vector"):
        dx = max(dx, 2)
    return dict(alg=alg, dy=int(rng.integers(1, 4)), dt=dt, dx=dx, gx=gx, gy=gy, n=int(rng.integers(1, 5)),
                cen=pick(rng, ["default", "scalar", "varied", "varied"]), init=pick(rng, ["default", "given"]),
                nb=int(pick(rng, [1, 2, 3, dt, dt + 1])), perm=bool(rng.integers(2)),
                sub="none", kind=pick(rng, ["positive", "smooth", "uniform", "consistent"]),
                reg=float(10 ** rng.uniform(-3, 1)), delta=float(10 ** rng.uniform(-2, 1)),
                bb=bool(rng.random() < 0.4), regdata=pick(rng, ["none", "slice", "volume"]),
                wide=pick(rng, ["half", "half", "neg", "wide"]), scale=float(pick(rng, [1, 1, 1, 1e-3, 1e3])))


def run(p, mon):
    rng = rng_for("c10", p["seed"])
    alg = p["alg"]
    vec = alg.startswith("vector")
    dx, dy, dt, gx, gy = p["dx"], p["dy"], p["dt"], p["gx"], p["gy"]
    if vec:
        gx = gy = dx
        if alg != "vector":
            dy = dx = gx = gy = min(dx, 7)
    if p["cen"] == "default":
        cen, cs = None, np.full(dy, dx / 2.0, np.float32)
    elif p["cen"] == "scalar":
        c = np.float32(dx / 2 + rng.uniform(-1.5, 1.5))
        cen, cs = float(c), np.full(dy, c)
    else:
        cs = (dx / 2 + rng.uniform(-1.5, 1.5, dy)).astype(np.float32)
        cen = cs
    lo, hi = dict(half=(0, np.pi), neg=(-2 * np.pi, 0), wide=(-9, 9))[p["wide"]]
    sets = dict(vector2=2, vector3=3).get(alg, 1)
    ths = []
    for k in range(sets):
        th = siddon.clean_angles(rng, dt, None, gx, gy, dx, lo, hi, tries=60, centers=cs)
        if th is None:
            mon.count("skipped_geometry")
            return
        ths.append(rng.permutation(th) if p["perm"] else th)
    mon.count("alg:" + alg)
    mon.sig(alg, dy, dt, dx, gx, gy, p["n"], p["cen"], p["init"], p["nb"], p["kind"])
    sys = {}

    def geom(th, c):
        k = (th.tobytes(), float(c))
        if k not in sys:
            A = siddon.system(th, c, gx, gy, dx)[0]
            A1 = siddon.system(th, c + 3e-3, gx, gy, dx)[0]
            A2 = siddon.system(th, c - 3e-3, gx, gy, dx)[0]
            sys[k] = (A, A1, A2)
        return sys[k]

    if vec:
        return run_vec(p, mon, rng, alg, dy, dt, dx, cen, cs, ths, geom)
    th = ths[0]
    scale = p["scale"] if alg in ("art", "bart", "sirt", "mlem", "osem", "grad") else 1.0
    npix = gx * gy
    init = None
    if p["init"] == "given":
        init = (array(rng, (dy, gx, gy), "positive") * scale).astype(np.float32)
        if alg in ("art", "bart", "sirt", "tv", "grad", "tikh") and rng.random() < 0.5:
            init = (init - np.float32(scale)).astype(np.float32)
    data = np.zeros((dy, dt, dx), np.float32)
    for s in range(dy):
        A = geom(th, cs[s])[0]
        if p["kind"] == "consistent":
            data[s] = A @ (rng.random(npix) * scale)
        else:
            data[s] = array(rng, (dt, dx), p["kind"]) * scale
    if alg not in POS and rng.random() < 0.3:
        data -= np.float32(scale * 0.7)
    if "pml" in alg:
        data = np.maximum(data, np.float32(0.05))       # zero counts make the closed-form root ill-conditioned
    elif alg in POS and rng.random() < 0.3:
        data[rng.random(data.shape) < 0.2] = 0          # photon-starved rays
    kw = dict(num_iter=p["n"])
    if (gx, gy) != (dx, dx):
        kw.update(num_gridx=gx, num_gridy=gy)
    nb = p["nb"] if alg in ("bart", "osem", "ospml_quad", "ospml_hybrid") else 1
    ind = rng.permutation(dt).astype(np.int32) if p["perm"] else np.arange(dt, dtype=np.int32)
    if nb > 1:
        kw.update(num_block=nb, ind_block=ind if rng.random() < 0.5 else list(map(int, ind)))
    blk = R.blocks(dt, nb, ind)
    regd = None
    if "pml" in alg:
        kw["reg_par"] = np.array([p["reg"], p["delta"]], np.float32)
    elif alg == "tv":
        kw["reg_par"] = np.array([p["reg"]], np.float32)
    elif alg in ("grad", "tikh"):
        st = -1.0 if p["bb"] else 0.2 * rng.random() + 0.02
        if p["bb"]:
            kw["num_iter"] = p["n"] = min(p["n"], 3)
        kw["reg_par"] = np.array([st, min(p["reg"], 1.0)], np.float32)
        if alg == "tikh" and p["regdata"] != "none":
            regd = array(rng, (dy, gx, gy), "positive")
            if p["regdata"] == "slice":
                regd[:] = regd[0]
            kw["reg_data"] = regd
    got = np.array(tomopy.recon(data, th, center=cen, sinogram_order=True, algorithm=alg,
                                init_recon=None if init is None else init.copy(), ncore=1, **kw)).astype(np.float64)
    if not mon.ok(got.shape == (dy, gx, gy), "shape", f"{alg}: {got.shape}"):
        return
    rp = kw.get("reg_par")
    for s in range(dy):
        def ref(A, jit=None):
            x = (np.full(npix, np.float32(1e-6)) if init is None else init[s].ravel()).astype(np.float64)
            d = data[s].astype(np.float64)
            n = p["n"]
            if alg == "art":
                return R.art(A, d, x, n)
            if alg in ("bart", "sirt"):
                return R.bart(A, d, x, n, blk)
            if alg in ("mlem", "osem"):
                return R.osem(A, d, x, n, blk)
            if "pml" in alg:
                return R.ospml(A, d, x, n, blk, gx, gy, rp.astype(np.float64), "hybrid" in alg, jit)
            if alg == "tv":
                return R.tv(A, d, x, n, gx, gy, float(rp[0]))
            if alg == "grad":
                return R.grad(A, d, x, n, float(rp[0]), jit=jit)
            return R.grad(A, d, x, n, float(rp[0]), float(rp[1]), 0.0 if regd is None else regd[s].ravel().astype(np.float64), jit=jit)
        A, A1, A2 = geom(th, cs[s])
        want = ref(A)
        canc = R.ospml.cancel * 2e-6 if "pml" in alg else 0.0      # the closed-form root subtracts nearly equal numbers
        # sensitivity to single-precision rounding of the geometry
        sens = np.zeros(npix)
        for t in range(4 if "pml" in alg else 2):
            nr = rng_for("noise", p["seed"], t)
            n = nr.normal(size=A.shape)
            sens = np.maximum(sens, np.nan_to_num(np.abs(ref(A + (A > 0) * n * 2e-6, nr) - want), nan=np.inf))
        judged = np.ones(npix, bool)
        for b in blk:
            if b:
                sd = [B[b].sum((0, 1)) for B in (A, A1, A2)]
                judged &= ((sd[0] > 0.01) & (sd[1] > 0.01) & (sd[2] > 0.01)) | ((sd[0] == 0) & (sd[1] == 0) & (sd[2] == 0))
        if dx == 1 and not judged.all() and p["n"] * len(blk) > 1:      # hardly crossed pixels steer the few others
            mon.count("skipped_illconditioned")
            continue
        sc = float(np.abs(want).max()) + 1e-12
        if not sens.max() + canc < (0.002 if "pml" in alg else 0.05) * sc or not np.isfinite(want).all():
            mon.count("skipped_illconditioned")
            continue
        mon.count("pixels_judged", judged.sum())
        g = got[s].ravel()
        mon.close(np.where(judged, g, 0), np.where(judged, want, 0), "update:" + alg,
                  f"{alg} slice {s} n={p['n']} nb={nb} grid {gx}x{gy} dx {dx} dt {dt}", rtol=0,
                  atol=1e-4 * sc * p["n"] + 30 * sens.max() + canc)
        mon.ok(np.isfinite(g).all(), "finite:" + alg)


def run_vec(p, mon, rng, alg, dy, dt, dx, cen, cs, ths, geom):
    n = p["n"]
    data = [array(rng, (dy, dt, dx), "normal") for _ in ths]
    cens = [cs] * len(ths)
    rads = [np.swapaxes(d, 0, 1) for d in data]
    if alg == "vector":
        got = tomopy.vector(rads[0], ths[0], center=cen, num_iter=n)
        vx, vy = siddon.ray_dir(ths[0])
        for s in range(dy):
            A, A1, A2 = geom(ths[0], cs[s])
            z = np.zeros(dx * dx)
            want = R.vector(A, data[0][s].astype(np.float64), z, z, vx, vy, n)
            pert = R.vector(A + (A > 0) * rng_for("nv", p["seed"]).normal(size=A.shape) * 2e-6, data[0][s].astype(np.float64), z, z, vx, vy, n)
            sd = [B.sum((0, 1)) for B in (A, A1, A2)]
            judged = ((sd[0] > 0.01) & (sd[1] > 0.01) & (sd[2] > 0.01)) | ((sd[0] == 0) & (sd[1] == 0) & (sd[2] == 0))
            sc = max(np.abs(w).max() for w in want) + 1e-12
            sens = max(np.abs(a - b).max() for a, b in zip(want, pert))
            if sens > 0.05 * sc:
                mon.count("skipped_illconditioned")
                continue
            mon.count("pixels_judged", judged.sum() * 2)
            for k in range(2):
                mon.close(np.where(judged, got[k][s].ravel(), 0), np.where(judged, want[k], 0), "update:vector",
                          f"component {k} slice {s}", rtol=0, atol=1e-4 * sc * n + 30 * sens)
        return
    kw = {f"center{k+1}": cen for k in range(len(ths))}
    got = getattr(tomopy, alg)(*rads, *ths, num_iter=n, **kw)
    axes = [1, 2] if alg == "vector2" else [0, 1, 2]
    N = dx
    view = {0: lambda a: a, 1: lambda a: np.transpose(a, (2, 1, 0)), 2: lambda a: np.transpose(a, (1, 2, 0))}
    comp = {0: (0, 1), 1: (1, 2), 2: (0, 2)}

    def ref(noise):
        rec = [np.zeros((N, N, N)) for _ in range(3)]
        jd = np.ones((N, N, N), bool)
        for _ in range(n):
            for k, ax in enumerate(axes):
                a, b = (view[ax](rec[c]) for c in comp[ax])
                vx, vy = siddon.ray_dir(ths[k])
                for s in range(N):
                    A, A1, A2 = geom(ths[k], cs[s])
                    if noise:
                        A = A + (A > 0) * rng_for("nv", p["seed"], k, s).normal(size=A.shape) * 2e-6
                    x1, x2 = R.vector(A, data[k][s].astype(np.float64), a[s].ravel(), b[s].ravel(), vx, vy, 1)
                    a[s], b[s] = x1.reshape(N, N), x2.reshape(N, N)
                    sd = [B.sum((0, 1)) for B in (A, A1, A2)]
                    j = ((sd[0] > 0.01) & (sd[1] > 0.01) & (sd[2] > 0.01)) | ((sd[0] == 0) & (sd[1] == 0) & (sd[2] == 0))
                    view[ax](jd)[s] &= j.reshape(N, N)
        return rec, jd
    want, jd = ref(False)
    pert, _ = ref(True)
    sc = max(np.abs(w).max() for w in want) + 1e-12
    sens = max(np.abs(a - b).max() for a, b in zip(want, pert))
    if sens > 0.05 * sc:
        mon.count("skipped_illconditioned")
        return
    mon.count("pixels_judged", jd.sum() * 3)
    for k in range(3):
        mon.close(np.where(jd, got[k], 0), np.where(jd, want[k], 0), "update:" + alg, f"component {k}", rtol=0, atol=1e-4 * sc * n + 30 * sens)


FAMILIES = [Family("updates", gen, run, 9600, 48000)]
