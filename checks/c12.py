from vlib import *
import siddon, reconref as R
tomopy = lazy("tomopy")
COMP = ["art", "bart", "sirt", "mlem", "osem", "pml_quad", "pml_hybrid", "ospml_quad", "ospml_hybrid", "grad", "tikh"]
ALL = COMP + ["tv"]
RULE = ("random consistent and inconsistent data (widths 2-24, non-square grids, 1-8 angles, 1-3 slices, per-slice centers, ordered subsets); "
        "each history of iterations is observed step by step: splitting it anywhere must not matter, zero iterations and exactly "
        "explained data must not move the image, and sign, counts, likelihood, misfit and distance-to-solution monitors run over "
        "every step; non-trivial: the image changed between observations")
REQUIRED = ["monitor:compose", "monitor:zero-iter", "monitor:fixed-point", "monitor:nonneg", "monitor:counts", "monitor:likelihood", "monitor:misfit", "monitor:kaczmarz"]
ASSUMPTIONS = ["penalised likelihood roots may be negative by the rounding of their closed form"]


def gen(rng, i):
    dx = int(rng.integers(2, 25))
    gx = gy = dx
    if rng.random() < 0.4:
        gx, gy = int(rng.integers(2, 25)), int(rng.integers(2, 25))
    return dict(alg=ALL[i % len(ALL)], dx=dx, gx=gx, gy=gy, dt=int(rng.integers(1, 9)), dy=int(rng.integers(1, 4)),
                n=int(rng.integers(1, 5)), m=int(rng.integers(1, 5)), nb=int(pick(rng, [1, 2, 3, 5])), var=bool(rng.integers(2)),
                init=bool(rng.integers(2)), kind=pick(rng, ["positive", "uniform", "counts", "smooth"]))


def setup(p, tag):
    rng = rng_for(tag, p["seed"])
    dx, dy, dt = p["dx"], p["dy"], p["dt"]
    cs = (dx / 2 + (rng.uniform(-1, 1, dy) if p["var"] else np.full(dy, rng.uniform(-1, 1)))).astype(np.float32)
    th = rng.uniform(0, np.pi, dt).astype(np.float32)
    kw = dict(center=cs, sinogram_order=True, num_gridx=p["gx"], num_gridy=p["gy"], ncore=1)
    if p["alg"] in ("bart", "osem", "ospml_quad", "ospml_hybrid"):
        kw.update(num_block=min(p["nb"], dt), ind_block=rng.permutation(dt).astype(np.int32))
    if "pml" in p["alg"]:
        kw["reg_par"] = np.array([10 ** rng.uniform(-2, 0), 10 ** rng.uniform(-1, 1)], np.float32)
    if p["alg"] == "tv":
        kw["reg_par"] = np.array([10 ** rng.uniform(-3, 0)], np.float32)
    if p["alg"] in ("grad", "tikh"):
        kw["reg_par"] = np.array([rng.uniform(0.01, 0.2), rng.uniform(0, 0.5)], np.float32)
        if p["alg"] == "tikh":
            kw["reg_data"] = array(rng, (dy, p["gx"], p["gy"]), "uniform")
    return rng, th, cs, kw


def run_compose(p, mon):
    rng, th, cs, kw = setup(p, "c12c")
    alg = p["alg"]
    data = array(rng, (p["dy"], p["dt"], p["dx"]), p["kind"])
    if "pml" in alg:
        data = data + np.float32(0.05)
    x0 = array(rng, (p["dy"], p["gx"], p["gy"]), "positive")
    init = x0.copy() if p["init"] else None
    cp = lambda a: None if a is None else a.copy()
    z = np.array(tomopy.recon(data, th, algorithm=alg, num_iter=0, init_recon=cp(init), **kw))
    want = x0 if init is not None else np.full(x0.shape, 1e-6, np.float32)
    mon.close(z, want, "zero-iter", alg, rtol=0, atol=3e-7 * np.abs(want))
    a = np.array(tomopy.recon(data, th, algorithm=alg, num_iter=p["n"], init_recon=cp(init), **kw))
    if alg == "tv":
        return
    b = np.array(tomopy.recon(data, th, algorithm=alg, num_iter=p["m"], init_recon=a.copy(), **kw))
    c = np.array(tomopy.recon(data, th, algorithm=alg, num_iter=p["n"] + p["m"], init_recon=cp(init), **kw))
    if not np.isfinite(c).all():
        mon.count("skipped_nonfinite")
        return
    if alg in ("grad", "tikh"):
        mon.close(b, c, "compose", f"{alg} {p['n']}+{p['m']}", rtol=2e-4)
    else:
        mon.close(b, c, "compose", f"{alg} {p['n']}+{p['m']}", rtol=1e-5)
    if not np.array_equal(a, c):
        mon.sig(alg, p["dx"], p["gx"], p["gy"], p["n"], p["m"], p["nb"])


def clean(p, rng, cs):
    return siddon.clean_angles(rng, p["dt"], None, p["gx"], p["gy"], p["dx"], tries=40, centers=cs)


def run_fixed(p, mon):
    algs = ["art", "bart", "sirt", "mlem", "osem", "grad", "gradbb"]
    alg = algs[p["seed"] % len(algs)]
    p = dict(p, alg=alg.replace("bb", ""))
    rng, th, cs, kw = setup(p, "c12f")
    th = clean(p, rng, cs)
    if th is None:
        mon.count("skipped_geometry")
        return
    if alg == "gradbb":
        kw["reg_par"] = np.array([-1], np.float32)
    x = array(rng, (p["dy"], p["gx"], p["gy"]), "positive")
    data = np.zeros((p["dy"], p["dt"], p["dx"]), np.float32)
    for s in range(p["dy"]):
        data[s] = siddon.system(th, cs[s], p["gx"], p["gy"], p["dx"])[0] @ x[s].ravel().astype(np.float64)
    n = 1 if alg == "gradbb" else p["n"]
    got = np.array(tomopy.recon(data, th, algorithm=p["alg"], num_iter=n, init_recon=x.copy(), **kw))
    mon.close(got, x, "fixed-point", f"{alg} n={n}", rtol=0, atol=2e-3 * n)
    mon.sig("fixed", alg, p["dx"], p["gx"], p["gy"], p["dt"])
    # nothing to explain, nothing there: stays nothing
    zero = np.zeros_like(x)
    if alg not in ("mlem", "osem"):
        z = np.array(tomopy.recon(np.zeros_like(data), th, algorithm=p["alg"], num_iter=p["n"], init_recon=zero, **kw))
        mon.equal(z, np.zeros_like(x), "fixed-point", f"{alg} zero data")


def run_like(p, mon):
    alg = ["mlem", "osem", "pml_quad", "pml_hybrid", "ospml_quad", "ospml_hybrid"][p["seed"] % 6]
    p = dict(p, alg=alg)
    rng, th, cs, kw = setup(p, "c12l")
    data = array(rng, (p["dy"], p["dt"], p["dx"]), "positive")
    if alg in ("mlem", "osem") and rng.random() < 0.4:
        data[rng.random(data.shape) < 0.3] = 0
    if alg == "mlem":
        t2 = clean(p, rng, cs)
        if t2 is None:
            mon.count("skipped_geometry")
            return
        th = t2
    x = array(rng, (p["dy"], p["gx"], p["gy"]), "positive") if p["init"] else None
    hist = []
    for it in range(5):
        y = np.array(tomopy.recon(data, th, algorithm=alg, num_iter=1, init_recon=None if x is None else x.copy(), **kw))
        if not np.isfinite(y).all():
            if alg in ("mlem", "osem"):
                # rays whose pixels all vanished divide zero by zero: outside the domain
                mon.count("skipped_nonfinite")
            return
        mx = float(np.abs(y).max())
        tol = 0.0 if alg in ("mlem", "osem") else 2e-2 * mx
        mon.ok(y.min() >= -tol, "nonneg", lambda: f"{alg} iteration {it}: min {y.min()}")
        if alg == "mlem":
            for s in range(p["dy"]):
                A = siddon.system(th, cs[s], p["gx"], p["gy"], p["dx"])[0]
                M = A.reshape(-1, p["gx"] * p["gy"])
                hit = M.sum(1) > 0
                d = data[s].ravel().astype(np.float64)[hit]
                M = M[hit]
                if not len(d):
                    continue
                prev = (np.full(M.shape[1], 1e-6) if x is None else x[s].ravel()).astype(np.float64)
                cur = y[s].ravel().astype(np.float64)
                if np.any((d > 0) & (M @ cur <= 0)):
                    continue
                L = lambda v: float(np.sum(np.where(d > 0, d * np.log(np.maximum(M @ v, 1e-300)), 0) - M @ v))
                sd = M.sum(0)
                mon.close(np.array([sd @ cur]), np.array([d.sum()]), "counts", f"slice {s} iteration {it}", rtol=2e-3, atol=1e-6)
                if it > 0 or p["init"]:
                    a, b = L(prev), L(cur)
                    mon.ok(b >= a - 1e-4 * (np.abs(d).sum() + abs(a) * 0.1) - 1e-6, "likelihood", lambda: f"slice {s} iteration {it}: {a} -> {b}")
                mon.sig("mlem", p["dx"], p["gx"], p["gy"], it, s)
        x = y


def run_misfit(p, mon):
    rng, th, cs, kw = setup(dict(p, alg="grad"), "c12m")
    p = dict(p, alg="grad")
    th = clean(p, rng, cs)
    if th is None:
        mon.count("skipped_geometry")
        return
    dy, dt, dx = p["dy"], p["dt"], p["dx"]
    x = array(rng, (dy, p["gx"], p["gy"]), "normal")
    data = array(rng, (dy, dt, dx), "normal")
    sys = [siddon.system(th, c, p["gx"], p["gy"], dx)[0].reshape(-1, p["gx"] * p["gy"]) for c in cs]
    r2 = 1 / (dx * dt / 2.0)
    lip = max(np.linalg.norm(M, 2) ** 2 for M in sys) * r2
    if lip == 0:
        return
    step = rng.uniform(0.1, 0.9) / lip
    kw["reg_par"] = np.array([step], np.float32)
    prev = None
    for it in range(5):
        f = np.array([np.sum((M @ x[s].ravel().astype(np.float64) - data[s].ravel()) ** 2) for s, M in enumerate(sys)])
        if prev is not None:
            mon.ok(np.all(f <= prev * (1 + 1e-4) + 1e-6), "misfit", lambda: f"iteration {it}: {prev} -> {f} (step {step:.3g})")
            mon.ok(np.all(f < prev * (1 - 1e-7)) or np.all(prev - f < 1e-2 * prev), "descends")
        prev = f
        x = np.array(tomopy.recon(data, th, algorithm="grad", num_iter=1, init_recon=x, **kw))
    mon.sig("grad", dx, p["gx"], p["gy"], dt)
    # Kaczmarz: distance to any solution never grows
    t = array(rng, (dy, p["gx"], p["gy"]), "normal")
    cons = np.stack([(M @ t[s].ravel().astype(np.float64)).reshape(dt, dx) for s, M in enumerate(sys)]).astype(np.float32)
    kw.pop("reg_par")
    x = array(rng, t.shape, "normal")
    prev = None
    for it in range(4):
        e = np.sqrt(np.sum((x.astype(np.float64) - t) ** 2, (1, 2)))
        if prev is not None:
            mon.ok(np.all(e <= prev * (1 + 1e-3) + 1e-4), "kaczmarz", lambda: f"art iteration {it}: distance to the solution {prev} -> {e}")
        prev = e
        x = np.array(tomopy.recon(cons, th, algorithm="art", num_iter=1, init_recon=x, **kw))
    mon.sig("art", dx, p["gx"], p["gy"], dt)


FAMILIES = [Family("compose", gen, run_compose, 10800, 54000), Family("fixed", gen, run_fixed, 6300, 31500),
            Family("likelihood", gen, run_like, 3600, 18000), Family("misfit", gen, run_misfit, 2400, 12000)]
