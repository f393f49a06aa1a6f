from vlib import *
import os, hashlib, shutil, tempfile
npmath = lazy("tomopy.misc.npmath")
misc = lazy("tomopy.util.misc")
RULE = ("'tiff': random histories of image writes (2D and 3D arrays of the usual detector types and layouts, names with and without extension, numbers, new and existing folders, overwriting) in a scratch folder; after every write the "
        "whole folder is compared with a model of what it must hold (names, shape, type and every pixel of every file); 'cdf','gauss','affine': the numeric helpers against their definitions on random data; non-trivial: a file or value compared")
REQUIRED = ["monitor:file-set", "monitor:file-data", "monitor:cdf", "monitor:gauss", "monitor:affine", "overwrites"]
ASSUMPTIONS = ["file names end in a dot and the extension, or not in the extension at all"]


def gen(rng, i):
    return dict(n=int(rng.integers(2, 9)))


def run_tiff(p, mon):
    import tifffile
    rng = rng_for("c27t", p["seed"])
    root = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    cwd = os.getcwd()
    try:
        model = {}
        with open(os.path.join(root, "keep.txt"), "w") as f:
            f.write("x")
        model["keep.txt"] = "x"
        for _ in range(p["n"]):
            dt = pick(rng, ["f4", "f8", "u2", "i2", "u1", "i4", "u4"])
            shape = tuple(int(x) for x in rng.integers(1, 20, int(pick(rng, [2, 2, 3]))))
            a = rng.normal(size=shape) * 100 if dt[0] == "f" else rng.integers(0, 100, shape)
            a = a.astype(dt)
            b = pick(rng, [a, np.asfortranarray(a), np.repeat(a, 2, axis=-1)[..., ::2]])
            name = pick(rng, ["a", "b.v2", "sub/a", "sub/deep/c", "a.tiff", "sub/a.tiff", "d.tif"])
            kw = {}
            target = name
            if rng.random() < .4:
                digit = pick(rng, [0, 1, 7, 12, "003", "7.25"])
                kw["digit"] = digit
                target = f"{name}/{digit}" if not name.endswith("tiff") else None
                if target is None:
                    name = "seq"
                    target = f"seq/{digit}"
            ext = "tiff"
            if rng.random() < .3:
                ext = kw["ext"] = "tif"
            if not target.endswith(ext):
                target += "." + ext
            # a file cannot become a folder
            parts = target.split("/")
            if any("/".join(parts[:k]) in model for k in range(1, len(parts))) or any(k.startswith(target + "/") for k in model):
                continue
            if target in model:
                mon.count("overwrites")
            if rng.random() < .3:
                os.chdir(root)
                full = name
            else:
                full = os.path.join(root, name)
            before = b.copy()
            misc.write_tiff(b, fname=full, **kw) if rng.random() < .5 else misc.write_tiff(b, full, **kw)
            os.chdir(cwd)
            mon.ok(np.array_equal(b, before), "file-data", "the written array changed")
            model[target] = a
            found = {}
            for d, _, fs in os.walk(root):
                for f in fs:
                    found[os.path.relpath(os.path.join(d, f), root)] = os.path.join(d, f)
            if mon.ok(set(found) == set(model), "file-set", lambda: f"wrote {name} {kw}: files {sorted(found)} expected {sorted(model)}"):
                for k, v in model.items():
                    if isinstance(v, str):
                        mon.ok(open(found[k]).read() == v, "file-data", k)
                        continue
                    g = tifffile.imread(found[k])
                    mon.ok(g.dtype == v.dtype and g.size == v.size and np.array_equal(g.reshape(v.shape), v) and [x for x in g.shape if x > 1] == [x for x in v.shape if x > 1],
                           "file-data", lambda: f"{k}: {g.shape} {g.dtype} written {v.shape} {v.dtype}")
                mon.sig(target, shape, dt)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def run_cdf(p, mon):
    rng = rng_for("c27c", p["seed"])
    n = int(pick(rng, [0, 1, 2, 3, int(rng.integers(2, 200))]))
    d = rng.normal(size=n) if rng.random() < .6 else rng.integers(0, 6, n).astype(float)
    d0 = d.copy()
    steps = pick(rng, [None, None, 1, 2, int(rng.integers(1, 50)), 1000])
    x, y = npmath.discrete_cdf(d, steps=steps) if rng.random() < .7 else npmath.discrete_cdf(d, steps)
    x, y = np.asarray(x), np.asarray(y)
    mon.ok(np.array_equal(d, d0), "cdf", "data changed")
    if n == 0:
        mon.ok(len(x) == 0 and len(y) == 0, "cdf", "empty data")
        return
    mon.ok(len(x) == len(y) and np.isfinite(y).all() and (np.diff(x) >= 0).all() and (np.diff(y) >= -1e-12).all() and y.min() >= 0 and y.max() <= 1 + 1e-9, "cdf",
           lambda: f"{n} values, steps {steps}: not a distribution function, y from {y.min()} to {y.max()}")
    if steps is None or n <= steps:
        # the corners of the empirical distribution function
        s = np.sort(d)
        mon.close(x, np.repeat(s, 2), "cdf", "abscissae", rtol=0, atol=0)
        mon.close(y, np.stack([np.arange(n), np.arange(1, n + 1)], 1).ravel() / n, "cdf", f"{n} values", rtol=0, atol=1e-12)
    else:
        mon.ok(len(x) <= 2 * steps and np.isin(x, d).all() and x[0] == d.min() and abs(y[0]) < 1e-12 and abs(y[-1] - 1) < 1e-9, "cdf", f"{n} values reduced to {steps}: {len(x)} points, y from {y[0]} to {y[-1]}")
    mon.sig("cdf", n, steps)


def run_gauss(p, mon):
    import math
    rng = rng_for("c27g", p["seed"])
    A, mu, sg = float(rng.normal() * 10), float(rng.normal() * 20), float(rng.uniform(.1, 20) * pick(rng, [1, -1]))
    x = rng.normal(size=30) * 30
    y = npmath.gauss1d(x, A, mu, sg)
    mon.close(y, [A * math.exp(-.5 * ((v - mu) / sg) ** 2) for v in x], "gauss", f"{A} {mu} {sg}", rtol=0, atol=1e-12 * abs(A) + 1e-300)
    mon.sig("gauss", round(A), round(mu))


def run_affine(p, mon):
    rng = rng_for("c27a", p["seed"])
    n = int(rng.integers(3, 20))
    s = rng.normal(size=(n, 2)) * 30
    M = np.eye(3)
    M[:2] = rng.normal(size=(2, 3)) * [1, 1, 20]
    t = s @ M[:2, :2].T + M[:2, 2]
    s0, t0 = s.copy(), t.copy()
    sv = np.linalg.svd(np.hstack([s, np.ones((n, 1))]), compute_uv=False)
    if sv[-1] < 1e-3 * sv[0]:
        return
    F = npmath.calc_affine_transform(s, t)
    mon.close(F, M, "affine", "exact markers", rtol=0, atol=1e-7 * np.abs(M).max() * sv[0] / sv[-1])
    mon.ok(np.array_equal(s, s0) and np.array_equal(t, t0), "affine", "markers changed")
    if n > 3:       # noisy markers: least squares
        t = t + rng.normal(size=t.shape)
        F = npmath.calc_affine_transform(s, t)
        X = np.hstack([s, np.ones((n, 1))])
        ref = np.linalg.solve(X.T @ X, X.T @ np.hstack([t, np.ones((n, 1))])).T
        mon.close(F, ref, "affine", "noisy markers", rtol=0, atol=1e-7 * np.abs(ref).max() * (sv[0] / sv[-1]) ** 2)
    mon.sig("affine", n)


FAMILIES = [Family("tiff", gen, run_tiff, 5760, 28800), Family("cdf", gen, run_cdf, 9600, 48000), Family("gauss", gen, run_gauss, 2880, 14400), Family("affine", gen, run_affine, 3840, 19200)]
