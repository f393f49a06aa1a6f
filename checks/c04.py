from vlib import *
import catalog
RULE = ("every reconstruction and every per-slice correction on random stacks of 1-13 slices with random options; each stack is also run slice by slice, permuted, as a "
        "sub-stack, and with one slice replaced by NaN, infinity, huge or other values; outputs must follow their slices; non-trivial: more than one slice")
ASSUMPTIONS = ["gridrec transforms pairs of slices together: finite data only, 2e-5 of the stack maximum", "tolerance 1e-5 of the slice's own maximum elsewhere",
               "Titarenko's solver is not run with infinite neighbours (its conjugate gradient does not terminate on them, also for one slice alone)"]
NOSLICES = {"vector2", "vector3", "median_filter3d", "remove_outlier3d", "stripes_detect3d", "stripes_mask3d", "scale", "shift_images", "add_jitter", "add_noise", "add_drift", "add_gaussian",
            "add_poisson", "add_rings", "add_salt_pepper", "add_zingers", "find_center_vo", "find_center_pc", "find_center", "enhance_projs_aps_1id"}
NAMES = [n for n in catalog.NAMES if n not in NOSLICES]


def gen(rng, i):
    return dict(name=NAMES[i % len(NAMES)])


def take(c, idx, arrs=None):
    out = dict(c.fresh() if arrs is None else arrs)
    for k, ax in c.slc.items():
        out[k] = np.ascontiguousarray(np.take(out[k], idx, axis=ax))
    return out


def run(p, mon):
    rng = rng_for("c04", p["seed"])
    for _ in range(20):
        c = catalog.make(p["name"], rng)
        if c.slc and c.arrs[list(c.slc)[0]].shape[c.slc[list(c.slc)[0]]] > 1:
            break
    if not c.slc:
        return
    k0 = list(c.slc)[0]
    n = c.arrs[k0].shape[c.slc[k0]]
    over = {}
    if c.ncore:
        over["ncore"] = int(pick(rng, [1, 1, 1, 2, 3]))
    if c.nchunk:
        over["nchunk"] = pick(rng, [None, None, 1, 2, n])
    base = catalog.res(c.run(c.fresh(), **over))
    mon.count("fn:" + c.name)
    grid = c.name == "recon:gridrec"

    def cmp(got, idx, key, msg, skip=()):
        for g, b in zip(got, base):
            for j, i in enumerate(idx):
                if i in skip:
                    continue
                bb, gg = np.take(b, i, axis=c.out_ax), np.take(g, j, axis=c.out_ax)
                f = np.isfinite(bb)
                sc = float(np.abs(bb[f]).max()) if f.any() else 1.
                if grid:
                    sc = float(np.abs(b).max())
                if not mon.close(gg, bb, key, f"{c.name} slice {i} of {n}: {msg}; {c.kw} {over}", rtol=2e-5 if grid else 1e-5, scale=sc):
                    return
    if n == 1:
        return
    for i in range(n) if n < 5 else [0, 1, n // 2, n - 1]:
        cmp(catalog.res(c.run(take(c, [i]), **over)), [i], "alone", "processed alone")
    perm = [int(x) for x in rng.permutation(n)]
    cmp(catalog.res(c.run(take(c, perm), **over)), perm, "permuted", f"order {perm}")
    idx = sorted(int(x) for x in rng.choice(n, int(rng.integers(1, n)), replace=False))
    cmp(catalog.res(c.run(take(c, idx), **over)), idx, "substack", f"of {idx}")
    kinds = ["other"]
    if not grid:
        kinds += ["nan", "huge"] + (["inf"] if p["name"] != "remove_stripe_ti" else [])
    for kind in kinds:
        k = int(rng.integers(n))
        a = c.fresh()
        for q, ax in c.slc.items():
            if a[q].ndim == 3 and a[q].dtype.kind == "f" and not q.startswith(("flat", "dark")):
                v = np.moveaxis(a[q], ax, 0)
                v[k] = {"nan": np.nan, "inf": np.inf, "huge": 1e30, "other": 0}[kind]
                if kind == "other":
                    v[k] = rng.random(v[k].shape) * 3 + .1
        try:
            got = catalog.res(c.run(a, **over))
        except Exception as e:       # refusing a bad slice is allowed, contaminating others is not
            mon.count("refused:" + type(e).__name__)
            if kind == "other":
                raise
            continue
        cmp(got, list(range(n)), "neighbour-" + kind, f"with slice {k} {kind}", skip=(k,))
    mon.sig(c.name, n, k, over)


NW = len(NAMES)
FAMILIES = [Family("slices", gen, run, 32 * NW, 160 * NW, timeout=120)]
REQUIRED = ["monitor:alone", "monitor:permuted", "monitor:substack", "monitor:neighbour-nan", "monitor:neighbour-inf", "monitor:neighbour-other"] + ["fn:recon:" + a for a in catalog.ALGS]
