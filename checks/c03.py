from vlib import *
import catalog
NOWORKERS = {"vector", "vector2", "vector3", "distortion_correction_sino", "adjust_range", "median_filter_nonfinite", "downsample", "upsample", "sino_360_to_180", "trim_sinogram",
             "scale", "shift_images", "add_jitter", "add_noise", "blur_edges", "add_drift", "add_gaussian", "add_poisson", "add_rings", "add_salt_pepper", "add_zingers", "find_center_pc", "find_center"}
NAMES = [n for n in catalog.NAMES if n not in NOWORKERS]
RULE = ("every public function with a worker count or chunk size (all 14 reconstructions, projections, normalisations, stripe and ring removal, filters, "
        "inpainting, detection, padding, centre search) on random small data and options, including per-slice centers and regularisation volumes; the result with "
        "one worker is compared bit for bit with the results for random (workers, chunk) pairs incl. more workers than slices and chunks that do not divide, under the thread-limit variable and the host-only debug mode; "
        "non-trivial: the pair splits the data differently from the base run")
ASSUMPTIONS = ["chunk size 0 and worker count 0 are not admissible values", "random inpainting is only required to keep shape and unmasked voxels"]
VAR = 4


def gen(rng, i):
    return dict(name=NAMES[i % len(NAMES)])


def run(p, mon):
    rng = rng_for("c03", p["seed"])
    c = catalog.make(p["name"], rng)
    if c.slc:
        a = list(c.slc)[0]
        n = c.arrs[a].shape[c.slc[a]]
    else:
        n = max(list(c.arrs.values())[0].shape)
    base = catalog.res(c.run(c.fresh(), ncore=1))
    mon.count("fn:" + c.name)
    for v in range(VAR):
        over = dict(ncore=pick(rng, [1, 2, 3, 4, n, n + 3, None]))
        if c.nchunk:
            over["nchunk"] = pick(rng, [None, 1, 2, 3, max(1, n - 1), n, n + 5])
        if over["ncore"] is None and rng.random() < .5:
            over.pop("ncore")
        # the documented ways to limit the parallelism from outside
        lim = pick(rng, [None, None, None, "env", "debug"])
        import tomopy
        try:
            if lim == "env":
                os.environ["TOMOPY_PYTHON_THREADS"] = str(int(rng.integers(1, 4)))
            elif lim == "debug":
                tomopy.set_debug(True)
            got = catalog.res(c.run(c.fresh(), **over))
        finally:
            os.environ.pop("TOMOPY_PYTHON_THREADS", None)
            tomopy.set_debug(False)
        mon.ok(len(got) == len(base), "outputs")
        for g, b in zip(got, base):
            msg = f"{c.name} {over} {lim} vs one worker; {c.kw}"
            if c.exact:
                mon.equal(g, b, "partition", msg)
            elif c.name.startswith("inpaint"):
                mon.ok(g.shape == b.shape and np.array_equal(g[~c.arrs["mask"]], b[~c.arrs["mask"]]), "partition-random", msg)
            else:
                mon.close(g, b, "partition-rounding", msg, rtol=2e-5)
        if n > 1:
            mon.sig(c.name, over.get("ncore"), over.get("nchunk"), n)


NW = len(NAMES)
FAMILIES = [Family("partition", gen, run, 32 * NW, 160 * NW, timeout=120)]
REQUIRED = ["monitor:partition", "monitor:partition-rounding", "monitor:partition-random"] + ["fn:recon:" + a for a in catalog.ALGS]
