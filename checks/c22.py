from vlib import *
import catalog, inspect
tomopy = lazy("tomopy")
RULE = ("'options': every algorithm crossed with every option name of any algorithm and made-up ones: accepted exactly when the documented table lists it, otherwise an exception before any compiled kernel runs; 'requests': wrong algorithm names and types, numbers of angles, centers, "
        "initial guesses, block orders, too short parameter lists; 'others': the invalid arguments documented for the other functions, and neighbouring valid ones; 'defaults': a call leaving options out equals the call spelling out the documented defaults, a positional call in the "
        "documented order equals the keyword call; 'callable': user-supplied algorithms receive each slice once with the documented arguments; 'hostile': every function with wrong types, shapes and values of its arguments under AddressSanitizer/UBSan: it returns or raises, it never touches foreign memory or ends the process; non-trivial: a request was answered")
ASSUMPTIONS = ["default values and argument order are those of the documented signatures at the pinned commit"]
REQUIRED = ["monitor:" + k for k in ("accepts", "rejects", "no-kernel", "rejects-request", "rejects-other", "accepts-other", "default", "positional", "recon-default", "callable", "hostile")] + ["hostile-rejected"]
ALGS = catalog.ALGS
G = ["num_gridx", "num_gridy"]
OS = ["num_iter", "num_block", "ind_block"]
ACC = ["accelerated", "pool_size", "interpolation", "device", "grid_size", "block_size"]
TABLE = dict(art=G + ["num_iter"], bart=G + OS, fbp=G + ["filter_name", "filter_par"], gridrec=G + ["filter_name", "filter_par"], mlem=G + ["num_iter"] + ACC, osem=G + OS, ospml_hybrid=G + OS + ["reg_par"],
             ospml_quad=G + OS + ["reg_par"], pml_hybrid=G + ["num_iter", "reg_par"], pml_quad=G + ["num_iter", "reg_par"], sirt=G + ["num_iter"] + ACC, tv=G + ["num_iter", "reg_par"], grad=G + ["num_iter", "reg_par"],
             tikh=G + ["num_iter", "reg_data", "reg_par"])
BOGUS = ["options", "numiter", "filter", "reg", "num_iters", "alpha", "centre", "Num_iter", "", "mask", "lamino_angle"]
NAMES = sorted({o for v in TABLE.values() for o in v})


def value(rng, o, dt, dx, dy):
    return dict(num_gridx=dx, num_gridy=dx + 1, num_iter=int(rng.integers(1, 4)), num_block=int(rng.integers(1, dt + 1)), ind_block=rng.permutation(dt).astype(np.int32), filter_name=pick(rng, catalog.FILTERS[:-2]),
                filter_par=np.array([.4, 4], np.float32), reg_par=np.array([.1, .2], np.float32), reg_data=rng.random((dy, dx, dx)).astype(np.float32), accelerated=False, pool_size=1, interpolation="NN",
                device="cpu", grid_size=np.array([0, 0, 0], np.int32), block_size=np.array([32, 32, 1], np.int32)).get(o, 1)


class Watch:
    """counts entries into the compiled library from tomopy.util.extern"""

    def __enter__(self):
        import tomopy.util.extern as ex
        self.n, self.saved, seen = 0, [], {}
        for modname in [m for m in sys.modules if m.startswith("tomopy.")]:
            m = sys.modules[modname]
            for k in list(vars(m)):
                f = vars(m)[k]
                if k.startswith("c_") and callable(f):
                    if id(f) not in seen:
                        seen[id(f)] = self.wrap(f)
                    self.saved.append((m, k, f))
                    setattr(m, k, seen[id(f)])
        return self

    def wrap(self, f):
        def g(*a, **k):
            self.n += 1
            return f(*a, **k)
        return g

    def __exit__(self, *a):
        for m, k, f in self.saved:
            setattr(m, k, f)


def expect_error(mon, key, fn, what, kinds=Exception):
    with Watch() as w:
        try:
            r = fn()
        except kinds as e:
            mon.ok(True, key)
            mon.ok(w.n == 0, "no-kernel", f"{what}: compiled code ran {w.n} times before {type(e).__name__}: {e}")
            return True
    mon.ok(False, key, f"{what}: no exception, returned {type(r).__name__} {getattr(r, 'shape', '')}")


def data(rng):
    dt, dy, dx = int(rng.integers(2, 8)), int(rng.integers(1, 5)), int(rng.integers(4, 12))
    return dt, dy, dx, (rng.random((dt, dy, dx)) + .1).astype(np.float32), rng.uniform(0, np.pi, dt).astype(np.float32)


def gen(rng, i):
    return dict(i=i)


def run_options(p, mon):
    rng = rng_for("c22o", p["seed"])
    alg = ALGS[p["i"] % len(ALGS)]
    dt, dy, dx, t, th = data(rng)
    for o in NAMES + BOGUS:
        v = value(rng, o, dt, dx, dy)
        kw = {o: v}
        if o in TABLE[alg]:
            # other valid options may accompany it
            for q in TABLE[alg]:
                if rng.random() < .2 and q not in kw:
                    kw[q] = value(rng, q, dt, dx, dy)
            if "num_gridx" in kw and "num_gridy" not in kw or "num_gridy" in kw and "num_gridx" not in kw:
                kw["num_gridx"] = kw["num_gridy"] = dx
            if "reg_data" in kw:
                kw.update(num_gridx=dx, num_gridy=dx)
            try:
                r = tomopy.recon(t.copy(), th.copy(), algorithm=alg, ncore=1, **kw)
                mon.ok(r.shape == (dy, int(kw.get("num_gridx", dx)), int(kw.get("num_gridy", dx))), "accepts", f"{alg} {sorted(kw)}: shape {r.shape}")
            except Exception as e:
                mon.ok(False, "accepts", f"{alg} {sorted(kw)}: {type(e).__name__}: {e}")
        else:
            if rng.random() < .5 and TABLE[alg]:
                q = pick(rng, TABLE[alg])
                kw[q] = value(rng, q, dt, dx, dy)
                kw = dict(reversed(list(kw.items()))) if rng.random() < .5 else kw
            init = np.ones((dy, dx, dx), np.float32)
            expect_error(mon, "rejects", lambda: tomopy.recon(t.copy(), th.copy(), algorithm=alg, init_recon=init, **kw), f"{alg} with option {o!r}")
            mon.ok((init == 1).all(), "untouched", f"{alg} with option {o!r}: the initial guess was written")
    mon.sig("options", alg, dt, dy, dx)


def run_requests(p, mon):
    rng = rng_for("c22r", p["seed"])
    dt, dy, dx, t, th = data(rng)
    alg = pick(rng, ALGS)
    order = bool(rng.integers(2))
    T = np.ascontiguousarray(t.swapaxes(0, 1)) if order else t
    base = dict(sinogram_order=order, ncore=int(rng.integers(1, 3)))

    def bad(what, th_=None, **kw):
        k = dict(base, algorithm=alg)
        k.update(kw)
        expect_error(mon, "rejects-request", lambda: tomopy.recon(T.copy(), th.copy() if th_ is None else th_, **k), f"{k.get('algorithm')}: {what}")

    for a in (None, "", "ARTX", alg + " ", alg.upper(), alg[:-1] if alg[:-1] not in ALGS else "zz", 3, ["art"], "all"):
        bad(f"algorithm {a!r}", algorithm=a)
    for n in {dt - 1, dt + 1, 2 * dt} - {dt, 0}:
        bad(f"{n} angles for {dt} projections", th_=rng.random(n).astype(np.float32))
    for n in {dy + 1, dy + 3, dy - 1} - {0, 1, dy}:
        c = (np.ones(n) * dx / 2).astype(np.float32)
        bad(f"{n} centers for {dy} slices", center=c if rng.random() < .5 else c.tolist())
    for s in [(dy + 1, dx, dx), (dy, dx + 1, dx), (dy, dx, dx - 1), (dx, dx), (1, dy, dx, dx)]:
        bad(f"initial guess of shape {s} for {(dy, dx, dx)}", init_recon=np.ones(s, np.float32))
    if dy > 1:
        bad("initial guess of one slice", init_recon=np.ones((1, dx, dx), np.float32))
    bad("initial guess for another grid", init_recon=np.ones((dy, dx, dx), np.float32), num_gridx=dx + 2, num_gridy=dx + 2)
    al = pick(rng, ["osem", "bart", "ospml_quad", "ospml_hybrid"])
    bad("no block", algorithm=al, num_block=0)
    bad("negative blocks", algorithm=al, num_block=-2)
    bad("short block order", algorithm=al, num_block=2, ind_block=np.arange(dt - 1, dtype=np.int32))
    bad("block order out of range", algorithm=al, num_block=2, ind_block=np.r_[np.arange(dt - 1), dt].astype(np.int32))
    bad("negative block order", algorithm=al, num_block=2, ind_block=np.r_[np.arange(dt - 1), -1].astype(np.int32))
    bad("one weight", algorithm=pick(rng, ["pml_hybrid", "ospml_hybrid", "tikh"]), reg_par=[.1])
    bad("short custom filter", algorithm="gridrec", filter_name="custom", filter_par=np.ones(3))
    bad("short custom2d filter", algorithm="gridrec", filter_name="custom2d", filter_par=np.ones(16 * dt // 2 - 1 if dx <= 16 else 3))
    bad("butterworth with one parameter", algorithm="gridrec", filter_name="butterworth", filter_par=[.5])
    half = 8
    while 2 * half < dx:
        half *= 2
    g = 2 * half + 1 + int(rng.integers(20))     # the grid asks for a longer transform than the detector
    bad("custom filter for the detector, larger grid", algorithm="gridrec", filter_name="custom", filter_par=np.ones(half), **{pick(rng, ["num_gridx", "num_gridy"]): g})
    bad("custom2d filter for the detector, larger grid", algorithm="gridrec", filter_name="custom2d", filter_par=np.ones((dt, half)), **{pick(rng, ["num_gridx", "num_gridy"]): g})
    bad("unknown filter", algorithm=pick(rng, ["gridrec", "fbp"]), filter_name=pick(rng, ["ram-lak", "shep", "SHEPP", "custom3d", "", "hanning"]))
    for c in (dx / 2, np.float32(dx / 2), np.array(dx / 2), [dx / 2], np.full(dy, dx / 2), [dx / 2.] * dy, None):
        r = tomopy.recon(T.copy(), th.tolist() if rng.random() < .3 else th.copy(), center=c, algorithm=alg, **base)
        mon.ok(r.shape == (dy, dx, dx), "accepts", f"{alg} center {c!r}: {r.shape}")
    mon.sig("requests", alg, dt, dy, dx)


def run_others(p, mon):
    rng = rng_for("c22x", p["seed"])
    dt, dy, dx, t, th = data(rng)
    A = rng.random((12, 13, 14)).astype(np.float32)
    m = rng.random(A.shape) < .1
    W = A.copy()
    vol = rng.random((5, 6, 7)).astype(np.float32)
    s360 = rng.random((6, 3, 10)).astype(np.float32)
    cube = rng.random((5, 6, 6)).astype(np.float32)
    flat, dark = np.ones((3,) + A.shape[1:], np.float32) * 2, np.zeros((2,) + A.shape[1:], np.float32)
    O = np.random.default_rng(1).random((6, 6, 6)).astype(np.float32)
    th5 = np.linspace(0, 3, 5).astype(np.float32)
    C = tomopy.misc.corr
    bad = [("stripes_detect3d size 0", lambda: tomopy.stripes_detect3d(A, size=0)), ("stripes_detect3d size > half", lambda: tomopy.stripes_detect3d(A, size=7)), ("stripes_detect3d 2D", lambda: tomopy.stripes_detect3d(A[0], size=2)),
           ("stripes_mask3d length 0", lambda: tomopy.stripes_mask3d(W, min_stripe_length=0, min_stripe_depth=1, min_stripe_width=1)), ("stripes_mask3d length", lambda: tomopy.stripes_mask3d(W, min_stripe_length=12, min_stripe_depth=1, min_stripe_width=1)),
           ("stripes_mask3d depth", lambda: tomopy.stripes_mask3d(W, min_stripe_length=2, min_stripe_depth=13, min_stripe_width=1)), ("stripes_mask3d depth<0", lambda: tomopy.stripes_mask3d(W, min_stripe_length=2, min_stripe_depth=-1, min_stripe_width=1)),
           ("stripes_mask3d width", lambda: tomopy.stripes_mask3d(W, min_stripe_length=2, min_stripe_depth=1, min_stripe_width=14)), ("stripes_mask3d width 0", lambda: tomopy.stripes_mask3d(W, min_stripe_length=2, min_stripe_depth=1, min_stripe_width=0)),
           ("stripes_mask3d sensitivity 0", lambda: tomopy.stripes_mask3d(W, min_stripe_length=2, min_stripe_depth=1, min_stripe_width=1, sensitivity_perc=0.)),
           ("stripes_mask3d sensitivity 101", lambda: tomopy.stripes_mask3d(W, min_stripe_length=2, min_stripe_depth=1, min_stripe_width=1, sensitivity_perc=100.5)), ("stripes_mask3d 2D", lambda: tomopy.stripes_mask3d(W[0], min_stripe_length=2, min_stripe_depth=1, min_stripe_width=1)),
           ("normalize averaging", lambda: tomopy.normalize(A.copy(), flat, dark, averaging="mode")), ("normalize_nf averaging", lambda: tomopy.normalize_nf(A.copy(), flat, dark, [0], averaging="avg")),
           ("normalize_bg air 0", lambda: tomopy.normalize_bg(A.copy(), air=0)), ("normalize_bg air > width", lambda: tomopy.normalize_bg(A.copy(), air=15)), ("normalize_bg air<0", lambda: tomopy.normalize_bg(A.copy(), air=-1)),
           ("median_filter3d 2D", lambda: tomopy.median_filter3d(A[0], 3)), ("remove_outlier3d 2D", lambda: tomopy.remove_outlier3d(A[0], .1, 3)), ("median_filter3d empty", lambda: tomopy.median_filter3d(A[:0], 3)),
           ("remove_ring mode", lambda: tomopy.remove_ring(A.copy(), int_mode="MIRROR")), ("remove_ring theta 180", lambda: tomopy.remove_ring(A.copy(), theta_min=180)), ("remove_ring theta<0", lambda: tomopy.remove_ring(A.copy(), theta_min=-1)),
           ("inpainter int mask", lambda: tomopy.inpainter_morph(A, m.astype(np.uint8), 3, 1)), ("inpainter mask shape", lambda: tomopy.inpainter_morph(A, m[1:], 3, 1)), ("inpainter type", lambda: tomopy.inpainter_morph(A, m, 3, 1, "mode")),
           ("inpainter axis 3", lambda: tomopy.inpainter_morph(A, m, 3, 1, "mean", axis=3)), ("inpainter axis -1", lambda: tomopy.inpainter_morph(A, m, 3, 1, "mean", axis=-1)), ("inpainter axis for 2D", lambda: tomopy.inpainter_morph(A[0], m[0], 3, 1, "mean", axis=0)),
           ("inpainter empty", lambda: tomopy.inpainter_morph(A[:0], m[:0], 3, 1, "mean")),
           ("pad mode", lambda: tomopy.pad(vol, 1, 2, mode="reflect")), ("pad mode type", lambda: tomopy.pad(vol, 1, 2, mode=3)), ("pad option of another mode", lambda: tomopy.pad(vol, 1, 2, mode="edge", constant_values=1)), ("pad unknown option", lambda: tomopy.pad(vol, 1, 2, val=1)),
           ("sino_360 side", lambda: tomopy.sino_360_to_180(s360, 2, "up")), ("sino_360 overlap", lambda: tomopy.sino_360_to_180(s360, 11)), ("sino_360 overlap<0", lambda: tomopy.sino_360_to_180(s360, -1)),
           ("project centers", lambda: tomopy.project(O, th5, center=np.ones(4))), ("project2 shapes", lambda: tomopy.project2(O, O[1:], th5)), ("project3 shapes", lambda: tomopy.project3(O, O, O[:, 1:], th5)),
           ("vector angles", lambda: tomopy.vector(cube, th5[:4])), ("vector2 shapes", lambda: tomopy.vector2(cube, cube[:, :, 1:], th5, th5)), ("vector3 angles", lambda: tomopy.vector3(cube, cube, cube, th5, th5, th5[1:])),
           ("fan_to_para", lambda: tomopy.fan_to_para(A, 1., "arc")), ("para_to_fan", lambda: tomopy.para_to_fan(A, 1., "arc")), ("focal spot", lambda: tomopy.add_focal_spot_blur(A, 1.)),
           ("slits method", lambda: tomopy.find_slits_corners_aps_1id(np.ones((60, 60)) + np.eye(60), method="best")), ("calc_intensity mode", lambda: tomopy.calc_intensity(np.ones((2, 2)), np.ones((4, 4)), mode="middle")),
           ("filter axis", lambda: tomopy.median_filter(A.copy(), axis=3)), ("downsample axis", lambda: tomopy.downsample(A, 1, axis=3)), ("nonfinite kernel", lambda: tomopy.misc.corr.median_filter_nonfinite(np.full((2, 5, 5), np.nan, np.float32), 3)),
           ("recon 2D", lambda: tomopy.recon(A[0], th5, algorithm="art")), ("center_pc shapes", lambda: tomopy.find_center_pc(A[0], A[1, :, 1:])), ("phantom 4D", lambda: tomopy.misc.phantom._ellipsoid(dict(A=1), shape=(2, 2, 2, 2)))]
    good = [("stripes_detect3d", lambda: tomopy.stripes_detect3d(A, size=6)), ("stripes_mask3d", lambda: tomopy.stripes_mask3d(W, min_stripe_length=11, min_stripe_depth=12, min_stripe_width=13, sensitivity_perc=100.)),
            ("stripes_mask3d depth 0", lambda: tomopy.stripes_mask3d(W, min_stripe_length=1, min_stripe_depth=0, min_stripe_width=1)), ("normalize median", lambda: tomopy.normalize(A.copy(), flat, dark, averaging="median")),
            ("normalize_bg full", lambda: tomopy.normalize_bg(A.copy(), air=14)), ("normalize_bg 1", lambda: tomopy.normalize_bg(A.copy(), air=1)), ("ring 0", lambda: tomopy.remove_ring(A.copy(), theta_min=0)), ("ring 179", lambda: tomopy.remove_ring(A.copy(), theta_min=179, int_mode="reflect")),
            ("pad edge", lambda: tomopy.pad(vol, 1, 2, mode="edge")), ("pad constant", lambda: tomopy.pad(vol, 1, 2, constant_values=3)), ("sino_360 all", lambda: tomopy.sino_360_to_180(s360, 10)), ("sino_360 none", lambda: tomopy.sino_360_to_180(s360, 0, "right")),
            ("inpainter axis 2", lambda: tomopy.inpainter_morph(A, m, 3, 1, "mean", axis=2)), ("inpainter axis 0", lambda: tomopy.inpainter_morph(A, m, 3, 1, "random", axis=0)), ("inpainter 2D", lambda: tomopy.inpainter_morph(A[0], m[0], 3, 1, "median")),
            ("vector", lambda: tomopy.vector(cube, th5)), ("project centers", lambda: tomopy.project(O, th5, center=np.full(6, 3.)))]
    for what, f in bad:
        if rng.random() < .4 or p["i"] == 0:
            expect_error(mon, "rejects-other", f, what)
    for what, f in good:
        if rng.random() < .4 or p["i"] == 0:
            try:
                f()
                mon.ok(True, "accepts-other")
            except Exception as e:
                mon.ok(False, "accepts-other", f"{what}: {type(e).__name__}: {e}")
    mon.sig("others", p["i"])


NA = "center", "ncore", "nchunk", "out"
SIG = {   # documented order of the parameters and the documented defaults
 "project": ("obj theta center=None emission=True pad=True sinogram_order=False ncore=None nchunk=None"), "project2": "objx objy theta center=None emission=True pad=True sinogram_order=False axis=0 ncore=None nchunk=None",
 "project3": "objx objy objz theta center=None emission=True pad=True sinogram_order=False axis=0 ncore=None nchunk=None", "vector": "tomo theta center=None num_iter=1", "vector2": "tomo1 tomo2 theta1 theta2 center1=None center2=None num_iter=1 axis1=1 axis2=2",
 "remove_stripe_fw": "tomo level=None wname='db5' sigma=2 pad=True ncore=None nchunk=None", "remove_stripe_ti": "tomo nblock=0 alpha=1.5 ncore=None nchunk=None", "remove_stripe_sf": "tomo size=5 ncore=None nchunk=None",
 "remove_stripe_based_sorting": "tomo size=None dim=1 ncore=None nchunk=None", "remove_stripe_based_filtering": "tomo sigma=3 size=None dim=1 ncore=None nchunk=None", "remove_stripe_based_fitting": "tomo order=3 sigma=(5,20) ncore=None nchunk=None",
 "remove_large_stripe": "tomo snr=3 size=51 drop_ratio=0.1 norm=True ncore=None nchunk=None", "remove_dead_stripe": "tomo snr=3 size=51 norm=True ncore=None nchunk=None", "remove_all_stripe": "tomo snr=3 la_size=61 sm_size=21 dim=1 ncore=None nchunk=None",
 "remove_stripe_based_interpolation": "tomo snr=3 size=31 drop_ratio=0.1 norm=True ncore=None nchunk=None", "retrieve_phase": "tomo pixel_size=1e-4 dist=50 energy=20 alpha=1e-3 pad=True ncore=None nchunk=None",
 "distortion_correction_proj": "tomo xcenter ycenter list_fact ncore=None nchunk=None", "distortion_correction_sino": "tomo ind xcenter ycenter list_fact", "minus_log": "tomo ncore=None out=None",
 "normalize": "arr flat dark cutoff=None ncore=None out=None averaging='mean'", "normalize_nf": "tomo flats dark flat_loc cutoff=None ncore=None out=None averaging='mean'", "normalize_bg": "tomo air=1 ncore=None nchunk=None", "normalize_roi": "arr roi=[0,0,10,10] ncore=None",
 "gaussian_filter": "arr sigma=3 order=0 axis=0 ncore=None", "median_filter": "arr size=3 axis=0 ncore=None", "sobel_filter": "arr axis=0 ncore=None", "remove_outlier": "arr dif size=3 axis=0 ncore=None out=None", "remove_outlier1d": "arr dif size=3 axis=0 ncore=None out=None",
 "circ_mask": "arr axis ratio=1 val=0. ncore=None", "median_filter3d": "arr size=3 ncore=None", "remove_outlier3d": "arr dif size=3 ncore=None", "remove_nan": "arr val=0. ncore=None", "remove_neg": "arr val=0. ncore=None", "adjust_range": "arr dmin=None dmax=None",
 "remove_ring": "rec center_x=None center_y=None thresh=300. thresh_max=300. thresh_min=-100. theta_min=30 rwidth=30 int_mode='WRAP' ncore=None nchunk=None out=None", "inpainter_morph": "arr mask size=5 iterations=2 inpainting_type='random' axis=None ncore=None",
 "stripes_detect3d": "tomo size=10 radius=3 ncore=None", "stripes_mask3d": "weights threshold=0.6 min_stripe_length=20 min_stripe_depth=10 min_stripe_width=5 sensitivity_perc=85.0 ncore=None", "downsample": "arr level=1 axis=2", "upsample": "arr level=1 axis=2",
 "sino_360_to_180": "data overlap=0 rotation='left'", "trim_sinogram": "data center x y diameter", "shift_images": "prj sx sy", "add_jitter": "prj low=0 high=1", "add_noise": "prj ratio=0.05", "blur_edges": "prj low=0 high=0.8", "add_drift": "tomo amp=0.2 period=50 mean=1",
 "add_gaussian": "tomo mean=0 std=None", "add_rings": "tomo std=0.05", "add_salt_pepper": "tomo prob=0.01 val=None", "add_zingers": "tomo f=0.01 sat=2**16", "find_center_vo": "tomo ind=None smin=-50 smax=50 srad=6 step=0.25 ratio=0.5 drop=20 ncore=None",
 "find_center_pc": "proj1 proj2 tol=0.5 rotc_guess=None",
}


def run_defaults(p, mon):
    rng = rng_for("c22d", p["seed"])
    name = sorted(SIG)[p["i"] % len(SIG)]
    c = catalog.make(name, rng)
    sig = [(s.split("=", 1) + [None])[:2] if "=" in s else [s, None] for s in SIG[name].split(" ")]
    names = [s[0] for s in sig]
    dflt = {k: eval(v) for k, v in sig if v is not None}
    if name in ("stripes_detect3d", "stripes_mask3d", "remove_stripe_ti"):    # data large enough for the defaults
        c.arrs = {k: array(rng, (24, 12, 14), "uniform") for k in c.arrs}
    if name == "normalize_roi":
        c.arrs = {k: array(rng, (3, 12, 14), "positive") for k in c.arrs}
    fixed = {k: v for k, v in c.kw.items()}
    if c.ncore:
        fixed["ncore"] = 1
    if c.nchunk:
        fixed["nchunk"] = 1
    drop = [k for k in dflt if k not in ("ncore", "nchunk", "out") and k not in c.arrs]
    if name == "inpainter_morph":     # the default type draws from the C library's generator
        drop.remove("inpainting_type")
        fixed["inpainting_type"] = pick(rng, ["mean", "median"])
    keep = {k: v for k, v in fixed.items() if k not in drop}

    def call(kw):
        np.random.seed(5)
        try:
            return catalog.res(c.fn(**c.fresh(), **kw)), None
        except Exception as e:
            return None, f"{type(e).__name__}: {e}"

    def same(x, y, key, what):
        if x[1] or y[1]:
            mon.ok(bool(x[1]) == bool(y[1]), key, f"{what}: {x[1]} versus {y[1]}")
        else:
            for u, v in zip(x[0], y[0]):
                mon.equal(u, v, key, what)
    a = call(keep)
    for k in drop:
        kw = dict(keep)
        kw[k] = dflt[k]
        same(a, call(kw), "default", f"{name}: leaving out {k} versus {k}={dflt[k]!r}")
    # a positional call
    kw = dict(fixed)
    vals = []
    for k in names:
        if k in c.arrs:
            vals.append(c.fresh()[k])
        elif k in kw:
            vals.append(kw[k])
        elif k in dflt:
            vals.append(dflt[k])
        else:
            vals = None
            break
    if vals is not None and set(kw) <= set(names):
        np.random.seed(5)
        try:
            r = catalog.res(c.fn(*vals)), None
        except Exception as e:
            r = None, f"{type(e).__name__}: {e}"
        same(r, call({k: v for k, v in zip(names, vals) if k not in c.arrs}), "positional", f"{name}({', '.join(names)}) given by position")
    mon.count("fn:" + name)
    mon.sig("defaults", name, a[1] is None)


def run_recon_default(p, mon):
    rng = rng_for("c22e", p["seed"])
    alg = ALGS[p["i"] % len(ALGS)]
    dt, dy, dx, t, th = data(rng)
    d = dict(num_gridx=dx, num_gridy=dx, num_iter=1, num_block=1, ind_block=np.arange(dt), filter_name="shepp", filter_par=np.array([.5, 8], np.float32), reg_par=np.ones(10, np.float32), reg_data=np.zeros((dy, dx, dx), np.float32),
             accelerated=False, pool_size=0, interpolation="NN", device="gpu", grid_size=np.zeros(3, np.int32), block_size=np.array([32, 32, 1], np.int32))
    keep = {}
    for o in TABLE[alg]:
        if rng.random() < .25 and o not in G:
            keep[o] = value(rng, o, dt, dx, dy)
    base = tomopy.recon(t.copy(), th.copy(), algorithm=alg, ncore=1, **keep)
    for o in TABLE[alg]:
        if o not in keep:
            r = tomopy.recon(t.copy(), th.copy(), algorithm=alg, ncore=1, **dict(keep, **{o: d[o]}))
            mon.equal(r, base, "recon-default", f"{alg} {sorted(keep)}: leaving out {o} versus {o}={d[o]!r}")
    for o, v in dict(center=dx / 2., sinogram_order=False, init_recon=np.full((dy, dx, dx), 1e-6, np.float32)).items():
        if o == "init_recon" and alg == "gridrec":
            continue
        r = tomopy.recon(t.copy(), th.copy(), algorithm=alg, ncore=1, **dict(keep, **{o: v}))
        mon.equal(r, base, "recon-default", f"{alg}: leaving out {o} versus the documented default")
    r = tomopy.recon(t.copy(), th.copy(), dx / 2., False, alg, None, 1, None, **keep)
    mon.equal(r, base, "positional", f"recon {alg} by position")
    mon.sig("recon-default", alg, sorted(keep))


def run_callable(p, mon):
    rng = rng_for("c22c", p["seed"])
    dt, dy, dx, t, th = data(rng)
    cen = (dx / 2 + rng.random(dy)).astype(np.float32)
    nc = int(rng.integers(1, 4))
    opts = {} if rng.random() < .5 else dict(options=dict(a=1))
    gr = {} if rng.random() < .5 else dict(num_gridx=dx + 1, num_gridy=dx + 2)
    log = []

    def alg(tomo, center, recon, theta, *args, **kw):
        log.append((tomo.shape, sorted(kw), kw.get("options"), int(kw["num_gridx"]), int(kw["num_gridy"]), len(args)))
        for i in range(tomo.shape[0]):
            recon[i] = tomo[i].sum() + 10 * center[i] + theta.sum()
    r = tomopy.recon(t.copy(), th.copy(), center=cen, algorithm=alg, ncore=nc, **opts, **gr)
    gx, gy = gr.get("num_gridx", dx), gr.get("num_gridy", dx)
    ref = np.stack([np.full((gx, gy), t[:, i].sum() + 10 * cen[i] + th.sum()) for i in range(dy)])
    mon.close(r, ref, "callable", f"ncore {nc} {opts} {gr}", rtol=1e-5)
    mon.ok(sum(l[0][0] for l in log) == dy and all(l[0][1:] == (dt, dx) and l[1] == ["num_gridx", "num_gridy", "options"] and l[2] == opts.get("options", {}) and (l[3], l[4]) == (gx, gy) and l[5] == 0 for l in log), "callable", f"calls {log}")
    mon.sig("callable", dt, dy, dx, nc)


# ---- hostile requests under the address sanitizer --------------------------------
SLOW = {"find_center", "enhance_projs_aps_1id", "find_center_vo"}
HNAMES = [n for n in catalog.NAMES if n not in SLOW]
VALUES = [None, "bad", -3, 0, 1, -1, 2, 7, 12, 1.5, float("nan"), float("inf"), -float("inf"), [], [1, 2, 3], [0., 0.], [-5, 100], True, -1e30, 40]


def spoil_array(rng, a):
    h = pick(rng, ["extra", "ravel", "empty-last", "empty-first", "longer", "shorter", "first", "string", "object", "nan", "inf", "transposed", "complex", "none", "scalar", "list"])
    s = [slice(None)] * a.ndim
    if h in ("longer", "shorter"):
        ax = int(rng.integers(a.ndim))
        s[ax] = slice(0, -1)
    f = dict(extra=lambda: a[None], ravel=a.ravel, longer=lambda: np.concatenate([a, a], axis=ax), shorter=lambda: a[tuple(s)], first=lambda: a[0], string=lambda: np.array(["x"] * 4), object=lambda: a.astype(object), nan=lambda: np.full(a.shape, np.nan),
             inf=lambda: np.full(a.shape, np.inf), transposed=lambda: a.T, complex=lambda: a.astype(complex), none=lambda: None, scalar=lambda: np.float32(1), list=a.tolist)
    f["empty-last"], f["empty-first"] = lambda: a[..., :0], lambda: a[:0]
    return h, f[h]()


def run_hostile(p, mon):
    rng = rng_for("c22h", p["seed"])
    name = HNAMES[p["i"] % len(HNAMES)]
    c = catalog.make(name, rng)
    a, kw, what = c.fresh(), dict(c.kw), []
    if c.ncore:
        kw["ncore"] = 1
    if rng.random() < .55:
        k = pick(rng, sorted(a))
        h, a[k] = spoil_array(rng, np.asarray(a[k]))
        if h == "inf" and name == "remove_stripe_ti":      # does not converge
            a[k] = np.zeros(3)
        what.append((k, h))
    if not what or rng.random() < .4:
        names = sorted((set(inspect.signature(c.fn).parameters) | set(kw)) - set(a) - {"out", "ncore", "nchunk", "args", "kwargs", "dpath", "fname"})
        if names:
            k = pick(rng, names)
            kw[k] = pick(rng, VALUES)
            kw[k] = np.array(kw[k]) if isinstance(kw[k], list) and rng.random() < .5 else kw[k]
            what.append((k, kw[k]))
    if c.ncore and rng.random() < .2:
        kw["ncore"] = pick(rng, [0, -2, "two", 1.5, 1])
        what.append(("ncore", kw["ncore"]))
    if c.nchunk and rng.random() < .2:
        kw["nchunk"] = pick(rng, [-2, "two", 1.5, 1, 100])
        what.append(("nchunk", kw["nchunk"]))
    if os.environ.get("VERIF_SHOW"):
        open(os.environ["VERIF_SHOW"], "a").write(repr((name, what, {k: np.shape(v) for k, v in a.items()}, kw)) + "\n")
    import signal

    def slow(*_):
        raise TimeoutError
    old = signal.signal(signal.SIGALRM, slow)
    signal.alarm(20)
    try:
        c.fn(**a, **kw)
        o = "accepted"
    except MemoryError:
        o = "too-large"
    except TimeoutError:
        o = "too-long"          # asked for a lot of work, no verdict
    except Exception as e:
        o = "rejected"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    mon.count("hostile-" + o)
    mon.ok(True, "hostile", "")         # a crash or a sanitizer report ends the process instead
    mon.sig("hostile", name, o, str(what)[:80])


FAMILIES = [Family("hostile", gen, run_hostile, 12 * len(HNAMES), 300 * len(HNAMES), timeout=300, variant="asan"), Family("options", gen, run_options, 56, 700), Family("requests", gen, run_requests, 60, 900), Family("others", gen, run_others, 60, 600), Family("defaults", gen, run_defaults, 3 * len(SIG), 20 * len(SIG)),
            Family("recon-default", gen, run_recon_default, 70, 900), Family("callable", gen, run_callable, 60, 600)]
