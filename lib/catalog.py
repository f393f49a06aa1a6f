"""Catalogue of public calls, shared by the cross-cutting checks (C01-C06, C21).

make(name, rng) -> Call: one random valid call with small arrays. A Call separates array arguments
(arrs) from scalars (kw) so that the checks can vary layout, dtype, slice order, workers."""
import numpy as np
from vlib import pick, array, lazy
tomopy = lazy("tomopy")
ALGS = ["art", "bart", "fbp", "gridrec", "mlem", "osem", "ospml_hybrid", "ospml_quad", "pml_hybrid", "pml_quad", "sirt", "tv", "grad", "tikh"]
FILTERS = ["none", "shepp", "cosine", "hann", "hamming", "ramlak", "parzen", "butterworth", "custom", "custom2d"]


class Call:
    def __init__(self, name, fn, arrs, kw=None, ncore=False, nchunk=False, slc=None, out_ax=None, exact=True,
                 inplace=(), out=False, rand=False, poison=True, ints=(), fixed=(), alone=True, threads="thread"):
        self.name, self.fn, self.arrs, self.kw = name, fn, arrs, dict(kw or {})
        self.ncore, self.nchunk = ncore, nchunk     # accepts these options
        self.slc, self.out_ax = slc, out_ax         # slice axis of each array / of the result(s)
        self.exact = exact                          # bitwise independent of the partition
        self.inplace = tuple(inplace)               # arrays documented or known to be worked on in place
        self.out = out                              # accepts out=
        self.rand = rand
        self.poison = poison
        self.ints = tuple(ints)                     # arrays whose values may be whole numbers in integer dtypes
        self.fixed = tuple(fixed)                   # arrays with a required dtype
        self.alone = alone                          # a single slice may be processed by itself
        self.threads = threads                      # in-process ("thread") or worker processes ("process")

    def run(self, arrs=None, **over):
        a = dict(self.arrs if arrs is None else arrs)
        kw = dict(self.kw)
        kw.update(over)
        if self.rand:
            np.random.seed(12345)
        r = self.fn(**a, **kw)
        return r

    def fresh(self):
        return {k: np.array(v, order="C", copy=True) for k, v in self.arrs.items()}


def res(r):
    """result -> list of arrays"""
    return [np.asarray(x) for x in r] if isinstance(r, tuple) else [np.asarray(r)]


def _geom(rng, big=False):
    hi = 33 if big else 17
    dx = int(pick(rng, [4, 5, 8, 15, 16, 17, int(rng.integers(4, hi))]))
    dt = int(pick(rng, [1, 2, 3, 5, 8, int(rng.integers(2, 12))]))
    dy = int(pick(rng, [1, 2, 3, 4, 5, 7, 13]))
    if rng.random() < .06:       # one long axis: sizes beyond small blocks, pools and tables
        k = int(rng.integers(3))
        dt, dy, dx = [int(rng.integers(60, 150)) if k == q and q != 1 else int(rng.integers(17, 40)) if k == q else v for q, v in enumerate((dt, min(dy, 3) if k != 1 else dy, dx))]
    return dt, dy, dx


def _centers(rng, dy, dx, arrs, kw, slc):
    k = rng.random()
    if k < .5:
        arrs["center"] = (dx / 2 + rng.uniform(-1.5, 1.5, dy)).astype(np.float32)
        slc["center"] = 0
    elif k < .8:
        kw["center"] = float(np.float32(dx / 2 + rng.uniform(-1.5, 1.5)))


def recon(alg, opt_init=True):
    def mk(rng):
        dt, dy, dx = _geom(rng)
        order = bool(rng.integers(2))
        tomo = array(rng, (dy, dt, dx), pick(rng, ["positive", "uniform", "smooth", "counts"]))
        if not order:
            tomo = np.ascontiguousarray(tomo.swapaxes(0, 1))
        arrs = dict(tomo=tomo, theta=rng.uniform(0, np.pi, dt).astype(np.float32))
        slc = dict(tomo=0 if order else 1)
        kw = dict(algorithm=alg)
        if order:
            kw["sinogram_order"] = True
        _centers(rng, dy, dx, arrs, kw, slc)
        gx = gy = dx
        if rng.random() < .4:
            gx, gy = int(rng.integers(2, 17)), int(rng.integers(2, 17))
            kw.update(num_gridx=gx, num_gridy=gy)
        if alg in ("fbp", "gridrec"):
            if alg == "gridrec":
                gx = gy = min(dx, max(gx, gy))
                if "num_gridx" in kw:
                    kw.update(num_gridx=gx, num_gridy=gx)
            if rng.random() < .7:
                f = pick(rng, FILTERS)
                kw["filter_name"] = f
                half = 8
                while 2 * half < max(dx, gx, gy):
                    half *= 2
                if f == "custom":
                    arrs["filter_par"] = rng.random(half).astype(np.float32)
                elif f == "custom2d":
                    arrs["filter_par"] = rng.random(dt * half).astype(np.float32)
                elif f in ("hann", "hamming", "parzen"):
                    arrs["filter_par"] = np.array([rng.uniform(.1, 1)], np.float32)
                elif f == "butterworth":
                    arrs["filter_par"] = np.array([rng.uniform(.1, 1), pick(rng, [1., 2., 8.])], np.float32)
        else:
            kw["num_iter"] = int(rng.integers(1, 4))
            if opt_init and rng.random() < .3:
                arrs["init_recon"] = (rng.random((dy, gx, gy)) + .1).astype(np.float32)
                slc["init_recon"] = 0
        if alg in ("bart", "osem", "ospml_hybrid", "ospml_quad") and rng.random() < .8:
            kw["num_block"] = int(rng.integers(1, dt + 1))
            if rng.random() < .6:
                arrs["ind_block"] = rng.permutation(dt).astype(np.int32)
        if alg in ("ospml_hybrid", "pml_hybrid", "tikh") and rng.random() < .8:
            arrs["reg_par"] = rng.uniform(.05, 1, 2).astype(np.float32)
        elif alg in ("ospml_quad", "pml_quad", "tv", "grad") and rng.random() < .8:
            arrs["reg_par"] = rng.uniform(.05, 1, 1).astype(np.float32)
        if alg == "grad" and "reg_par" in arrs and rng.random() < .4:
            arrs["reg_par"] = -arrs["reg_par"]
        if alg == "tikh" and rng.random() < .6:
            arrs["reg_data"] = rng.random((dy, gx, gy)).astype(np.float32)
            slc["reg_data"] = 0
        return Call("recon:" + alg, tomopy.recon, arrs, kw, ncore=True, nchunk=True, slc=slc, out_ax=0, exact=alg != "gridrec",
                    inplace=("init_recon",), poison=alg != "gridrec", ints=("tomo", "ind_block"))
    return mk


def vector(n):
    def mk(rng):
        dt, dy, dx = _geom(rng)
        if n > 1:      # the components are reconstructed on one cube
            dy = dx = int(rng.integers(4, 9))
        arrs, slc, kw = {}, {}, dict(num_iter=int(rng.integers(1, 3)))
        for i in range(n):
            s = "" if n == 1 else str(i + 1)
            arrs["tomo" + s] = array(rng, (dt, dy, dx), "positive")
            arrs["theta" + s] = rng.uniform(0, np.pi, dt).astype(np.float32)
            slc["tomo" + s] = 1
            if rng.random() < .5:
                arrs["center" + s] = (dx / 2 + rng.uniform(-1, 1, dy)).astype(np.float32)
                slc["center" + s] = 0
        nm = "vector" + ("" if n == 1 else str(n))
        return Call(nm, getattr(tomopy, nm), arrs, kw, slc=slc if n == 1 else None, out_ax=0, ints=[k for k in arrs if k.startswith("tomo")])
    return mk


def project(n):
    def mk(rng):
        dt, oy, _ = _geom(rng)
        ox, oz = int(rng.integers(2, 17)), int(rng.integers(2, 17))
        kw, arrs, slc = {}, {}, {}
        ax = int(rng.integers(0, 3)) if n == 3 else 0
        if ax:
            oy = ox = oz = int(rng.integers(2, 9))
        for i in range(n):
            nm = "obj" if n == 1 else "obj" + "xyz"[i]
            arrs[nm] = array(rng, (oy, ox, oz), pick(rng, ["normal", "positive", "counts", "sparse"]))
            slc[nm] = 0
        arrs["theta"] = rng.uniform(-1, 4, dt).astype(np.float32)
        if rng.random() < .5:
            kw["pad"] = False
        if rng.random() < .5:
            kw["sinogram_order"] = True
        if rng.random() < .3 and np.max(np.abs(arrs[list(slc)[0]])) < 20:
            kw["emission"] = False
        if n == 3:
            kw["axis"] = ax
        dx = ox if kw.get("pad") is False else int(np.ceil((np.sqrt(ox * ox + oz * oz) + 2) / 2) * 2)
        _centers(rng, oy, dx, arrs, kw, slc)
        nm = "project" + ("" if n == 1 else str(n))
        return Call(nm, getattr(tomopy, nm), arrs, kw, ncore=True, nchunk=True, slc=slc if ax == 0 else None, out_ax=0 if kw.get("sinogram_order") else 1,
                    ints=[k for k in arrs if k.startswith("obj")], threads="process")
    return mk


def stripe(nm):
    def mk(rng):
        dt = int(pick(rng, [5, 8, 16, 17, 30]))
        dx = int(pick(rng, [7, 8, 16, 21, 33]))
        dy = int(pick(rng, [1, 2, 3, 5, 6, 11]))
        t = array(rng, (dt, dy, dx), pick(rng, ["positive", "smooth", "uniform", "counts"]))
        t = t + rng.random((1, dy, dx)).astype(np.float32) * (rng.random((1, dy, dx)) < .2).astype(np.float32) + np.float32(.5)
        kw = {}
        if nm == "remove_stripe_fw":
            kw = dict(level=int(pick(rng, [1, 2, 3])), wname=pick(rng, ["db5", "haar", "sym4"]), sigma=float(pick(rng, [1, 2, 4])), pad=bool(rng.integers(2)))
            if rng.random() < .3:
                kw.pop("level")
        elif nm == "remove_stripe_ti":
            kw = dict(nblock=int(pick(rng, [0, 0, 1, 2, 3])), alpha=float(pick(rng, [1.5, 1.5, 3])))
        elif nm == "remove_stripe_sf":
            kw = dict(size=int(pick(rng, [1, 3, 5])))
        elif nm == "remove_stripe_based_sorting":
            kw = dict(size=int(pick(rng, [1, 3, 5])), dim=int(pick(rng, [1, 2])))
        elif nm == "remove_stripe_based_filtering":
            kw = dict(sigma=int(pick(rng, [1, 2, 3])), size=int(pick(rng, [1, 3, 5])), dim=int(pick(rng, [1, 2])))
        elif nm == "remove_stripe_based_fitting":
            kw = dict(order=int(pick(rng, [1, 2, 3])), sigma=(float(pick(rng, [2, 5])), float(pick(rng, [5, 20]))))
        elif nm in ("remove_large_stripe", "remove_stripe_based_interpolation"):
            kw = dict(snr=float(pick(rng, [1.5, 3])), size=int(pick(rng, [5, 11])), drop_ratio=float(pick(rng, [0.1, 0.2])), norm=bool(rng.integers(2)))
        elif nm == "remove_dead_stripe":
            kw = dict(snr=float(pick(rng, [1.5, 3])), size=int(pick(rng, [5, 11])), norm=bool(rng.integers(2)))
        elif nm == "remove_all_stripe":
            kw = dict(snr=float(pick(rng, [1.5, 3])), la_size=int(pick(rng, [5, 11])), sm_size=int(pick(rng, [3, 5])), dim=int(pick(rng, [1, 2])))
        return Call(nm, getattr(tomopy, nm), dict(tomo=t), kw, ncore=True, nchunk=True, slc=dict(tomo=1), out_ax=1, ints=("tomo",), threads="process")
    return mk


def _vol(rng, lo=1, hi=12):
    sh = [int(pick(rng, [lo, lo + 1, int(rng.integers(lo, hi)), int(rng.integers(lo, hi))])) for _ in range(3)]
    if rng.random() < .08:
        sh[int(rng.integers(3))] = int(rng.integers(30, 150))
    return tuple(sh)


def _nd(rng, lo=1, hi=12):
    """shapes of one to four dimensions, mostly three"""
    sh = _vol(rng, lo, hi)
    n = int(pick(rng, [1, 2, 2, 3, 3, 3, 3, 4]))
    return sh[:n] if n < 4 else (int(rng.integers(1, 4)),) + sh


def phase(rng):
    t = array(rng, _vol(rng, 2, 20), "positive")
    return Call("retrieve_phase", tomopy.retrieve_phase, dict(tomo=t), dict(pad=bool(rng.integers(2)), alpha=float(10 ** rng.uniform(-4, -1)), dist=float(pick(rng, [5, 50])),
                energy=float(pick(rng, [10, 30])), pixel_size=float(pick(rng, [1e-4, 5e-4]))), ncore=True, nchunk=True, slc=dict(tomo=0), out_ax=0, ints=("tomo",), threads="process")


def distortion(rng):
    t = array(rng, _vol(rng, 2, 20), "uniform")
    return Call("distortion_correction_proj", tomopy.distortion_correction_proj, dict(tomo=t), dict(xcenter=float(rng.uniform(0, t.shape[2])), ycenter=float(rng.uniform(0, t.shape[1])),
                list_fact=[1.0, float(rng.normal() * 1e-2), float(rng.normal() * 1e-4)]), ncore=True, nchunk=True, slc=dict(tomo=0), out_ax=0, ints=("tomo",), threads="process")


def distortion_sino(rng):
    t = array(rng, _vol(rng, 2, 20), "uniform")
    return Call("distortion_correction_sino", tomopy.distortion_correction_sino, dict(tomo=t), dict(ind=int(rng.integers(t.shape[1])), xcenter=float(rng.uniform(0, t.shape[2])),
                ycenter=float(rng.uniform(0, t.shape[1])), list_fact=[1.0, float(rng.normal() * 1e-2)]), slc=dict(tomo=0), out_ax=0, ints=("tomo",))


def minus_log(rng):
    t = array(rng, _nd(rng), "positive")
    return Call("minus_log", tomopy.minus_log, dict(arr=t), {}, ncore=True, slc=dict(arr=0), out_ax=0, out=True, ints=("arr",))


def normalize(rng):
    sh = _vol(rng)
    t, f, d = array(rng, sh, "counts"), array(rng, (int(rng.integers(1, 5)),) + sh[1:], "counts") + np.float32(5000), array(rng, (int(rng.integers(1, 5)),) + sh[1:], "counts")
    kw = dict(averaging=pick(rng, ["mean", "median"]))
    if rng.random() < .5:
        kw["cutoff"] = float(rng.uniform(.2, 1.2))
    return Call("normalize", tomopy.normalize, dict(arr=t, flat=f, dark=d), kw, ncore=True, slc=dict(arr=1, flat=1, dark=1), out_ax=1, out=True, ints=("arr", "flat", "dark"))


def normalize_nf(rng):
    sh = _vol(rng, 2)
    nl = int(rng.integers(1, min(4, sh[0]) + 1))
    t, f, d = array(rng, sh, "counts"), array(rng, (nl * int(rng.integers(1, 3)),) + sh[1:], "counts") + np.float32(5000), array(rng, (int(rng.integers(1, 5)),) + sh[1:], "counts")
    kw = dict(averaging=pick(rng, ["mean", "median"]), flat_loc=sorted(int(x) for x in rng.choice(sh[0], nl, replace=False)))
    if rng.random() < .5:
        kw["cutoff"] = float(rng.uniform(.2, 1.2))
    return Call("normalize_nf", tomopy.normalize_nf, dict(tomo=t, flats=f, dark=d), kw, ncore=True, slc=dict(tomo=1, flats=1, dark=1), out_ax=1, out=True, ints=("tomo", "flats", "dark"))


def normalize_bg(rng):
    sh = _vol(rng)
    sh = (sh[0], sh[1], max(sh[2], 3))
    return Call("normalize_bg", tomopy.normalize_bg, dict(tomo=array(rng, sh, "positive")), dict(air=int(rng.integers(1, sh[2] // 2 + 1))), ncore=True, nchunk=True, slc=dict(tomo=0), out_ax=0,
                ints=("tomo",), threads="process")


def normalize_roi(rng):
    sh = _vol(rng, 2)
    y, x = int(rng.integers(sh[1])), int(rng.integers(sh[2]))
    return Call("normalize_roi", tomopy.normalize_roi, dict(arr=array(rng, sh, "positive")), dict(roi=[y, x, int(rng.integers(y + 1, sh[1] + 1)), int(rng.integers(x + 1, sh[2] + 1))]), ncore=True,
                slc=dict(arr=0), out_ax=0, ints=("arr",), threads="process")


def filt(nm):
    def mk(rng):
        sh = _nd(rng, 1, 9) if nm in ("remove_outlier", "remove_outlier1d") else _vol(rng)
        sh = (2,) + sh if len(sh) < 2 else sh
        kw = dict(axis=int(rng.integers(len(sh))))
        ax = kw["axis"]
        key = "arr"
        a = dict(arr=array(rng, sh, pick(rng, ["normal", "positive", "counts"])))
        extra = {}
        if nm == "gaussian_filter":
            kw.update(sigma=float(pick(rng, [.5, 1, 3])), order=int(pick(rng, [0, 0, 1])))
        elif nm == "median_filter":
            kw["size"] = int(pick(rng, [1, 2, 3, 5]))
        elif nm == "remove_outlier":
            kw.update(size=int(pick(rng, [1, 3, 5])), dif=float(pick(rng, [.3, 1, 100])))
            extra["out"] = True
        elif nm == "remove_outlier1d":
            # the filter runs along axis: slices are the other axes
            kw.update(size=int(pick(rng, [1, 3, 5])), dif=float(pick(rng, [.3, 1, 100])))
            extra["out"] = True
            ax = int(pick(rng, [i for i in range(len(sh)) if i != kw["axis"]]))
        elif nm == "circ_mask":
            kw.update(ratio=float(pick(rng, [.3, .8, 1])), val=float(pick(rng, [0, -1])))
            extra["inplace"] = ("arr",)
        return Call(nm, getattr(tomopy, nm), a, kw, ncore=True, slc={key: ax}, out_ax=ax, ints=("arr",), **extra)
    return mk


def filt3(nm):
    def mk(rng):
        sh = _vol(rng, 1, 12)
        kw = dict(size=int(pick(rng, [3, 5])))
        a = array(rng, sh, pick(rng, ["normal", "counts"]))
        if nm == "remove_outlier3d":
            kw["dif"] = float(pick(rng, [.3, 1, 100]))
        if rng.random() < .3:
            a = a.astype(np.uint16 if a.min() >= 0 else np.float32)
        return Call(nm, getattr(tomopy, nm), dict(arr=a), kw, ncore=True, fixed=("arr",) if a.dtype != np.float32 else ())
    return mk


def elem(nm):
    def mk(rng):
        sh = _nd(rng)
        a = array(rng, sh, "normal")
        kw = dict(val=float(pick(rng, [0, .5])))
        if nm == "remove_nan":
            a[rng.random(sh) < .1] = np.nan
        return Call(nm, getattr(tomopy, nm), dict(arr=a), kw, ncore=True, slc=dict(arr=0), out_ax=0, inplace=("arr",), ints=() if nm == "remove_nan" else ())
    return mk


def adjust(rng):
    return Call("adjust_range", tomopy.adjust_range, dict(arr=array(rng, _nd(rng), "normal")), dict(dmin=-.5, dmax=.7), inplace=("arr",), slc=dict(arr=0), out_ax=0)


def nonfinite(rng):
    a = array(rng, tuple(max(2, s) for s in _vol(rng)), "normal")
    a[rng.random(a.shape) < .05] = pick(rng, [np.nan, np.inf])
    return Call("median_filter_nonfinite", tomopy.misc.corr.median_filter_nonfinite, dict(arr=a), dict(size=int(pick(rng, [5, 7])), callback=lambda *x: None), inplace=("arr",), slc=dict(arr=0), out_ax=0, poison=False)


def ring(rng):
    n = int(pick(rng, [8, 9, 16, 21, 24]))
    a = array(rng, (int(pick(rng, [1, 2, 3, 5])), n, n), pick(rng, ["normal", "smooth"]))
    kw = dict(thresh=float(pick(rng, [.5, 300])), thresh_max=float(pick(rng, [1, 300])), thresh_min=float(pick(rng, [-1, -100])), theta_min=int(pick(rng, [0, 5, 30, 90, 179])), rwidth=int(pick(rng, [0, 1, 2, 5, 30])),
              int_mode=pick(rng, ["WRAP", "REFLECT"]))
    if rng.random() < .5:
        kw.update(center_x=n / 2 + float(rng.uniform(-2, 2)), center_y=n / 2 + float(rng.uniform(-2, 2)))
    return Call("remove_ring", tomopy.remove_ring, dict(rec=a), kw, ncore=True, nchunk=True, slc=dict(rec=0), out_ax=0, out=True, poison=False, ints=("rec",))


def inpaint(rng):
    sh = tuple(max(3, s) for s in _vol(rng))
    if rng.random() < .15:
        sh = sh[:2]
    a = array(rng, sh, "positive")
    m = rng.random(sh) < .2
    t = pick(rng, ["mean", "median", "random"])
    kw = dict(size=int(pick(rng, [3, 5])), iterations=int(pick(rng, [1, 2])), inpainting_type=t)
    ax = None
    if rng.random() < .6 and len(sh) == 3:
        ax = int(rng.integers(3))
        kw["axis"] = ax
    return Call("inpainter_morph:" + t, tomopy.inpainter_morph, dict(arr=a, mask=m), kw, ncore=True, slc=dict(arr=ax, mask=ax) if ax is not None and t != "random" else None, out_ax=ax,
                exact=t != "random", fixed=("mask",))


def detect(rng):
    sh = tuple(int(rng.integers(10, 16)) for _ in range(3))
    return Call("stripes_detect3d", tomopy.prep.stripe.stripes_detect3d, dict(tomo=array(rng, sh, "positive")), dict(size=int(pick(rng, [1, 2, 4])), radius=int(pick(rng, [1, 3]))), ncore=True, ints=())


def mask3d(rng):
    sh = tuple(int(rng.integers(3, 13)) for _ in range(3))
    return Call("stripes_mask3d", tomopy.prep.stripe.stripes_mask3d, dict(weights=array(rng, sh, "uniform")), dict(threshold=float(rng.uniform(.2, .9)), min_stripe_length=int(rng.integers(1, sh[0])),
                min_stripe_depth=int(rng.integers(0, sh[1])), min_stripe_width=int(rng.integers(1, min(5, sh[2]))), sensitivity_perc=float(pick(rng, [50, 85, 100]))), ncore=True)


def resample(nm):
    def mk(rng):
        ax = int(rng.integers(3))
        o = int(pick(rng, [i for i in range(3) if i != ax]))
        return Call(nm, getattr(tomopy, nm), dict(arr=array(rng, _vol(rng, 2), pick(rng, ["normal", "counts"]))), dict(level=int(rng.integers(0, 3)), axis=ax), slc=dict(arr=o), out_ax=o, ints=("arr",))
    return mk


def pad(rng):
    sh = _nd(rng)
    sh = (2,) + sh if len(sh) < 2 else sh
    ax = int(rng.integers(len(sh)))
    o = int(pick(rng, [i for i in range(len(sh)) if i != ax]))
    kw = dict(axis=ax, npad=int(rng.integers(0, 6)), mode=pick(rng, ["constant", "edge"]))
    return Call("pad", tomopy.pad, dict(arr=array(rng, sh, pick(rng, ["normal", "counts"]))), kw, ncore=True, slc=dict(arr=o), out_ax=o, ints=("arr",), threads="process")


def s360(rng):
    sh = (2 * int(rng.integers(1, 6)), int(rng.integers(1, 5)), int(rng.integers(2, 12)))
    return Call("sino_360_to_180", tomopy.sino_360_to_180, dict(data=array(rng, sh, "positive")), dict(overlap=int(rng.integers(0, sh[2] + 1)), rotation=pick(rng, ["left", "right"])), slc=dict(data=1), out_ax=1)


def trim(rng):
    dt, dy, dx = int(rng.integers(1, 8)), int(rng.integers(2, 6)), int(rng.integers(12, 30))
    return Call("trim_sinogram", tomopy.trim_sinogram, dict(data=array(rng, (dt, dy, dx), "positive")), dict(center=dx / 2, x=int(rng.integers(-2, 3)), y=int(rng.integers(-2, 3)), diameter=int(rng.integers(2, 6))),
                slc=dict(data=1), out_ax=1, ints=("data",), alone=True)


def align(nm):
    def mk(rng):
        t = array(rng, (int(rng.integers(1, 5)), int(rng.integers(4, 16)), int(rng.integers(4, 16))), "positive")
        arrs, kw, extra = dict(prj=t), {}, {}
        if nm == "shift_images":
            arrs.update(sx=rng.uniform(-2, 2, len(t)), sy=rng.uniform(-2, 2, len(t)))
        elif nm == "add_jitter":
            kw, extra = dict(low=-2, high=2), dict(rand=True)
        elif nm == "add_noise":
            kw, extra = dict(ratio=.1), dict(rand=True)
        elif nm == "blur_edges":
            kw = dict(low=float(rng.uniform(0, .4)), high=float(rng.uniform(.5, 1)))
            extra = dict(slc=dict(prj=0), out_ax=0)
        return Call(nm, getattr(tomopy.prep.alignment, nm), arrs, kw, **extra)
    return mk


def noise(nm):
    def mk(rng):
        t = array(rng, _vol(rng), "positive")
        kw = dict(add_drift=dict(amp=.3, period=7), add_gaussian=dict(mean=.1, std=.2), add_poisson={}, add_rings=dict(std=.1), add_salt_pepper=dict(prob=.1, val=3.), add_zingers=dict(f=.1, sat=9.))[nm]
        return Call(nm, getattr(tomopy, nm), dict(tomo=t), kw, rand=True, inplace=("tomo",) if nm in ("add_gaussian", "add_salt_pepper") else (), fixed=() if nm != "add_poisson" else ())
    return mk


def center_vo(rng):
    t = array(rng, (24, int(rng.integers(1, 4)), 32), "smooth")
    return Call("find_center_vo", tomopy.find_center_vo, dict(tomo=t), dict(smin=-4, smax=4, drop=2, srad=2, step=.5, ind=0), ncore=True, ints=())


def center_pc(rng):
    sh = (int(rng.integers(4, 16)), int(rng.integers(8, 24)))
    return Call("find_center_pc", tomopy.find_center_pc, dict(proj1=array(rng, sh, "normal"), proj2=array(rng, sh, "normal")), dict(tol=.5))


def find_center(rng):
    dt, dy, dx = int(rng.integers(8, 20)), int(rng.integers(1, 4)), int(pick(rng, [16, 24]))
    o = bool(rng.integers(2))
    t = array(rng, (dy, dt, dx) if o else (dt, dy, dx), "smooth")
    kw = dict(tol=.5, ind=int(rng.integers(dy)), init=dx / 2 + .5, sinogram_order=o, mask=bool(rng.integers(2)))
    return Call("find_center", tomopy.find_center, dict(tomo=t, theta=np.linspace(0, np.pi, dt, endpoint=False).astype(np.float32)), kw)


def enhance(rng):
    return Call("enhance_projs_aps_1id", tomopy.misc.corr.enhance_projs_aps_1id, dict(imgstack=array(rng, (int(rng.integers(1, 4)), 40, 44), "positive")), dict(median_ks=3), ncore=True, threads="process")


MAKERS = {"recon:" + a: recon(a) for a in ALGS}
MAKERS.update({"vector": vector(1), "vector2": vector(2), "vector3": vector(3), "project": project(1), "project2": project(2), "project3": project(3)})
STRIPES = ["remove_stripe_fw", "remove_stripe_ti", "remove_stripe_sf", "remove_stripe_based_sorting", "remove_stripe_based_filtering", "remove_stripe_based_fitting", "remove_large_stripe",
           "remove_dead_stripe", "remove_all_stripe", "remove_stripe_based_interpolation"]
MAKERS.update({s: stripe(s) for s in STRIPES})
MAKERS.update(retrieve_phase=phase, distortion_correction_proj=distortion, distortion_correction_sino=distortion_sino, minus_log=minus_log, normalize=normalize, normalize_nf=normalize_nf,
              normalize_bg=normalize_bg, normalize_roi=normalize_roi)
MAKERS.update({f: filt(f) for f in ("gaussian_filter", "median_filter", "sobel_filter", "remove_outlier", "remove_outlier1d", "circ_mask")})
MAKERS.update({f: filt3(f) for f in ("median_filter3d", "remove_outlier3d")})
MAKERS.update({f: elem(f) for f in ("remove_nan", "remove_neg")})
MAKERS.update(adjust_range=adjust, median_filter_nonfinite=nonfinite, remove_ring=ring, inpainter_morph=inpaint, stripes_detect3d=detect, stripes_mask3d=mask3d,
              downsample=resample("downsample"), upsample=resample("upsample"), pad=pad, sino_360_to_180=s360, trim_sinogram=trim)
MAKERS.update({f: align(f) for f in ("scale", "shift_images", "add_jitter", "add_noise", "blur_edges")})
MAKERS.update({f: noise(f) for f in ("add_drift", "add_gaussian", "add_poisson", "add_rings", "add_salt_pepper", "add_zingers")})
MAKERS.update(find_center_vo=center_vo, find_center_pc=center_pc, find_center=find_center, enhance_projs_aps_1id=enhance)
NAMES = list(MAKERS)


def make(name, rng):
    return MAKERS[name](rng)
