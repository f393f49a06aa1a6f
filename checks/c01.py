from vlib import *
import catalog, ctypes
tomopy = lazy("tomopy")
VARIANT = "asan"
RULE = ("every public function that runs compiled code, on small random data with ordinary and hostile options (single-pixel and non-square grids, far-off and border centers, angles beyond a turn, zero iterations, "
        "kernels larger than the data, full masks, NaN and infinite values, several workers). 'kernels': the calls run on an AddressSanitizer+UBSan build with poisoned guard zones around shared arrays; 'leak': "
        "the bytes the allocator holds after a native call minus before it, recorded for every native call, must not stay positive over repeated calls; 'uninit': a release build runs each call with fresh heap memory filled by three different patterns, results must agree bit for bit; "
        "non-trivial: the kernel returned a result under the sanitizer")
ASSUMPTIONS = ["a rejected request (ValueError) counts as safe", "gcc AddressSanitizer/UBSan detect what their red zones and instrumentation cover", "the FFT library itself is not instrumented"]
NAMES = ["recon:" + a for a in catalog.ALGS] + ["vector", "vector2", "vector3", "project", "project2", "project3", "downsample", "upsample", "normalize_bg", "remove_ring", "median_filter3d",
         "remove_outlier3d", "inpainter_morph", "stripes_detect3d", "stripes_mask3d", "remove_stripe_sf"]


def gen(rng, i):
    return dict(name=NAMES[i % len(NAMES)], hostile=bool(rng.random() < .6), round=i // len(NAMES))


def gen_leak(rng, i):
    n = NAMES + ["recon:gridrec"] * 3       # many filters, each with its own buffers
    return dict(name=n[i % len(n)], hostile=bool(rng.random() < .4), round=i)


def hostile(c, rng):
    """extreme but admissible variations of a call"""
    n = c.name
    A, K = c.arrs, c.kw
    if n.startswith("recon"):
        o = pick(rng, ["center", "theta", "grid", "grid1", "iter0", "data", "width", "one"])
        sino = K.get("sinogram_order", False)
        if o == "center":
            A.pop("center", None)
            K["center"] = float(pick(rng, [0, -3, -1000, 1e4, A["tomo"].shape[2], A["tomo"].shape[2] - .5, 1e-3]))
        elif o == "theta":
            A["theta"] = np.float32(pick(rng, [1, 100, -7, 1e3, np.pi / 4])) * rng.integers(-3, 4, A["theta"].shape).astype(np.float32)
        elif o in ("grid", "grid1") and "init_recon" not in A and "reg_data" not in A and A.get("filter_par", np.zeros(0)).size < 8:
            if o == "grid":
                K.update(num_gridx=int(rng.integers(1, 40)), num_gridy=int(rng.integers(1, 40)))
            else:
                K.update(num_gridx=int(pick(rng, [1, 2, 31])), num_gridy=int(pick(rng, [1, 2, 31])))
        elif o == "iter0" and "num_iter" in K:
            K["num_iter"] = 0
        elif o == "data":
            A["tomo"][rng.random(A["tomo"].shape) < .2] = pick(rng, [0, np.nan, np.inf, -1, 1e30])
        elif o == "width":
            w = int(pick(rng, [1, 2, 3, 63, 64, 65]))
            A["tomo"] = array(rng, A["tomo"].shape[:2] + (w,), "positive")
            for k in ("init_recon", "reg_data", "center", "filter_par"):
                A.pop(k, None)
            for k in ("num_gridx", "num_gridy", "center", "filter_name"):
                K.pop(k, None)
    elif n.startswith("project"):
        o = pick(rng, ["center", "theta", "one", "data"])
        if o == "center":
            A.pop("center", None)
            K["center"] = float(pick(rng, [0, -3, -1000, 1e4]))
        elif o == "theta":
            A["theta"] = np.float32(pick(rng, [1, 100, -7, np.pi / 4])) * rng.integers(-3, 4, A["theta"].shape).astype(np.float32)
        elif o == "one":
            for k in A:
                if k.startswith("obj"):
                    A[k] = array(rng, (1, 1, 1) if K.get("axis") else (A[k].shape[0], 1, 1), "positive")
            A.pop("center", None)
            K.pop("center", None)
        else:
            for k in A:
                if k.startswith("obj"):
                    A[k][rng.random(A[k].shape) < .2] = pick(rng, [np.nan, np.inf, 1e30])
    elif n == "remove_ring":
        K.update(theta_min=int(pick(rng, [1, 45, 90, 180])), rwidth=int(pick(rng, [1, 2, 100])))
        h, w = A["rec"].shape[1:]
        if rng.random() < .6:
            K.update(center_x=float(rng.uniform(1, w - 2)), center_y=float(rng.uniform(1, h - 2)))
        if rng.random() < .3:
            A["rec"] = array(rng, (2, int(rng.integers(4, 30)), int(rng.integers(4, 30))), "normal")
            for k in ("center_x", "center_y"):
                K.pop(k, None)
    elif n in ("median_filter3d", "remove_outlier3d"):
        K["size"] = int(pick(rng, [3, 7, 9]))
        sh = [int(pick(rng, [1, 2, 3, 11])) for _ in range(3)]
        A["arr"] = array(rng, sh, "counts").astype(pick(rng, ["float32", "uint16"]))
    elif n.startswith("inpainter"):
        K["size"] = int(pick(rng, [3, 7, 15]))
        K["iterations"] = int(pick(rng, [1, 3, 8]))
        o = rng.random()
        if o < .3:
            A["mask"][...] = True
        elif o < .6:
            A["mask"][0] = True
        elif o < .7:
            A["mask"][...] = False
    elif n == "stripes_detect3d":
        K.update(size=int(rng.integers(1, A["tomo"].shape[0] // 2 + 1)), radius=int(pick(rng, [0, 1, 5, 20])))
        if rng.random() < .3:
            A["tomo"][rng.random(A["tomo"].shape) < .3] = pick(rng, [0, np.nan, np.inf])
    elif n == "stripes_mask3d":
        sh = A["weights"].shape
        K.update(min_stripe_length=int(pick(rng, [1, sh[0] - 1])), min_stripe_depth=int(pick(rng, [0, sh[1] - 1])), min_stripe_width=int(pick(rng, [1, sh[2] - 1])), sensitivity_perc=float(pick(rng, [.1, 1, 50, 100])))
        if rng.random() < .3:
            A["weights"][...] = pick(rng, [0, 1])
    elif n == "remove_stripe_sf":
        K["size"] = int(pick(rng, [1, 2, 3, A["tomo"].shape[2], A["tomo"].shape[2] + 1]))
    elif n == "normalize_bg":
        sh = (int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(pick(rng, [2, 3, 9])))
        A["tomo"] = array(rng, sh, "positive")
        K["air"] = int(rng.integers(1, sh[2] + 1))
    elif n in ("downsample", "upsample"):
        K["level"] = int(pick(rng, [0, 1, 3]))
        A["arr"] = array(rng, [int(pick(rng, [1, 2, 3, 8, 9])) for _ in range(3)], "normal")
    return c


def make(p, tag):
    rng = rng_for(tag, p["seed"])
    c = catalog.make(p["name"], rng)
    if c.name == "recon:gridrec":      # every filter
        c.arrs.pop("filter_par", None)
        dx, dt = c.arrs["tomo"].shape[2], len(c.arrs["theta"])
        half = 8
        while 2 * half < max(dx, c.kw.get("num_gridx", 0), c.kw.get("num_gridy", 0)):
            half *= 2
        f = catalog.FILTERS[int(p["round"] + rng.integers(0, 2)) % len(catalog.FILTERS)]
        c.kw["filter_name"] = f
        k = dict(custom=half, custom2d=dt * half, hann=1, hamming=1, parzen=1, butterworth=2).get(f, 0)
        if k:
            c.arrs["filter_par"] = (rng.random(k) + .1).astype(np.float32)
    if p["hostile"]:
        c = hostile(c, rng)
    over = {}
    if c.ncore:
        over["ncore"] = int(pick(rng, [1, 1, 1, 2, 4]))
        if c.threads == "process" or tag == "c01l":
            over["ncore"] = 1
    return c, over


def shard_init():
    if os.environ["VERIF_VARIANT"] == "asan":
        guard_shared()


def guard_shared():
    """Shared arrays live in mmap'ed arenas without red zones: add poisoned ones."""
    import multiprocessing.heap as heap
    from multiprocessing import sharedctypes, util
    lib = ctypes.CDLL(None)
    P, U = lib.__asan_poison_memory_region, lib.__asan_unpoison_memory_region
    for f in (P, U):
        f.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
        f.restype = None
    Z = 64
    base = heap.BufferWrapper

    def free(block, addr, n):
        U(addr, n)
        base._heap.free(block)

    class Guarded:
        def __init__(self, size):
            n = size + 2 * Z
            block = base._heap.malloc(n)
            self._state = (block, size)
            (arena, start, stop) = block
            addr = ctypes.addressof(ctypes.c_char.from_buffer(memoryview(arena.buffer)[start:stop]))
            U(addr, n)
            P(addr, Z)
            P(addr + Z + size, n - Z - size)
            util.Finalize(self, free, args=(block, addr, n))

        def create_memoryview(self):
            (arena, start, stop), size = self._state
            return memoryview(arena.buffer)[start + Z:start + Z + size]

    class H:
        pass
    h = H()
    h.BufferWrapper = Guarded
    sharedctypes.heap = h


def run_kernel(p, mon):
    c, over = make(p, "c01")
    mon.count("fn:" + c.name)
    try:
        r = catalog.res(c.run(c.fresh(), **over))
    except ValueError as e:
        mon.count("refused")
        mon.ok(p["hostile"], "accepted", lambda: f"{c.name} refused an ordinary request: {e} {c.kw}")
        return
    mon.count("returned")
    mon.sig(c.name, [v.shape for v in c.arrs.values()], sorted((k, str(v)) for k, v in c.kw.items()))


EVENTS = []      # (kernel, allocator bytes held after the native call minus before)
_hooked = False


def hook_native():
    """Every native call of the tomopy libraries is bracketed by readings of the allocator."""
    global _hooked
    if _hooked:
        return
    _hooked = True
    get = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    get.restype = ctypes.c_size_t
    import gc as _gc

    def reading():
        b = get()
        return get() - b
    own = [reading() for _ in range(9)][-1]       # what the reading itself allocates
    catalog.tomopy.recon     # libraries are loaded now
    for lib in [o for o in _gc.get_objects() if isinstance(o, ctypes.CDLL) and "libtomo" in str(o._name)]:
        cls = lib._FuncPtr
        base = cls.__mro__[1]

        def call(self, *a, _base=base):
            keep, self.restype = self.restype, None       # nobody uses the return values
            _base.__call__(self, *a)                      # ctypes allocates lazily in the first call
            b = get()
            _base.__call__(self, *a)
            EVENTS.append((self.__name__, get() - b - own))
            self.restype = keep
        cls.__call__ = call


def run_leak(p, mon):
    hook_native()
    c, over = make(p, "c01l")
    args = c.fresh()
    N = 8
    hist = []
    for k in range(N + 3):
        del EVENTS[:]
        try:
            c.run(args, **over)
        except ValueError:
            mon.count("refused")
            return
        hist.append(list(EVENTS))
    mon.count("native-calls", sum(len(h) for h in hist))
    if not mon.ok(hist[-1], "hooked", f"{c.name}: no native call seen"):
        return
    tot = [sum(d for _, d in h) for h in hist[3:]]
    mon.count("fn-leak:" + c.name)
    mon.ok(not all(t > 0 for t in tot), "no-growth:"+c.name, lambda: f"{c.name}: native calls keep {tot} more bytes each time ({hist[-1][:4]}); {c.kw} {over}")
    mon.sig("l", c.name, [v.shape for v in c.arrs.values()], sorted((k, str(v)) for k, v in c.kw.items()))


_mall = None


def fill(v):
    global _mall
    if _mall is None:
        _mall = ctypes.CDLL(None).mallopt
    _mall(-6, v ^ 0xFF if v != 0xFF else 0)      # M_PERTURB; 0 disables, then the churn below does the filling
    if v == 0xFF:
        _mall(-6, 0)
    for n in list(range(8, 1040, 8)) * 2:
        x = [np.full(n, v, np.uint8) for _ in range(4)]
    b = [np.full(1 << k, v, np.uint8) for k in range(10, 17) for _ in range(4)]
    del b, x


def run_uninit(p, mon):
    c, over = make(p, "c01u")
    c.rand = c.rand or "random" in c.name
    if "random" in c.name:
        return
    ref = None
    for v in (0x3F, 0x7E, 0xBE):
        fill(v)
        a = c.fresh()
        try:
            r = catalog.res(c.run(a, **over))
        except ValueError:
            mon.count("refused")
            break
        r = [x.copy() for x in r]
        if ref is None:
            ref = r
            continue
        for x, y in zip(r, ref):
            mon.equal(x, y, "heap-independent", f"{c.name} {c.kw} {over} fill {v:#x}")
    else:
        mon.count("fn-uninit:" + c.name)
        mon.sig("u", c.name, [x.shape for x in c.arrs.values()])
    ctypes.CDLL(None).mallopt(-6, 0)


NN = len(NAMES)
FAMILIES = [Family("kernels", gen, run_kernel, 48 * NN, 240 * NN), Family("leak", gen_leak, run_leak, 16 * NN, 80 * NN),
            Family("uninit", gen, run_uninit, 32 * NN, 160 * NN, variant="release")]
REQUIRED = ["returned", "native-calls", "monitor:heap-independent"] + ["fn:recon:" + a for a in catalog.ALGS]
