"""Monitor API and case runner shared by all checks."""
import json, os, sys, time, traceback, warnings, zlib, random
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"


class Mon:
    """Collects the observations of one case."""

    def __init__(self):
        self.viol = []          # [{key,msg}]
        self.counts = {}
        self.sigs = set()

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def sig(self, *t):
        """Record a distinct, non-trivial observation."""
        self.sigs.add(repr(t))

    def fail(self, key, msg):
        if len(self.viol) < 20:
            self.viol.append({"key": key, "msg": str(msg)[:2000]})

    def ok(self, cond, key, msg=""):
        self.count("monitor:" + key)
        if not bool(cond):
            self.fail(key, msg() if callable(msg) else msg)
            return False
        return True

    def equal(self, got, ref, key, msg=""):
        """bitwise equality (NaN == NaN, shape and values)"""
        self.count("monitor:" + key)
        got, ref = np.asarray(got), np.asarray(ref)
        if got.shape != ref.shape:
            self.fail(key, f"{msg}: shape {got.shape} != {ref.shape}")
            return False
        with np.errstate(all="ignore"):
            if got.dtype.kind in "fc" or ref.dtype.kind in "fc":
                same = (got == ref) | ((got != got) & (ref != ref))
            else:
                same = got == ref
        if not np.all(same):
            bad = np.argwhere(~same)
            i = tuple(int(x) for x in bad[0])
            self.fail(key, f"{msg}: {len(bad)} of {got.size} elements differ, first at {i}: got {got[i]!r} expected {ref[i]!r}")
            return False
        return True

    def close(self, got, ref, key, msg="", rtol=1e-4, atol=None, scale=None, frac=0.0):
        """|got-ref| <= atol + rtol*scale, scale = max|finite ref| unless given (array or number).

        frac: tolerated fraction of deviating elements."""
        self.count("monitor:" + key)
        got, ref = np.asarray(got), np.asarray(ref)
        if got.shape != ref.shape:
            self.fail(key, f"{msg}: shape {got.shape} != {ref.shape}")
            return False
        if got.size == 0:
            return True
        g = got.astype(np.complex128 if got.dtype.kind == "c" else np.float64)
        r = ref.astype(np.complex128 if ref.dtype.kind == "c" else np.float64)
        fin = np.isfinite(r)
        if scale is None:
            scale = float(np.max(np.abs(r[fin]))) if fin.any() else 0.0
        with np.errstate(all="ignore"):
            tol = (0.0 if atol is None else atol) + rtol * scale
            err = np.abs(g - r)
            good = err <= tol
            good |= ~fin & ((g == r) | ((g != g) & (r != r)))
        nbad = int((~good).sum())
        if nbad > frac * got.size:
            bad = np.argwhere(~good)
            e = np.where(good, -1.0, np.where(np.isfinite(err), err, np.inf))
            i = tuple(int(x) for x in np.unravel_index(int(np.argmax(e)), e.shape))
            self.fail(key, f"{msg}: {nbad} of {got.size} elements outside tolerance (tol {np.max(tol):.3g}); worst at {i}: got {got[i]!r} expected {ref[i]!r}; first at {tuple(int(x) for x in bad[0])}")
            return False
        return True


def rng_for(*key):
    return np.random.default_rng([SEED & 0xFFFFFFFF] + [zlib.crc32(str(k).encode()) for k in key])


class Family:
    """gen(rng, i) -> JSON-able params; run(params, mon)."""

    def __init__(self, name, gen, run, quick, thorough=None, timeout=120, serial=False, variant=None):
        self.name, self.gen, self.run = name, gen, run
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 8
        self.timeout = timeout
        self.variant = variant   # library build (default: the check's)
        self.serial = serial     # runs alone in the last phase (uses all cores or timing)

    def n(self):
        return self.thorough if THOROUGH else self.quick


def case_list(fams):
    out = []
    for f in fams:
        for i in range(f.n()):
            out.append((f.name, i))
    return out


def make_params(fam, i):
    r = rng_for("case", fam.name, i)
    p = fam.gen(r, i)
    p.setdefault("seed", int(r.integers(1 << 31)))
    return json.loads(json.dumps(p, default=_js))


def _js(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def run_case(fam, params):
    mon = Mon()
    t0 = time.time()
    st = np.random.get_state()
    np.random.seed(params["seed"] & 0x7FFFFFFF)
    random.seed(params["seed"])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                fam.run(params, mon)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        repo = [f for f in tb if "/source/tomopy/" in f.filename]
        where = (os.path.basename(repo[-1].filename) + ":" + repo[-1].name) if repo else \
                (os.path.basename(tb[-1].filename) + ":" + tb[-1].name)
        mon.fail(f"exception:{type(e).__name__}:{where}", f"{fam.name}: {type(e).__name__}: {e} at {where}\n" +
                 "".join(traceback.format_list(tb[-4:])))
    finally:
        np.random.set_state(st)
    return mon, time.time() - t0


def array(rng, shape, kind="normal", dtype=np.float32):
    """Data workloads: what real and hostile scans look like."""
    n = int(np.prod(shape))
    if kind == "normal":
        a = rng.normal(size=shape)
    elif kind == "uniform":
        a = rng.random(shape)
    elif kind == "positive":
        a = rng.random(shape) * 3 + 0.05
    elif kind == "counts":
        a = rng.integers(0, 4096, shape)
    elif kind == "sparse":
        a = rng.normal(size=shape) * (rng.random(shape) < 0.1)
    elif kind == "smooth":
        a = np.zeros(shape)
        gr = np.meshgrid(*[np.linspace(0, 1, s) for s in shape], indexing="ij")
        for _ in range(4):
            ph = sum(g * rng.normal() * 5 for g in gr) + rng.random() * 6
            a = a + np.sin(ph) * rng.random()
        a = a + 2
    elif kind == "constant":
        a = np.full(shape, rng.random() * 3 + 0.1)
    elif kind == "zero":
        a = np.zeros(shape)
    elif kind == "large":
        a = rng.normal(size=shape) * 1e4
    elif kind == "tiny":
        a = rng.random(shape) * 1e-4
    else:
        raise ValueError(kind)
    return np.ascontiguousarray(a.astype(dtype))


KINDS = ["normal", "uniform", "positive", "counts", "sparse", "smooth", "constant", "zero", "large", "tiny"]


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


class _Lazy:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, k):
        import importlib
        return getattr(importlib.import_module(self._n), k)


def lazy(name):
    return _Lazy(name)
