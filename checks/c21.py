from vlib import *
import catalog, copy, hashlib, subprocess, threading, signal as sg
tomopy = lazy("tomopy")
RULE = ("'state': every public function with random valid calls, invalid requests, and faults (exceptions, KeyboardInterrupt) raised inside its kernels or the numerical libraries it calls, from random starting states (preset environment, numexpr threads, numpy error and random state, working directory): "
        "environment, numexpr threads, numpy/python random and error state, signal handlers, warning filters, working directory, module-level data of all tomopy modules, python threads, child processes and (after repetition) open files are compared before and after; "
        "'history': sequences of 6-14 random calls, failing ones included, in one process; every result is compared bitwise with the same call made first in a fresh process; non-trivial: the call completed or failed as planned")
ASSUMPTIONS = ["random draws advance numpy's generator in the noise and jitter helpers only", "inpainting with random neighbours (C library generator) is not compared across histories", "native OpenMP thread settings are not part of the state"]
REQUIRED = ["monitor:" + k for k in ("environ", "numexpr", "nprandom", "tables", "children", "threads", "fds", "history", "history-after-failure", "overlap-environ")] + ["overlapping-recons"] + ["failed-call", "kernel-fault"]
NAMES = [n for n in catalog.NAMES]
SLOW = {"find_center", "enhance_projs_aps_1id", "find_center_vo"}


def gen(rng, i):
    return dict(i=i, name=NAMES[i % len(NAMES)])


# ---- snapshot --------------------------------------------------------------------
def plain(v, depth=0):
    if isinstance(v, (int, float, str, bytes, bool, type(None), complex)):
        return repr(v)
    if isinstance(v, np.ndarray):
        return ("array", v.dtype.str, v.shape, hashlib.md5(np.ascontiguousarray(v).tobytes()).hexdigest()) if v.dtype != object else "objects"
    if isinstance(v, np.generic):
        return repr(v)
    if depth < 5 and isinstance(v, dict):
        return tuple(sorted((repr(k), plain(x, depth + 1)) for k, x in v.items()))
    if depth < 5 and isinstance(v, (list, tuple, set, frozenset)):
        t = [plain(x, depth + 1) for x in v]
        return tuple(sorted(map(repr, t))) if isinstance(v, (set, frozenset)) else tuple(t)
    return type(v).__name__


def tables():
    out = {}
    for m in sorted(k for k in sys.modules if k == "tomopy" or k.startswith("tomopy.")):
        for k, v in list(vars(sys.modules[m]).items()):
            if k.startswith("__") or callable(v) or type(v).__name__ == "module":
                if callable(v) and getattr(v, "__module__", "").startswith("tomopy") and getattr(v, "__defaults__", None):
                    out[m + "." + k + "()"] = plain(v.__defaults__)
                continue
            out[m + "." + k] = plain(v)
    return out


def children():
    out = set()
    for t in os.listdir("/proc/self/task"):
        try:
            for c in open(f"/proc/self/task/{t}/children").read().split():
                try:
                    cmd = open(f"/proc/{c}/cmdline").read()
                    st = open(f"/proc/{c}/stat").read().rsplit(")", 1)[1].split()[0]
                except OSError:
                    continue
                if "resource_tracker" not in cmd:
                    out.add((int(c), st))
        except OSError:
            pass
    return out


def ne_threads():
    import numexpr as ne
    n = ne.set_num_threads(1)
    ne.set_num_threads(n)
    return n


def snapshot():
    import warnings, logging, gc
    st = np.random.get_state()
    s = dict(environ=dict(os.environ), numexpr=ne_threads(), nprandom=(st[0], hashlib.md5(st[1].tobytes()).hexdigest(), st[2:]), pyrandom=hashlib.md5(repr(random.getstate()).encode()).hexdigest(), nperr=np.geterr(), cwd=os.getcwd(),
             signals={n: repr(sg.getsignal(n)) for n in (sg.SIGINT, sg.SIGTERM, sg.SIGCHLD)}, filters=[repr(f) for f in warnings.filters], loglevel=(logging.getLogger().level, logging.getLogger("tomopy").level, logging.root.disabled, logging.root.manager.disable),
             tables=tables(), printopt=repr(sorted(np.get_printoptions().items(), key=str)), reclimit=sys.getrecursionlimit(), umask=None)
    return s


def quiesce():
    """threads and processes that are ending get a moment to do so; what only the failed call's traceback keeps alive is collected"""
    import gc
    gc.collect()
    for _ in range(200):
        t = [x for x in threading.enumerate() if x is not threading.main_thread() and x not in BASE]
        c = children()
        if not t and not c:
            break
        time.sleep(.05)
    return t, c


BASE = []
RANDOM = ("add_gaussian", "add_poisson", "add_rings", "add_salt_pepper", "add_zingers", "add_jitter", "add_noise")


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
    return (a, b)


class Fault:
    """makes the k-th entry into the compiled kernels or into the numerical libraries (numexpr, scipy, pywt, skimage) raise"""
    FOREIGN = ("numexpr", "scipy", "pywt", "skimage", "pyfftw")

    def __init__(self, k, exc):
        self.k, self.exc, self.n = k, exc, 0

    def __enter__(self):
        self.saved, seen = [], {}
        for mn in [m for m in sys.modules if m.startswith("tomopy.")]:
            m = sys.modules[mn]
            for k in list(vars(m)):
                f = vars(m)[k]
                mod = getattr(f, "__module__", None) or ""
                foreign = mod.split(".")[0] in self.FOREIGN and type(f).__name__ in ("function", "builtin_function_or_method")
                if k.startswith("c_") and callable(f) or foreign:
                    seen.setdefault(id(f), self.wrap(f))
                    self.saved.append((m, k, f))
                    setattr(m, k, seen[id(f)])
        import numexpr, scipy.ndimage
        for m, ks in ((numexpr, ["evaluate"]), (scipy.ndimage, [k for k in scipy.ndimage.__all__ if type(getattr(scipy.ndimage, k)).__name__ == "function"])):
            for k in ks:
                f = getattr(m, k)
                self.saved.append((m, k, f))
                setattr(m, k, self.wrap(f))
        return self

    def wrap(self, f):
        import functools

        @functools.wraps(f)
        def g(*a, **k):
            self.n += 1
            if self.n >= self.k:
                raise self.exc("injected")
            return f(*a, **k)
        return g

    def __exit__(self, *a):
        for m, k, f in self.saved:
            setattr(m, k, f)


def spoil(c, rng):
    """turn a valid call into one that fails (usually): wrong sizes, types or options"""
    a, kw = c.fresh(), dict(c.kw)
    how = pick(rng, ["drop-array", "ndim", "option", "type", "shape", "value", "out", "out"])
    k = pick(rng, sorted(a))
    if how == "drop-array":
        del a[k]
    elif how == "ndim":
        a[k] = a[k][None] if rng.random() < .5 else a[k].ravel()
    elif how == "option":
        kw["no_such_option"] = 1
    elif how == "out":
        kw["out"] = np.ones((5,) * int(rng.integers(1, 5)), pick(rng, ["f4", "f4", "i2", "O"]))
    elif how == "type":
        a[k] = np.array(["x"] * 4)
    elif how == "shape":
        a[k] = a[k][..., :0]
    else:
        for q in list(kw):
            if rng.random() < .5:
                kw[q] = pick(rng, [None, "bad", -3, object()])
        if c.ncore:
            kw["ncore"] = pick(rng, [0, -2, "two", 1.5])
    return how, a, kw


def perform(p, rng, mode, c, over):
    """-> (outcome, digest)"""
    try:
        if mode == "ok":
            r = c.run(c.fresh(), **over)
        elif mode == "bad":
            how, a, kw = spoil(c, rng)
            kw = {**over, **kw}
            r = c.fn(**a, **kw)
        else:
            with Fault(int(rng.integers(1, 4)), KeyboardInterrupt if mode == "interrupt" else pick(rng, [RuntimeError, MemoryError, ValueError])):
                r = c.run(c.fresh(), **over)
        h = hashlib.md5()
        for x in catalog.res(r):
            x = np.ascontiguousarray(x)
            h.update(repr((x.shape, x.dtype.str)).encode())
            h.update(x.tobytes())
        return "ok", h.hexdigest()
    except Exception as e:
        return "raised:" + type(e).__name__, None
    except KeyboardInterrupt:
        return "raised:KeyboardInterrupt", None


def options(c, rng):
    over = {}
    if c.ncore:
        over["ncore"] = int(pick(rng, [1, 1, 2, 3]))
    if c.nchunk and rng.random() < .5:
        over["nchunk"] = int(pick(rng, [1, 2]))
    return over


def run_state(p, mon):
    import numexpr as ne
    rng = rng_for("c21s", p["seed"])
    name = p["name"]
    c = catalog.make(name, rng)
    mode = ["ok", "bad", "fault", "interrupt"][(p["i"] // len(NAMES)) % 4]
    over = options(c, rng)
    if mode == "interrupt" and c.ncore:
        over["ncore"] = 1
    if mode in ("fault", "interrupt") and c.threads == "process":
        over.update(ncore=1) if c.ncore else None
    # starting state
    env0 = dict(os.environ)
    ne0 = ne.set_num_threads(int(rng.integers(1, 6)))
    err0 = np.seterr(**{k: pick(rng, ["ignore", "warn"]) for k in ("divide", "over", "invalid")})
    cwd0 = os.getcwd()
    if rng.random() < .4:
        os.environ["TOMOPY_PYTHON_THREADS"] = str(int(rng.integers(1, 4)))
    if rng.random() < .3:
        os.environ["OMP_NUM_THREADS"] = str(int(rng.integers(1, 4)))
    if rng.random() < .3:
        os.environ["TOMOPY_DEVICE_NUM"] = "0"
    np.random.seed(int(rng.integers(1 << 30)))
    try:
        tables()                      # imports settle
        before = snapshot()
        out, _ = perform(p, rng, mode, c, over)
        after = snapshot()
        th, ch = quiesce()
        what = f"{name} {mode} ({out}) {over}"
        for k in before:
            if k == "nprandom" and (name in RANDOM or c.rand):
                continue
            mon.ok(before[k] == after[k], k, lambda: f"{what}: {k} changed: {str(diff(before[k], after[k]))[:600]}")
        mon.ok(not th, "threads", f"{what}: threads left: {th}")
        mon.ok(not ch, "children", f"{what}: processes left: {ch}")
        # repeated calls do not accumulate open files
        if name not in SLOW and (p["i"] // len(NAMES)) % 2 == 0:
            f0 = len(os.listdir("/proc/self/fd"))
            for _ in range(3):
                perform(p, rng, mode, c, over)
            quiesce()
            f1 = len(os.listdir("/proc/self/fd"))
            mon.ok(f1 - f0 < 3, "fds", f"{what}: {f1 - f0} more open files after 3 calls")
        mon.count("failed-call" if out != "ok" else "completed-call")
        if mode in ("fault", "interrupt") and out != "ok":
            mon.count("kernel-fault")
        mon.sig(name, mode, out, sorted(over.items()))
    finally:
        os.environ.clear()
        os.environ.update(env0)
        ne.set_num_threads(ne0)
        np.seterr(**err0)
        os.chdir(cwd0)


# ---- histories -------------------------------------------------------------------
def plan(seed):
    """list of (name, call seed, mode) of one history"""
    rng = rng_for("c21h", seed)
    n = int(rng.integers(6, 15))
    pool = [x for x in NAMES if x not in SLOW]
    focus = [pick(rng, pool) for _ in range(4)]
    out = []
    for k in range(n):
        out.append((pick(rng, focus) if rng.random() < .6 else pick(rng, pool), int(rng.integers(1 << 30)), pick(rng, ["ok", "ok", "ok", "bad", "fault", "interrupt"])))
    # the same call again at the end
    ok = [x for x in out if x[2] == "ok"]
    if ok:
        out.append(ok[0])
    return out


def step(item):
    name, seed, mode = item
    rng = rng_for("c21k", seed, name)
    c = catalog.make(name, rng)
    over = options(c, rng)
    if mode != "ok" and c.ncore:
        over["ncore"] = 1
    if name == "inpainter_morph" and c.kw.get("inpainting_type", "random") == "random":
        c.kw["inpainting_type"] = "mean"
    np.random.seed(seed & 0x7fffffff)
    return perform(None, rng, mode, c, over)


def fresh(items):
    """each item in a process that has made no call before (forked from one that has only imported tomopy)"""
    code = "import sys,json,os\nsys.path[:0]=%r\nsys.path.insert(0,os.path.join(os.environ['VERIF_REPO'],'source'))\nimport warnings,numpy as np\nwarnings.simplefilter('ignore')\nnp.seterr(all='ignore')\nimport c21,tomopy\nc21.serve()" % [os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks")]
    r = subprocess.run([sys.executable, "-c", code], input=json.dumps(items), capture_output=True, text=True, timeout=240)
    res_ = [l for l in r.stdout.splitlines() if l.startswith("@@")]
    if not res_:
        raise RuntimeError("fresh process: " + r.stderr[-500:])
    return json.loads(res_[-1][2:])


def serve():
    items = json.load(sys.stdin)
    out = []
    for it in items:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                d = step(it)
            except BaseException as e:
                d = ("harness:" + repr(e), None)
            os.write(w, json.dumps(d).encode())
            os._exit(0)
        os.close(w)
        b = b""
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            b += x
        os.close(r)
        os.waitpid(pid, 0)
        out.append(json.loads(b) if b else ["died", None])
    sys.stdout.flush()
    print("\n@@" + json.dumps(out))
    sys.stdout.flush()
    os._exit(0)


def run_history(p, mon):
    items = plan(p["seed"])
    ref = fresh([it for it in items])
    failed = False
    for k, it in enumerate(items):
        got = list(step(it))
        if it[2] == "ok":
            mon.ok(got == list(ref[k]), "history", f"call {k} of {[(x[0], x[2]) for x in items[:k + 1]]}: {got} in this sequence, {ref[k]} as first call of a process")
            if failed:
                mon.count("monitor:history-after-failure")
        else:
            mon.ok(got[0] == ref[k][0] or it[2] == "bad", "history-outcome", f"call {k} {it}: {got} versus {ref[k]}")
            failed |= got[0] != "ok"
    mon.count("history-calls", len(items))
    mon.sig("history", [(x[0], x[2]) for x in items])


def shard_init():
    import tomopy, numexpr
    BASE.extend(x for x in threading.enumerate() if x is not threading.main_thread())


def run_overlap(p, mon):
    """reconstructions that overlap in time, some failing: the thread limit is honoured and the environment comes back"""
    import tomopy, concurrent.futures as cf
    rng = rng_for("c21o", p["seed"])
    env0 = dict(os.environ)
    limit = int(rng.integers(1, 4)) if rng.random() < .6 else None
    os.environ.pop("TOMOPY_PYTHON_THREADS", None)
    if limit:
        os.environ["TOMOPY_PYTHON_THREADS"] = str(limit)
    n, before = int(rng.integers(2, 6)), dict(os.environ)
    jobs = [dict(wait=float(rng.random()) * .01, hold=float(rng.random()) * .01, ncore=int(rng.integers(1, 5)), dy=int(rng.integers(1, 7)), fail=bool(rng.random() < .2), real=bool(rng.random() < .3)) for _ in range(n)]
    most, lock, now, peak = [0] * n, threading.Lock(), [0] * n, [0]

    def one(j):
        o = jobs[j]
        time.sleep(o["wait"])

        def alg(tomo, center, recon, theta, **kw):
            with lock:
                now[j] += 1
                most[j] = max(most[j], now[j])
                peak[0] = max(peak[0], sum(1 for x in now if x))
            time.sleep(o["hold"])
            with lock:
                now[j] -= 1
            if o["fail"]:
                raise ArithmeticError
            recon[...] = tomo.sum((1, 2))[:, None, None]
        t = np.ones((o["dy"], 3, 8), np.float32)
        try:
            tomopy.recon(t, np.arange(3.), sinogram_order=True, algorithm="art" if o["real"] else alg, ncore=o["ncore"])
            return "ok"
        except ArithmeticError:
            return "failed"
    try:
        with cf.ThreadPoolExecutor(n) as e:
            out = list(e.map(one, range(n)))
        after = dict(os.environ)
    finally:
        os.environ.clear()
        os.environ.update(env0)
    what = f"{jobs} limit {limit} {out}"
    mon.ok(before == after, "overlap-environ", lambda: f"{what}: {diff(before, after)}")
    for j, o in enumerate(jobs):
        mon.ok(most[j] <= min(o["ncore"], limit or 99), "overlap-limit", lambda: f"{what}: call {j} ran in {most[j]} threads")
    # and the next call may use all the workers it asks for
    mon.count("overlapping-recons", int(peak[0] > 1))
    mon.sig("overlap", n, limit, out)


FAMILIES = [Family("overlap", lambda r, i: dict(i=i), run_overlap, 250, 2500), Family("state", gen, run_state, 18 * len(NAMES), 90 * len(NAMES)), Family("history", lambda r, i: dict(i=i), run_history, 63, 700, timeout=300)]
