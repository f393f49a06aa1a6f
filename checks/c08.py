from vlib import *
import os, sys, signal, threading, gc, time, functools, multiprocessing as mp, tempfile
tomopy = lazy("tomopy")
RULE = ("faults (Python exceptions of several kinds, SystemExit, unpicklable exceptions, early exit with code 0 or 1, SIGKILL, SIGSEGV) are injected "
        "into one chosen chunk of a distributed computation: the function given to distribute_jobs, the compiled kernel or scipy filter behind every "
        "threaded or distributed public function, a Python reconstruction algorithm; the monitor demands an exception in the caller within the "
        "deadline, no surviving children, and that the same call without the fault then gives the clean result; non-trivial: the fault fired "
        "(recorded on disk by the faulty chunk)")
REQUIRED = ["monitor:raises", "monitor:recovers", "fired:jobs", "fired:recon", "fired:threads", "fired:procs", "kind:kill", "kind:exit0", "kind:raise"]
ASSUMPTIONS = ["a fault point that the code no longer calls is counted as not fired and not judged"]
SHARDS = 6
KINDS_P = ["raise", "raise", "type", "exit0", "exit1", "kill", "segv", "sysexit", "unpicklable", "keyboard"]
KINDS_T = ["raise", "type", "memory", "sysexit-like"]


class Local(Exception):
    def __init__(self):
        super().__init__("x")
        self.f = lambda: 0


def fault(kind, mark):
    fd = os.open(mark, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, b"fired\n")
    os.close(fd)
    if kind == "raise":
        raise ValueError("injected fault")
    if kind == "type":
        raise TypeError("injected fault")
    if kind in ("memory", "sysexit-like"):
        raise MemoryError("injected fault")
    if kind == "exit0":
        os._exit(0)
    if kind == "exit1":
        os._exit(1)
    if kind == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
    if kind == "segv":
        os.kill(os.getpid(), signal.SIGSEGV)
    if kind == "sysexit":
        raise SystemExit(3)
    if kind == "keyboard":
        raise KeyboardInterrupt()
    raise Local()


def work(a, kind, at, mark):
    if at is not None and np.any(np.floor(a / 1000) == at):
        fault(kind, mark)
    time.sleep(0.001)
    return (a * 2).astype(np.float32)


def settle(mon, lab, base):
    """no worker survives the call"""
    gc.collect()
    t = time.time()
    while time.time() - t < 15:
        left = [c for c in mp.active_children() if c.pid not in base]
        if not left:
            break
        time.sleep(0.02)
        gc.collect()
    mon.ok(not left, "no-survivors", lambda: f"{lab}: {left}")


def expect(mon, lab, call, mark, cat, kind):
    base = {c.pid for c in mp.active_children()}
    err = None
    try:
        r = call()
    except BaseException as e:
        err = type(e).__name__
        e.__traceback__ = None
        del e
    fired = os.path.exists(mark) and os.path.getsize(mark) > 0
    if not fired:
        mon.count("not_fired:" + lab.split()[0])
        mon.ok(err is None, "spurious", lambda: f"{lab}: raised {err} without a fault")
        return False
    mon.count("fired:" + cat)
    mon.count("kind:" + kind)
    mon.ok(err is not None, "raises", lambda: f"{lab}: fault '{kind}' fired, the call returned an array instead of raising")
    settle(mon, lab, base)
    mon.sig(lab, kind)
    return True


def gen(rng, i):
    L = int(rng.integers(2, 25))
    return dict(L=L, ncore=int(pick(rng, [1, 2, 3, 4, 8])), nchunk=pick(rng, [None, 1, 2, 5, L]), kind=KINDS_P[i % len(KINDS_P)], at=int(pick(rng, [0, L - 1, int(rng.integers(L))])),
                thread=bool(rng.random() < 0.2))


def mkmark():
    fd, m = tempfile.mkstemp(dir=os.environ["VERIF_SCRATCH"])
    os.close(fd)
    return m


def run_jobs(p, mon):
    import tomopy.util.mproc as mproc
    kind = p["kind"]
    ncore = p["ncore"]
    serial = ncore == 1 or p["L"] <= (p["nchunk"] or 1)
    if serial and kind in ("exit0", "exit1", "kill", "segv"):
        kind = "raise"      # the caller's own process
    a = (np.arange(p["L"])[:, None] * 1000.0 + np.arange(5)).astype(np.float32)
    mark = mkmark()
    call = lambda at: mproc.distribute_jobs(a, work, 0, args=(kind, at, mark), ncore=ncore, nchunk=p["nchunk"])
    body = lambda: call(p["at"])
    if p["thread"] and kind != "keyboard":
        def body():
            box = []

            def t():
                try:
                    box.append(call(p["at"]))
                except BaseException as e:
                    box.append(e)
            th = threading.Thread(target=t)
            th.start()
            th.join()
            if isinstance(box[0], BaseException):
                raise box[0]
            return box[0]
    lab = f"distribute_jobs L {p['L']} ncore {ncore} nchunk {p['nchunk']} at {p['at']}"
    expect(mon, lab, body, mark, "jobs", kind)
    os.unlink(mark)
    mon.equal(call(None), a * 2, "recovers", lab)


# (name, fault points, call) - several fault points: whichever the implementation uses
def sino(rng, shape=(6, 20, 24)):
    return (rng.random(shape) + 0.5).astype(np.float32)


def targets():
    T = {}
    r = np.random.default_rng(3)
    tomo = sino(r, (8, 9, 12))
    rec = sino(r, (8, 16, 16))
    th = np.linspace(0, np.pi, 8).astype(np.float32)
    t = tomopy
    nd = "scipy.ndimage"
    ex = "tomopy.util.extern"
    T["median_filter"] = ("threads", [(nd, "median_filter")], lambda k: t.median_filter(tomo, 3, ncore=k))
    T["gaussian_filter"] = ("threads", [(nd, "gaussian_filter")], lambda k: t.gaussian_filter(tomo, 1, ncore=k))
    T["sobel_filter"] = ("threads", [(nd, "sobel")], lambda k: t.sobel_filter(tomo, ncore=k))
    T["remove_outlier"] = ("threads", [(nd, "median_filter")], lambda k: t.remove_outlier(tomo, 0.1, ncore=k))
    T["remove_outlier1d"] = ("threads", [(nd, "median_filter")], lambda k: t.remove_outlier1d(tomo, 0.1, ncore=k))
    T["remove_ring"] = ("threads", [(ex, "c_remove_ring")], lambda k: t.remove_ring(rec, ncore=k))
    for alg in ["art", "mlem", "gridrec", "fbp", "sirt", "osem", "tv", "grad"]:
        T["recon:" + alg] = ("recon", [(ex, "c_" + alg)], lambda k, alg=alg: t.recon(tomo, th, algorithm=alg, ncore=k))
        T["recon1:" + alg] = ("recon", [(ex, "c_" + alg)], lambda k, alg=alg: t.recon(tomo, th, algorithm=alg, ncore=k, nchunk=1))
    T["normalize_bg"] = ("procs", [(ex, "c_normalize_bg")], lambda k: t.normalize_bg(tomo, 2, ncore=k))
    T["project"] = ("procs", [(ex, "c_project")], lambda k: t.project(rec, th, ncore=k))
    T["remove_stripe_sf"] = ("procs", [(ex, "c_remove_stripe_sf")], lambda k: t.remove_stripe_sf(tomo, 3, ncore=k))
    T["retrieve_phase"] = ("procs", [("tomopy.util.misc", "fft2"), ("tomopy.prep.phase", "fft2")], lambda k: t.retrieve_phase(tomo, ncore=k))
    T["remove_stripe_fw"] = ("procs", [("pywt", "dwt2")], lambda k: t.remove_stripe_fw(tomo, 2, ncore=k))
    T["remove_stripe_based_sorting"] = ("procs", [("tomopy.prep.stripe", "median_filter"), (nd, "median_filter")], lambda k: t.remove_stripe_based_sorting(tomo, 3, ncore=k))
    T["remove_stripe_based_filtering"] = ("procs", [("tomopy.prep.stripe", "median_filter"), (nd, "median_filter")], lambda k: t.remove_stripe_based_filtering(tomo, 3, 3, ncore=k))
    T["normalize_roi"] = ("procs", [("numpy", "divide"), ("numpy", "mean")], lambda k: t.normalize_roi(tomo, [0, 0, 3, 3], ncore=k))
    return T


NAMES = ["median_filter", "gaussian_filter", "sobel_filter", "remove_outlier", "remove_outlier1d", "remove_ring", "normalize_bg", "project", "remove_stripe_sf",
         "retrieve_phase", "remove_stripe_fw", "remove_stripe_based_sorting", "remove_stripe_based_filtering"] + \
        [p + a for a in ["art", "mlem", "gridrec", "fbp", "sirt", "osem", "tv", "grad"] for p in ("recon:", "recon1:")]


def gen_f(rng, i):
    return dict(name=NAMES[i % len(NAMES)], ncore=int(pick(rng, [1, 2, 3, 4])), nth=int(rng.integers(1, 4)), kind=int(rng.integers(10)))


def run_funcs(p, mon):
    import importlib
    cat, pts, call = targets()[p["name"]]
    mark, ctr = mkmark(), mkmark()
    ncore = p["ncore"]
    if cat == "procs":
        kind = KINDS_P[p["kind"] % len(KINDS_P)]
        if ncore == 1 or kind in ("keyboard", "sysexit"):
            kind = "raise"
    else:
        kind = KINDS_T[p["kind"] % len(KINDS_T)]
    ref = np.array(call(1))
    me = os.getpid()
    active = [True]

    def wrap(f):
        @functools.wraps(f)
        def g(*a, **k):
            if active[0]:
                fd = os.open(ctr, os.O_WRONLY | os.O_APPEND)
                os.write(fd, b".")
                os.close(fd)
                if os.path.getsize(ctr) == p["nth"] or (os.path.getsize(ctr) > p["nth"] and os.path.getsize(mark) == 0):
                    if not (kind in ("exit0", "exit1", "kill", "segv") and os.getpid() == me):
                        fault(kind, mark)
            return f(*a, **k)
        return g
    saved = []
    for m, n in pts:
        try:
            mod = importlib.import_module(m)
            f = getattr(mod, n)
        except (ImportError, AttributeError):
            continue
        g = wrap(f)
        for mm in {mod, sys.modules.get(getattr(f, "__module__", None), mod)}:
            # functions travel to workers by name: the name must lead to the wrapper
            if getattr(mm, n, None) is f:
                saved.append((mm, n, f))
                setattr(mm, n, g)
    lab = f"{p['name']} ncore {ncore} call {p['nth']}"
    try:
        expect(mon, lab, lambda: call(ncore), mark, cat, kind)
    finally:
        for mod, n, f in saved:
            setattr(mod, n, f)
    os.unlink(mark)
    os.unlink(ctr)
    got = np.array(call(ncore))
    mon.close(got, ref, "recovers", lab, rtol=1e-5)


def gen_r(rng, i):
    return dict(dy=int(rng.integers(1, 12)), ncore=int(pick(rng, [1, 2, 3, 8])), nchunk=pick(rng, [None, 1, 2]), at=int(rng.integers(12)), kind=KINDS_T[i % 4])


def run_alg(p, mon):
    dy = p["dy"]
    at = p["at"] % dy
    mark = mkmark()
    data = (np.arange(dy)[:, None, None] * 1000.0 + np.ones((dy, 3, 4))).astype(np.float32)

    def mk(on):
        def alg(tomo, center, recon, theta, **kw):
            if on and np.any(np.floor(tomo / 1000) == at):
                fault(p["kind"], mark)
            recon[:] = tomo[:, :1, :1]
        return alg
    env = os.environ.get("TOMOPY_PYTHON_THREADS")
    call = lambda on: tomopy.recon(data, np.zeros(3), algorithm=mk(on), sinogram_order=True, ncore=p["ncore"], nchunk=p["nchunk"], num_gridx=2, num_gridy=2)
    lab = f"recon(function) {dy} slices ncore {p['ncore']} nchunk {p['nchunk']}"
    expect(mon, lab, lambda: call(True), mark, "recon", p["kind"])
    mon.ok(os.environ.get("TOMOPY_PYTHON_THREADS") == env, "environment", lab)
    mon.equal(call(False), np.repeat(np.repeat(data[:, :1, :1], 2, 1), 2, 2), "recovers", lab)


FAMILIES = [Family("jobs", gen, run_jobs, 125, 1200, timeout=60), Family("functions", gen_f, run_funcs, len(NAMES) * 3, len(NAMES) * 30, timeout=60),
            Family("algorithm", gen_r, run_alg, 84, 800, timeout=60)]
