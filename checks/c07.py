from vlib import *
import os, json, tempfile, threading
tomopy = lazy("tomopy")
RULE = ("distribute_jobs over 1-3 arrays of 1-4 dimensions and mixed shapes/dtypes, every axis, worker counts 1..12 and None, chunk sizes None, 0, "
        "dividing, not dividing and larger than the axis, with and without output buffers, inside threads, with chunks that ask to be "
        "run on the host; every call of the distributed function appends an event (process, indices seen in each array, extra arguments) to an "
        "append-only log, and an offline checker demands that the events cover each index exactly once with matching chunks; worker plans are "
        "enumerated for axis lengths 1-64; recon's own distribution is observed through a Python algorithm; non-trivial: more than one event")
REQUIRED = ["monitor:exactly-once", "monitor:chunks-match", "monitor:arguments", "monitor:result", "monitor:plan", "monitor:mpi-plan", "monitor:recon-cover", "multi_process_cases", "host_reruns"]
ASSUMPTIONS = ["chunk size 0 removes the axis, as documented, and is not used with recon"]


def _log(path, ev):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(ev) + "\n").encode())
    os.close(fd)


def _ids(a, axis, lead):
    """indices along the axis, recovered from the values (every element carries its index)"""
    v = np.asarray(a, np.float64)
    if lead:
        return sorted(set(int(x) for x in np.unique(np.floor(v / 1000.0))))
    w = np.moveaxis(np.floor(v / 1000.0), axis, 0)
    out = []
    for r in w:
        u = np.unique(r)
        out.append(int(u[0]) if len(u) == 1 else -1)
    return out


def work(*a, **kw):
    n, log, axis, lead, mode = kw["n"], kw["log"], kw["axis"], kw["lead"], kw["mode"]
    import tomopy.util.mproc as mproc
    arrs, extra = a[:n], a[n:]
    ids = [_ids(x, axis, lead) for x in arrs]
    host = os.getpid() == kw["host"]
    if mode == "host" and not host and ids[0] and ids[0][0] % 2 == 0:
        _log(log, dict(kind="deferred", pid=os.getpid(), ids=ids))
        raise mproc.RunOnHostException()
    _log(log, dict(kind="done", pid=os.getpid(), thread=threading.get_ident(), ids=ids, extra=[repr(e) for e in extra], kw=repr(kw["tag"]), host=host))
    out = sum(np.asarray(x, np.float64) * (k + 1) for k, x in enumerate(arrs)) if kw["same"] else np.asarray(arrs[-1], np.float64) * 2
    out = (out + (extra[0] if extra else 0)).astype(np.float32)
    if mode == "inplace":
        arrs[-1][...] = out
        return None
    return out


def gen(rng, i):
    nd = int(rng.integers(1, 5))
    shape = [int(x) for x in rng.integers(1, 8, nd)]
    axis = int(rng.integers(nd))
    shape[axis] = int(rng.integers(1, 30))
    L = shape[axis]
    return dict(shape=shape, axis=axis, neg=bool(rng.random() < 0.15), n=int(rng.integers(1, 4)), ncore=pick(rng, [1, 1, 2, 3, 5, 8, 12, None]),
                nchunk=pick(rng, [None, None, 1, 2, 3, 7, L, L + 3] + ([0] if nd > 1 else [])), out=pick(rng, ["none", "given", "given64", "none", "last", "first", "shared", "part", "ctypes"]),
                mode=pick(rng, ["plain", "plain", "host", "plain", "inplace"]), extra=int(rng.integers(0, 3)),
                tuple=bool(rng.integers(2)), thread=bool(rng.random() < 0.2), other=bool(rng.random() < 0.3))


def run(p, mon):
    import tomopy.util.mproc as mproc
    rng = rng_for("c07", p["seed"])
    shape, axis, L = tuple(p["shape"]), p["axis"], p["shape"][p["axis"]]
    n = p["n"]
    same = not (p["other"] and n > 1)
    arrs = []
    for k in range(n):
        sh = list(shape)
        if not same and k < n - 1:
            # companion arrays need to agree along the axis only
            sh = [int(x) for x in rng.integers(1, 5, len(sh))]
            sh[axis] = L
        idx = np.arange(L).reshape([-1 if d == axis else 1 for d in range(len(sh))])
        arrs.append((np.broadcast_to(idx * 1000.0, sh) + rng.integers(0, 900, sh)).astype(np.float32))
    lead = p["nchunk"] == 0
    mode = p["mode"]
    if mode == "inplace" and (p["out"] != "none" or p["nchunk"] == 0):
        mode = "plain"
    fd, log = tempfile.mkstemp(dir=os.environ["VERIF_SCRATCH"])
    os.close(fd)
    extra = [float(rng.integers(1, 9)), "text"][:p["extra"]]
    kw = dict(n=n, log=log, axis=axis, lead=lead, mode=mode, tag={"a": [1, 2.5]}, same=same, host=os.getpid())
    before = [a.copy() for a in arrs]
    out = None
    if p["out"] == "given":
        out = np.full(shape, -7, np.float32)
    elif p["out"] == "given64":
        out = np.full(shape, -7, np.float64)
    elif p["out"] == "last":
        out = arrs[-1]
    elif p["out"] == "first" and same:
        out = arrs[0]
    elif p["out"] == "shared":
        import tomopy.util.dtype as dtype
        out = dtype.empty_shared_array(shape)
        out[...] = -7
    elif p["out"] == "part":         # part of a larger shared array
        import tomopy.util.dtype as dtype
        big = dtype.empty_shared_array((3,) + shape)
        big[...] = -7
        out = big[1]
    elif p["out"] == "ctypes":       # ordinary memory owned by ctypes, of a type also used for shared memory
        import tomopy.util.dtype as dtype
        import ctypes
        dtype.empty_shared_array(shape)
        out = np.frombuffer((ctypes.c_float * int(np.prod(shape)))(), np.float32).reshape(shape)
        out[...] = -7
    res = {}

    def call():
        res["r"] = mproc.distribute_jobs(tuple(arrs) if p["tuple"] and n > 1 else (arrs if n > 1 else arrs[0]), work, axis - len(shape) if p["neg"] else axis,
                                         args=tuple(extra), kwargs=kw, ncore=p["ncore"], nchunk=p["nchunk"], out=out)
    if p["thread"]:
        err = []

        def body():
            try:
                call()
            except BaseException as e:
                err.append(e)
        t = threading.Thread(target=body)
        t.start()
        t.join()
        if err:
            raise err[0]
    else:
        call()
    r = res["r"]
    ev = [json.loads(l) for l in open(log)]
    os.unlink(log)
    done = [e for e in ev if e["kind"] == "done"]
    mon.count("events", len(ev))
    lab = f"shape {shape} axis {axis} n {n} ncore {p['ncore']} nchunk {p['nchunk']} out {p['out']} mode {mode}"
    cover = sorted(i for e in done for i in e["ids"][0])
    mon.ok(cover == list(range(L)), "exactly-once", lambda: f"{lab}: indices processed {cover}")
    mon.ok(all(all(x == e["ids"][0] for x in e["ids"]) for e in done), "chunks-match", lambda: f"{lab}: {[e['ids'] for e in done]}")
    mon.ok(all(e["ids"][0] == list(range(e["ids"][0][0], e["ids"][0][0] + len(e["ids"][0]))) and len(e["ids"][0]) > 0 for e in done), "contiguous", lab)
    want = max(1, p["nchunk"]) if p["nchunk"] is not None else None
    if want:
        mon.ok(max(len(e["ids"][0]) for e in done) <= want, "chunk-size", lambda: f"{lab}: chunk of {max(len(e['ids'][0]) for e in done)}")
    mon.ok(all(e["extra"] == [repr(x) for x in extra] and e["kw"] == repr(kw["tag"]) for e in done), "arguments", lab)
    full = sum(b.astype(np.float64) * (k + 1) for k, b in enumerate(before)) if same else before[-1].astype(np.float64) * 2
    full = full + (extra[0] if extra else 0)
    mon.close(r, full, "result", lab, rtol=1e-6)
    if out is not None:
        mon.ok(r is out or np.shares_memory(r, out), "result", f"{lab}: the given output array is not what is returned")
        mon.close(out, full, "result", lab + " (buffer)", rtol=1e-6)
        if p["out"] == "part":
            mon.ok((big[0] == -7).all() and (big[2] == -7).all(), "result", lab + ": memory beside the output was written")
    pids = {e["pid"] for e in done}
    if len(pids) > 1 or (os.getpid() not in pids):
        mon.count("multi_process_cases")
    if any(e["kind"] == "deferred" for e in ev):
        mon.count("host_reruns", sum(e["kind"] == "deferred" for e in ev))
        mon.ok(all(e["host"] for e in done if e["ids"][0][0] % 2 == 0), "host", lab)
    if p["ncore"] is not None:
        mon.ok(len(pids - {os.getpid()}) <= max(1, p["ncore"]), "worker-count", lambda: f"{lab}: {len(pids)} processes")
    if len(done) > 1:
        mon.sig(shape, axis, n, p["ncore"], p["nchunk"], p["out"], mode, len(pids))


def mpi_plan(mon, mproc, L):
    """the shares of the processes of an MPI job, which a stand-in for mpi4py plays one after the other"""
    import sys, types
    at = types.SimpleNamespace(rank=0, size=1, waits=0)

    class World:
        size = property(lambda self: at.size)
        rank = property(lambda self: at.rank)

        def Get_size(self):
            return at.size

        def Get_rank(self):
            return at.rank

        def Barrier(self):
            at.waits += 1
        barrier = Barrier
    m = types.ModuleType("mpi4py")
    m.MPI = types.SimpleNamespace(COMM_WORLD=World())
    old = sys.modules.get("mpi4py")
    sys.modules["mpi4py"] = m
    try:
        for size in (2, 3, 4, 5, 7):
            for nc, ch in ((None, None), (1, None), (3, None), (8, None), (4, 1), (4, 2), (4, 3), (1, 7)):
                got = []
                for rank in range(size):
                    at.rank, at.size = rank, size
                    got.append([list(range(L))[s] for s in mproc.get_worker_ncore_slices(L, nc, ch)[1]])
                mon.ok([x for share in got for c in share for x in c] == list(range(L)), "mpi-plan", lambda: f"get_worker_ncore_slices({L},{nc},{ch}) in {size} processes: {got}")
        mon.ok(at.waits > 0, "mpi-barrier", "no process waited for the others")
    finally:
        if old is None:
            del sys.modules["mpi4py"]
        else:
            sys.modules["mpi4py"] = old


def gen_plan(rng, i):
    return dict(lo=1 + 8 * i, hi=9 + 8 * i)


def run_plan(p, mon):
    import tomopy.util.mproc as mproc
    for L in range(p["lo"], p["hi"]):
        for nc in [None, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 31, 64, 65, 100]:
            for ch in [None, 1, 2, 3, 4, 5, 7, 8, 16, 63, 64, 65, 1000]:
                k, sl = mproc.get_ncore_slices(L, nc, ch)
                idx = [list(range(L))[s] for s in sl]
                mon.ok([x for c in idx for x in c] == list(range(L)) and all(idx), "plan", lambda: f"get_ncore_slices({L},{nc},{ch}) = {sl}")
                mon.ok(1 <= k <= max(L, 1) and (nc is None or k <= nc), "plan", lambda: f"get_ncore_slices({L},{nc},{ch}): {k} workers")
                if ch:
                    mon.ok(all(len(c) <= ch for c in idx), "plan", lambda: f"get_ncore_slices({L},{nc},{ch}): chunk too large")
                else:
                    sz = [len(c) for c in idx]
                    mon.ok(max(sz) - min(sz) <= 1, "plan", lambda: f"get_ncore_slices({L},{nc},{ch}): uneven {sz}")
                k, sl = mproc.get_worker_ncore_slices(L, nc, ch)
                idx = [list(range(L))[s] for s in sl]
                mon.ok([x for c in idx for x in c] == list(range(L)), "plan", lambda: f"get_worker_ncore_slices({L},{nc},{ch}) = {sl}")
                k, c = mproc.get_ncore_nchunk(L, nc, ch)
                mon.ok(1 <= k and 1 <= c <= L and k <= (nc or 10 ** 9) and k * c >= L if ch is None else 1 <= k <= L and 1 <= c <= L,
                       "plan", lambda: f"get_ncore_nchunk({L},{nc},{ch}) = {k},{c}")
        mpi_plan(mon, mproc, L)
        mon.sig(L)
        k, sl = mproc.get_ncore_slices(L, 3, 0)
        mon.ok([range(L)[s] for s in sl] == list(range(L)), "plan", f"get_ncore_slices({L},3,0)")


def gen_rec(rng, i):
    return dict(dy=int(rng.integers(1, 24)), dt=int(rng.integers(1, 5)), dx=int(rng.integers(1, 6)), ncore=pick(rng, [None, 1, 2, 3, 7, 30]),
                nchunk=pick(rng, [None, 1, 2, 3, 5, 40]), order=bool(rng.integers(2)), gx=int(rng.integers(1, 5)), gy=int(rng.integers(1, 5)))


def run_rec(p, mon):
    rng = rng_for("c07r", p["seed"])
    dy = p["dy"]
    data = (np.arange(dy)[:, None, None] * 1000.0 + rng.integers(0, 900, (dy, p["dt"], p["dx"]))).astype(np.float32)
    cen = (np.arange(dy) * 1000.0 + 1).astype(np.float32)
    th = rng.random(p["dt"]).astype(np.float32)
    seen, lock = [], threading.Lock()

    def alg(tomo, center, recon, theta, **kw):
        ids = _ids(tomo, 0, False)
        c = [int(x // 1000) for x in center]
        with lock:
            seen.append((ids, c, np.array_equal(theta, th), kw.get("options"), recon.shape))
        recon[:] = (tomo.sum((1, 2)) + center)[:, None, None]
    r = tomopy.recon(data if p["order"] else np.swapaxes(data, 0, 1), th, center=cen, sinogram_order=p["order"], algorithm=alg, ncore=p["ncore"], nchunk=p["nchunk"],
                     num_gridx=p["gx"], num_gridy=p["gy"], options={"q": 3})
    mon.count("events", len(seen))
    lab = f"{p}"
    mon.ok(sorted(i for s in seen for i in s[0]) == list(range(dy)), "recon-cover", lambda: f"{lab}: {[s[0] for s in seen]}")
    mon.ok(all(s[0] == s[1] and s[2] and s[3] == {"q": 3} and s[4] == (len(s[0]), p["gx"], p["gy"]) for s in seen), "recon-match", lambda: f"{lab}: {seen}")
    want = (data.sum((1, 2)) + cen)[:, None, None] * np.ones((1, p["gx"], p["gy"]))
    mon.close(r, want, "recon-cover", lab, rtol=1e-6)
    if len(seen) > 1:
        mon.sig("recon", dy, p["ncore"], p["nchunk"])


FAMILIES = [Family("jobs", gen, run, 2500, 12500, timeout=60), Family("plans", gen_plan, run_plan, 40, 200), Family("recon", gen_rec, run_rec, 600, 3000)]
