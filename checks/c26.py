from vlib import *
import gc, os
dtype = lazy("tomopy.util.dtype")
mproc = lazy("tomopy.util.mproc")
RULE = ("'roundtrip': arrays of every numeric type, 0-4 dimensions (empty ones too), C/Fortran/strided/reversed/broadcast layouts and views of shared arrays through as_sharedmem, get_shared_mem, to_numpy_array, is_sharedmem, "
        "empty_shared_array and the type conversions; 'churn': long random histories of creating, viewing, writing, dropping and collecting shared arrays against plain-memory shadows, with the address ranges of live arrays "
        "checked for overlap after every step; 'fork': worker processes write disjoint parts of shared arrays and the parent must see exactly these; 'reuse': results of distribute_jobs are kept, viewed, passed on and "
        "must stay what they were while later jobs run; 'fft': the transform wrappers against the definition; non-trivial: elements compared")
REQUIRED = ["monitor:values", "monitor:recognised", "monitor:whole", "monitor:shadow", "monitor:disjoint", "monitor:worker-writes", "monitor:kept", "monitor:convert", "monitor:fft"]
ASSUMPTIONS = ["types without a C counterpart (complex, half, strings) are not offered to shared memory"]
TYPES = ["f4", "f8", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "?"]


def gen(rng, i):
    nd = int(rng.integers(1, 5))
    return dict(shape=[int(x) for x in rng.integers(1, 9, nd)], dt=TYPES[i % len(TYPES)])


def data(rng, shape, dt):
    if dt == "?":
        return rng.random(shape) < .5
    if dt[0] == "f":
        a = rng.normal(size=shape) * 10.0 ** rng.integers(-20, 20)
        a = np.where(rng.random(shape) < .05, pick(rng, [np.nan, np.inf, -0.0]), a)
        with np.errstate(all="ignore"):
            return np.asarray(a).astype(dt)
    ii = np.iinfo(dt)
    return rng.integers(ii.min, ii.max, shape, dtype=dt, endpoint=True)


def layout(rng, a):
    """the same elements in another layout"""
    k = pick(rng, ["c", "f", "step", "rev", "off", "swap", "ro"])
    if k == "f":
        return k, np.asfortranarray(a)
    if k == "step":
        b = np.repeat(a, 2, axis=-1)
        b[..., 1::2] = 0
        return k, b[..., ::2]
    if k == "rev":
        return k, np.ascontiguousarray(a[::-1])[::-1]
    if k == "off":
        b = np.zeros((a.shape[0] + 3,) + a.shape[1:], a.dtype)
        b[2:-1] = a
        return k, b[2:-1]
    if k == "swap":
        return k, np.swapaxes(np.ascontiguousarray(np.swapaxes(a, 0, -1)), 0, -1)
    b = a.copy()
    if k == "ro":
        b.setflags(write=False)
    return k, b


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def run_round(p, mon):
    rng = rng_for("c26r", p["seed"])
    for _ in range(6):
        a = data(rng, p["shape"], p["dt"])
        k, x = layout(rng, a)
        mon.ok(not dtype.is_sharedmem(x), "recognised", f"ordinary {k} array taken for a shared one")
        s = dtype.as_sharedmem(x, copy=bool(rng.integers(2)))
        mon.ok(same(s, a) and same(np.asarray(x), a), "values", lambda: f"as_sharedmem {k} {a.dtype} {a.shape}")
        mon.ok(dtype.is_sharedmem(s) and not np.shares_memory(s, x), "recognised", f"{k} {a.dtype} {a.shape}: not recognised, or the caller's memory used")
        n = dtype.to_numpy_array(dtype.get_shared_mem(s), s.dtype, s.shape)
        mon.ok(same(n, a) and np.shares_memory(n, s), "whole", f"buffer of {k} {a.dtype} {a.shape}")
        # a complete shared array is passed on, a copy is a copy
        t = dtype.as_sharedmem(s)
        u = dtype.as_sharedmem(s, copy=True)
        mon.ok(np.shares_memory(t, s) and same(t, a), "whole", "a complete shared array was copied")
        mon.ok(not np.shares_memory(u, s) and same(u, a), "whole", "copy=True returned the same memory")
        # parts, permutations and other types of it are not the whole
        ax = int(rng.integers(a.ndim))
        cut = [slice(None)] * a.ndim
        n_ax = a.shape[ax]
        cut[ax] = pick(rng, [slice(0, max(1, n_ax - 1)), slice(n_ax // 2, None), slice(None, None, 2), slice(None, None, -1), slice(None)])
        for v, w in ((s[tuple(cut)], a[tuple(cut)]), (s.T, a.T), (s.reshape(-1), a.reshape(-1)), (s[..., None], a[..., None])):
            q = dtype.as_sharedmem(v)
            mon.ok(dtype.is_sharedmem(v) and same(q, w), "values", lambda: f"view {v.shape} of shared {a.shape}")
            z = dtype.to_numpy_array(dtype.get_shared_mem(q), q.dtype, q.shape)
            mon.ok(same(z, w), "whole", lambda: f"the buffer behind the shared view {v.shape} strides {v.strides} of {a.shape} does not hold its elements")
        e = dtype.empty_shared_array(tuple(p["shape"]) if rng.random() < .5 else list(p["shape"]), a.dtype)
        e[...] = a
        mon.ok(e.shape == a.shape and e.dtype == a.dtype and dtype.is_sharedmem(e) and same(e, a) and e.flags.writeable, "recognised", f"empty_shared_array {a.dtype} {a.shape}")
        # conversions
        with np.errstate(all="ignore"):
            for f, d in (("as_float32", "f4"), ("as_int32", "i4"), ("as_uint16", "u2"), ("as_uint8", "u1")):
                c = getattr(dtype, f)(x)
                mon.ok(same(np.asarray(c), a.astype(d)), "convert", lambda: f"{f} of {k} {a.dtype}")
                mon.ok((c is x) == (x.dtype == np.dtype(d)), "convert", lambda: f"{f} of {a.dtype}: copied without need or not copied")
        l = dtype.as_float32(a.astype("f4").tolist())
        mon.ok(isinstance(l, np.ndarray) and same(l, a.astype("f4")), "convert", "as_float32 of a list")
        mon.ok(dtype.is_contiguous(x) == (x.flags.c_contiguous), "convert", "is_contiguous")
        mon.sig(k, a.dtype.str, tuple(a.shape))


def gen_churn(rng, i):
    return dict(steps=int(rng.integers(60, 220)))


def run_churn(p, mon):
    rng = rng_for("c26c", p["seed"])
    live = []           # [base or view, shadow]

    def check():
        spans = []
        for b, sh, own in live:
            mon.ok(same(np.asarray(b), sh), "shadow", lambda: f"a live shared array {sh.shape} {sh.dtype} changed behind its owner")
            lo, hi = np.lib.array_utils.byte_bounds(b) if hasattr(np.lib, "array_utils") else np.byte_bounds(b)
            spans.append((lo, hi, own))
        spans.sort()
        for (l0, h0, o0), (l1, h1, o1) in zip(spans, spans[1:]):
            if o0 != o1:
                mon.ok(l1 >= h0, "disjoint", "two shared arrays overlap in memory")
    own = 0
    for step in range(p["steps"]):
        op = rng.random()
        if op < .4 or not live:
            dt = pick(rng, TYPES)
            shape = tuple(int(x) for x in rng.integers(1, pick(rng, [4, 12, 40]), int(rng.integers(1, 4))))
            a = data(rng, shape, dt)
            own += 1
            if rng.random() < .5:
                s = dtype.as_sharedmem(layout(rng, a)[1])
            else:
                s = dtype.empty_shared_array(shape, a.dtype)
                s[...] = a
            live.append([s, a.copy(), own])
        elif op < .55:      # keep only a view; the array itself is dropped
            k = int(rng.integers(len(live)))
            b, sh, o = live[k]
            cut = (slice(int(rng.integers(b.shape[0])), None),)
            live[k] = [b[cut], sh[cut].copy(), o]
        elif op < .7:       # another view of the same memory
            k = int(rng.integers(len(live)))
            b, sh, o = live[k]
            live.append([dtype.as_sharedmem(b) if b.flags.c_contiguous and rng.random() < .5 else b[::-1], None, o])
            n = live[-1]
            if not np.shares_memory(n[0], b):
                own += 1
                n[2] = own
            n[1] = np.asarray(n[0]).copy()
            mon.ok(same(n[1], sh) or same(n[1], sh[::-1]), "shadow", "view")
        elif op < .85:
            live.pop(int(rng.integers(len(live))))
            if rng.random() < .5:
                gc.collect()
        else:               # write through one name; all names of the same memory follow
            k = int(rng.integers(len(live)))
            b, sh, o = live[k]
            if b.size:
                b[...] = data(rng, b.shape, b.dtype.str.lstrip("<|=").replace("b1", "?"))
                for n in live:
                    if n[2] == o:
                        n[1] = np.asarray(n[0]).copy()
        if len(live) > 40:
            live.pop(0)
        if step % 5 == 4:
            check()
    check()
    mon.sig("churn", p["steps"], own)


def gen_fork(rng, i):
    return dict(n=int(rng.integers(2, 5)), rows=int(rng.integers(2, 30)), cols=int(rng.integers(1, 2000)), dt=pick(rng, ["f4", "f8", "i4", "u2", "u1"]))


def run_fork(p, mon):
    rng = rng_for("c26f", p["seed"])
    a = data(rng, (p["rows"], p["cols"]), p["dt"])
    s = dtype.as_sharedmem(a)
    guard = dtype.as_sharedmem(a)
    want = a.copy()
    val = data(rng, (p["rows"], p["cols"]), p["dt"])
    pids = []
    for k in range(p["n"]):
        rows = np.arange(p["rows"])[k::p["n"] + 1]
        want[rows] = val[rows]
        pid = os.fork()
        if pid == 0:
            try:
                v = dtype.to_numpy_array(dtype.get_shared_mem(s), s.dtype, s.shape)
                v[rows] = val[rows]
            finally:
                os._exit(0)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)
    mon.ok(same(s, want), "worker-writes", f"{p}: what the workers wrote is not what the parent sees")
    mon.ok(same(guard, a), "worker-writes", "a worker's write reached another array")
    mon.sig("fork", p["n"], p["rows"], p["cols"], p["dt"])


def _twice(x, k):
    return x * k


def _write(x, k):
    x *= k


def gen_reuse(rng, i):
    return dict(n=int(rng.integers(3, 7)))


def run_reuse(p, mon):
    rng = rng_for("c26u", p["seed"])
    kept = []
    for _ in range(p["n"]):
        shape = tuple(int(x) for x in rng.integers(2, 7, 3))
        src = data(rng, shape, "i2").astype("f4")
        x = src
        if kept and rng.random() < .7:
            x = kept[int(rng.integers(len(kept)))][0]
            x = pick(rng, [x, x[1:], x[:, ::-1], x.swapaxes(0, 1), x[::2]])
            src = np.array(x)
        k = float(rng.integers(2, 5))
        kw = dict(axis=int(rng.integers(3)), args=(k,), ncore=int(pick(rng, [1, 2, 3])), nchunk=pick(rng, [None, 1, 2]))
        r = mproc.distribute_jobs(x, func=pick(rng, [_twice, _write]), **kw)
        mon.ok(np.array_equal(np.asarray(r), src * k), "kept", lambda: f"result for {kw}")
        kept.append((r, np.array(r)))
        gc.collect()
        for r0, sh in kept:
            mon.ok(np.array_equal(np.asarray(r0), sh), "kept", lambda: f"an earlier result changed when a later job ran {kw}")
    mon.sig("reuse", p["n"], p["seed"])


def fft_module(impl):
    """tomopy.util.misc as it is when the given FFT implementation was selected at import"""
    import importlib.util, tomopy
    if impl == "default":
        return sys.modules.get("tomopy.util.misc") or importlib.import_module("tomopy.util.misc")
    if impl not in LOADED:
        old = tomopy.fft_impl
        loader = sys.modules["tomopy._fft_loader"]
        oldl = loader.fft_impl
        try:
            tomopy.fft_impl = loader.fft_impl = impl
            path = importlib.import_module("tomopy.util.misc").__file__
            spec = importlib.util.spec_from_file_location("tomopy.util.misc_" + impl.replace(".", "_"), path)
            LOADED[impl] = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(LOADED[impl])
        finally:
            tomopy.fft_impl, loader.fft_impl = old, oldl
    return LOADED[impl]


LOADED = {}


def run_fft(p, mon):
    rng = rng_for("c26t", p["seed"])
    import importlib
    misc = fft_module(pick(rng, ["default", "numpy.fft"]))
    n, m = int(rng.integers(1, 40)), int(rng.integers(1, 40))
    ny, nx = int(rng.integers(1, 40)), int(rng.integers(1, 40))
    a = rng.normal(size=(ny, nx)) + 1j * rng.normal(size=(ny, nx))
    if rng.random() < .5:
        a = a.real.astype(pick(rng, ["f4", "f8"]))
    a0 = a.copy()
    W = lambda k: np.exp(-2j * np.pi * np.outer(np.arange(k), np.arange(k)) / k)
    tol = 1e-5 * np.abs(a).sum()
    mon.close(misc.fft2(a, extra_info=3), W(ny) @ a @ W(nx), "fft", "fft2", rtol=0, atol=tol)
    mon.close(misc.ifft2(a), W(ny).conj() @ a @ W(nx).conj() / (ny * nx), "fft", "ifft2", rtol=0, atol=tol)
    for ax in (0, 1, -1):
        d = W(a.shape[ax])
        ref = np.moveaxis(np.tensordot(d, a, (1, ax)), 0, ax)
        mon.close(misc.fft(a, axis=ax), ref, "fft", f"fft axis {ax}", rtol=0, atol=tol)
        ref = np.moveaxis(np.tensordot(d.conj(), a, (1, ax)), 0, ax) / a.shape[ax]
        mon.close(misc.ifft(a, axis=ax), ref, "fft", f"ifft axis {ax}", rtol=0, atol=tol)
    z = np.zeros((ny, m), a.dtype)
    z[:, :min(nx, m)] = a[:, :m]
    mon.close(misc.fft(a, n=m), z @ W(m), "fft", f"fft n={m}", rtol=0, atol=tol)
    z = np.zeros((n, m), a.dtype)
    z[:min(ny, n), :min(nx, m)] = a[:n, :m]
    mon.close(misc.fft2(a, s=(n, m)), W(n) @ z @ W(m), "fft", f"fft2 s={n, m}", rtol=0, atol=tol)
    b = rng.normal(size=(int(rng.integers(1, 6)), ny, nx))
    mon.close(misc.fft2(b, axes=(0, 2)), np.fft.fft2(b, axes=(0, 2)), "fft", "fft2 axes (0, 2)", rtol=0, atol=1e-5 * np.abs(b).sum())
    mon.close(misc.ifft2(b), np.fft.ifft2(b), "fft", "ifft2 of a stack", rtol=0, atol=1e-5 * np.abs(b).sum())
    c = a.astype(complex)
    mon.close(misc.ifft2(misc.fft2(c, overwrite_input=True), overwrite_input=True), a, "fft", "forward and back", rtol=0, atol=tol)
    mon.close(misc.ifft2(a, s=(n, m)), W(n).conj() @ z @ W(m).conj() / (n * m), "fft", f"ifft2 s={n, m}", rtol=0, atol=tol)
    z = np.zeros((ny, m), a.dtype)
    z[:, :min(nx, m)] = a[:, :m]
    mon.close(misc.ifft(a, n=m), z @ W(m).conj() / m, "fft", f"ifft n={m}", rtol=0, atol=tol)
    mon.ok(same(a, a0), "fft", "the transform changed its input")
    mon.sig("fft", ny, nx, a.dtype.str)


FAMILIES = [Family("roundtrip", gen, run_round, 900, 4500), Family("churn", gen_churn, run_churn, 360, 1800), Family("fork", gen_fork, run_fork, 360, 1800),
            Family("reuse", gen_reuse, run_reuse, 144, 720), Family("fft", gen, run_fft, 600, 3000)]
