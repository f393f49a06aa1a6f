from vlib import *
import catalog
tomopy = lazy("tomopy")
RULE = ("every public array function with random options; one array argument at a time (and all at once) is handed over in another representation of the same numbers: float64, integer types for whole "
        "numbers, Fortran order, axes permuted in memory, strided, reversed, offset and broadcast views, misaligned and byte-swapped storage, read-only, list, shared arrays of an earlier tomopy call and "
        "views of them; the result is compared with the one for a fresh C-contiguous float32 array; non-trivial: the representation differs from a plain copy")
ASSUMPTIONS = ["in-place functions are not given read-only arrays", "results may carry another dtype; values agree to 1e-5 of the largest magnitude"]
NAMES = catalog.NAMES
FLOATK = ["f64", "fortran", "perm", "strided", "reversed", "offset", "readonly", "bcast", "shared", "sharedview", "sharedT", "unaligned", "byteswap"]
INTK = ["uint8", "uint16", "int16", "int32", "int64"]


def gen(rng, i):
    return dict(name=NAMES[i % len(NAMES)])


def rep(x, kind, rng):
    n = x.ndim
    if kind == "f64":
        return x.astype(np.float64) if x.dtype.kind == "f" else x.astype(np.int64)
    if kind == "fortran":
        return np.asfortranarray(x)
    if kind == "perm":
        o = [int(k) for k in rng.permutation(n)]
        inv = np.argsort(o)
        return np.ascontiguousarray(x.transpose(o)).transpose(inv)
    if kind == "strided":
        st = [int(s) for s in rng.integers(1, 4, n)]
        big = np.full([s * t for s, t in zip(x.shape, st)], 99, x.dtype)
        v = big[tuple(slice(None, None, t) for t in st)]
        v[...] = x
        return v
    if kind == "reversed":
        sl = tuple(slice(None, None, -1) if rng.random() < .7 else slice(None) for _ in range(n))
        return np.ascontiguousarray(x[sl])[sl]
    if kind == "offset":
        off = [int(s) for s in rng.integers(0, 3, n)]
        big = np.full([s + o + 2 for s, o in zip(x.shape, off)], 99, x.dtype)
        v = big[tuple(slice(o, o + s) for o, s in zip(off, x.shape))]
        v[...] = x
        return v
    if kind == "readonly":
        y = x.copy()
        y.setflags(write=False)
        return y
    if kind.startswith("shared"):
        if x.dtype != np.float32 or n != 3:
            return np.asfortranarray(x)
        src = {"shared": x, "sharedview": np.concatenate([x[:1], x, x[:1]], 0), "sharedT": np.ascontiguousarray(x.swapaxes(0, 1))}[kind]
        y = tomopy.distortion_correction_proj(src, 0., 0., [1.0], ncore=1)
        y[...] = src
        return {"shared": y, "sharedview": y[1:-1], "sharedT": y.swapaxes(0, 1)}[kind]
    if kind == "unaligned":
        b = np.zeros(x.nbytes + 1, np.uint8)
        v = b[1:].view(x.dtype).reshape(x.shape)
        v[...] = x
        return v
    if kind == "byteswap":
        return x.astype(x.dtype.newbyteorder(">"))
    if kind == "bcast":      # zero strides where the data allow it
        if n == 3 and x.shape[0] == 1:
            return np.broadcast_to(x[0], x.shape)
        return np.array(x, order="C")
    return x.astype(kind)


# these decide on sorted, fitted and thresholded values: the last bit of a value can move a decision
DETECT = {"remove_all_stripe", "remove_large_stripe", "remove_dead_stripe", "remove_stripe_based_interpolation", "remove_stripe_based_sorting", "remove_stripe_based_filtering"}


def jumps(c, over, rng, b, tol):
    for k in range(4):
        a = c.fresh()
        a["tomo"] = (a["tomo"] * (1 + rng.normal(size=a["tomo"].shape) * 2e-7)).astype(np.float32)
        if not np.allclose(catalog.res(c.run(a, **over))[0], b, rtol=0, atol=tol, equal_nan=True):
            return True
    return False


def run(p, mon):
    rng = rng_for("c06", p["seed"])
    c = catalog.make(p["name"], rng)
    ints = [k for k in c.ints if k in c.arrs]
    kinds = list(FLOATK)
    useint = bool(ints) and rng.random() < .5
    if useint:
        for k in ints:
            hi = float(np.abs(c.arrs[k]).max())
            s = 1 if c.arrs[k].dtype.kind != "f" or hi > 50 else 20 / max(hi, 1e-3)
            c.arrs[k] = np.abs(np.rint(c.arrs[k] * np.float32(s))).astype(c.arrs[k].dtype)
    over = {}
    if c.ncore:
        over["ncore"] = int(pick(rng, [1, 1, 1, 2]))
    base = catalog.res(c.run(c.fresh(), **over))
    mon.count("fn:" + c.name)

    def one(which, kind):
        args = c.fresh()
        for k in which:
            x = args[k]
            kk = kind
            if kind in INTK and (k not in ints or x.dtype.kind != "f"):
                continue
            if kind == "uint8" and x.max() > 255:
                kk = "uint16"
            if k in c.fixed and kind in ("f64", "byteswap", "shared", "sharedview", "sharedT"):
                kk = "strided"
            if k in c.inplace and kk in ("readonly", "unaligned", "bcast"):
                kk = "strided"
            args[k] = rep(x, kk, rng)
        got = catalog.res(c.run(args, **over))
        msg = f"{c.name} {which} as {kind} {over} {c.kw}"
        mon.ok(len(got) == len(base), "outputs", msg)
        for g, b in zip(got, base):
            f = np.isfinite(b)
            sc = float(np.abs(b[f].astype(np.float64)).max()) if f.any() else 1.
            if c.name == "inpainter_morph:random":
                g, b = np.where(c.arrs["mask"], 0, g), np.where(c.arrs["mask"], 0, b)
            if c.name in DETECT and not np.allclose(g, b, rtol=0, atol=1e-5 * sc, equal_nan=True) and jumps(c, over, rng, b, 1e-5 * sc):
                mon.count("skipped_illconditioned")
                continue
            mon.close(g, b, "same-result:" + c.name, msg, rtol=1e-5, scale=sc)
        mon.count("kind:" + kind)
        mon.sig(c.name, tuple(which), kind)
    ks = list(c.arrs)
    for kind in ([pick(rng, INTK), pick(rng, INTK)] if useint else []) + [str(k) for k in rng.choice(kinds, 3, replace=False)]:
        one([pick(rng, ks)] if rng.random() < .6 else ks, kind)


FAMILIES = [Family("layout", gen, run, 48 * len(NAMES), 240 * len(NAMES))]
REQUIRED = ["kind:" + k for k in FLOATK + INTK]
