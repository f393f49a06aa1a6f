from vlib import *
import catalog, copy
tomopy = lazy("tomopy")
RULE = ("every public array function with random options; arguments are passed as plain arrays, as views inside a larger guard buffer, Fortran ordered, float64, read-only and as "
        "shared arrays of an earlier tomopy call; all bytes of every argument (guard zones included) and every list argument are compared before and after, for one and "
        "several workers; output buffers must receive and be the result; non-trivial: the result differs from the argument")
ASSUMPTIONS = ["documented or historical in-place functions on float32 input are exempt: adjust_range, remove_nan, remove_neg, circ_mask, median_filter_nonfinite, add_gaussian, add_salt_pepper; init_recon is continued in place",
               "a read-only argument may be refused with an exception, not changed"]
NAMES = catalog.NAMES
LAYOUT = ["plain", "plain", "guard", "guard", "fortran", "f64", "shared", "sharedview", "readonly"]


def gen(rng, i):
    return dict(name=NAMES[i % len(NAMES)])


def lay(x, kind, rng):
    """-> (argument, base array whose bytes are watched)"""
    if kind == "guard":
        big = np.full(tuple(s + 3 for s in x.shape), 7, x.dtype)
        v = big[tuple(slice(1, 1 + s) for s in x.shape)]
        v[...] = x
        return v, big
    if kind == "fortran":
        y = np.asfortranarray(x)
        return y, y
    if kind == "f64" and x.dtype == np.float32:
        y = x.astype(np.float64)
        return y, y
    if kind.startswith("shared") and x.dtype == np.float32 and x.ndim == 3:
        b = np.concatenate([x, x[:1]], axis=0) if kind == "sharedview" else x
        y = tomopy.distortion_correction_proj(b, 0., 0., [1.0], ncore=1)
        y[...] = b
        return (y[:len(x)], y) if kind == "sharedview" else (y, y)
    y = np.array(x, order="C")
    if kind == "readonly":
        y.setflags(write=False)
    return y, y


def run(p, mon):
    rng = rng_for("c05", p["seed"])
    c = catalog.make(p["name"], rng)
    kinds = {k: pick(rng, LAYOUT) for k in c.arrs}
    args, bases = {}, {}
    for k, x in c.arrs.items():
        if k in c.inplace or k in c.fixed:
            kinds[k] = "guard" if k in c.fixed and rng.random() < .5 else "plain"
        args[k], bases[k] = lay(x, kinds[k], rng)
    kw0 = copy.deepcopy({k: v for k, v in c.kw.items() if not callable(v)})
    snap = {k: bases[k].tobytes() for k in bases}
    over = {}
    if c.ncore:
        over["ncore"] = int(pick(rng, [1, 1, 2, 3]))
    if c.nchunk:
        over["nchunk"] = pick(rng, [None, 1, 2])
    mon.count("fn:" + c.name)
    ro = [k for k in kinds if kinds[k] == "readonly"]
    try:
        r = catalog.res(c.run(args, **over))
    except Exception as e:
        if not ro:
            raise
        mon.count("readonly-refused")
        r = None
    for k in args:
        if k in c.inplace:
            continue
        mon.ok(bases[k].tobytes() == snap[k], "unchanged", lambda: f"{c.name} changed its argument {k} ({kinds[k]}) {over} {c.kw}")
        mon.count("layout:" + kinds[k])
    mon.ok(kw0 == {k: v for k, v in c.kw.items() if not callable(v)}, "options-unchanged", lambda: f"{c.name}: {kw0} -> {c.kw}")
    if r is not None:
        a0 = c.arrs[list(c.arrs)[0]]
        if r[0].shape != a0.shape or not np.array_equal(r[0], a0):
            mon.sig(c.name, sorted(kinds.items()), over)


OUTS = ["minus_log", "normalize", "normalize_nf", "remove_outlier", "remove_outlier1d", "remove_ring"]


def gen_out(rng, i):
    return dict(name=OUTS[i % len(OUTS)], same=bool(rng.random() < .25))


def run_out(p, mon):
    rng = rng_for("c05o", p["seed"])
    c = catalog.make(p["name"], rng)
    ref = catalog.res(c.run(c.fresh(), ncore=1))[0]
    args = c.fresh()
    k0 = list(args)[0]
    snap = {k: v.tobytes() for k, v in args.items()}
    over = dict(ncore=int(pick(rng, [1, 2, 3])))
    if c.nchunk:
        over["nchunk"] = pick(rng, [None, 1, 2])
    if p["same"] and args[k0].dtype == np.float32:
        out = args[k0]
    else:
        out = np.full(ref.shape, 123, np.float32)
    r = c.run(args, out=out, **over)
    tag = f"{c.name} {c.kw} {over} out is {'the data' if out is args[k0] else 'a buffer'}"
    mon.ok(r is out or (isinstance(r, np.ndarray) and np.shares_memory(r, out) and r.shape == out.shape), "out-returned", tag)
    mon.equal(out, ref, "out-holds-result", tag)
    for k in args:
        if args[k] is not out:
            mon.ok(args[k].tobytes() == snap[k], "unchanged-with-out", f"{tag}: argument {k} changed")
    mon.sig(tag)


FAMILIES = [Family("args", gen, run, 100 * len(NAMES), 500 * len(NAMES)), Family("out", gen_out, run_out, 750, 3750)]
REQUIRED = ["monitor:unchanged", "monitor:options-unchanged", "monitor:out-returned", "monitor:out-holds-result", "layout:shared", "layout:sharedview", "layout:guard", "layout:readonly"]
