from vlib import *
tomopy = lazy("tomopy")
RULE = ("random arrays (1-17 per axis, floats, integers, bool, complex), all axes counted from either end, levels 0-3 incl. sizes the bin does not "
        "divide, pads 0-20 in both modes, full-turn sinograms with every overlap 0..width and both sides and odd numbers of projections, "
        "circular regions anywhere; every output element is compared with the input element(s) it must come from; non-trivial: output differs in shape from the input")
REQUIRED = ["monitor:down", "monitor:up", "monitor:roundtrip", "monitor:pad", "monitor:sino360", "monitor:blend", "monitor:trim"]


def gen(rng, i):
    return dict(sh=[int(pick(rng, [1, 2, 3, 4, 8, int(rng.integers(5, 18))])) for _ in range(3)], axis=int(rng.integers(-3, 3)), level=int(pick(rng, [0, 1, 1, 2, 3])),
                dt=pick(rng, ["float32", "float32", "float64", "uint16", "int32"]), kind=pick(rng, ["normal", "counts", "positive"]), dflt=bool(rng.random() < .2))


def run_sample(p, mon):
    rng = rng_for("c18s", p["seed"])
    a = array(rng, p["sh"], p["kind"])
    if p["dt"] not in ("float32", "float64"):
        a = np.abs(np.rint(a * (1 if p["kind"] == "counts" else 50)))
    a = a.astype(p["dt"])
    ax, lv = (2, 1) if p["dflt"] else (p["axis"] % 3, p["level"])
    kw = {} if p["dflt"] else dict(level=lv, axis=p["axis"])
    x = a.astype(np.float32)
    b = 2 ** lv
    u = tomopy.upsample(a, **kw)
    mon.equal(u, np.repeat(x, b, axis=ax), "up", f"level {lv} axis {ax}")
    mon.close(tomopy.downsample(u, **kw), x, "roundtrip", f"level {lv} axis {ax}", rtol=0, atol=1e-6 * np.abs(x))
    n = x.shape[ax] // b
    d = tomopy.downsample(a, **kw)
    y = np.moveaxis(x.astype(np.float64), ax, 0)
    ref = np.moveaxis(y[:n * b].reshape((n, b) + y.shape[1:]).mean(1), 0, ax)
    amp = np.moveaxis(np.abs(y[:n * b]).reshape((n, b) + y.shape[1:]).mean(1), 0, ax)
    mon.close(d, ref, "down", f"level {lv} axis {ax} shape {x.shape}", rtol=0, atol=1e-6 * amp + 1e-30)
    mon.ok(d.dtype == np.float32 and u.dtype == np.float32, "dtype", f"{d.dtype}")
    if lv:
        mon.sig(p["sh"], ax, lv, p["dt"])


def run_pad(p, mon):
    rng = rng_for("c18p", p["seed"])
    dt = pick(rng, ["float32", "float64", "int32", "int64", "uint16", "uint8", "bool", "complex64", "complex128"])
    a = array(rng, p["sh"], "counts")
    a = (a % 2 if dt == "bool" else a).astype(dt)
    if dt.startswith("complex"):
        a = a + (1j * array(rng, p["sh"], "normal")).astype(dt)
    ax = p["axis"]
    npad = pick(rng, [None, 0, 1, 3, 20])
    mode = pick(rng, ["constant", "constant", "edge"])
    kw = dict(mode=mode)
    c = 0
    if mode == "constant" and rng.random() < .5:
        c = pick(rng, [1, 7, 100])
        if dt in ("int64", "float64", "complex128", "complex64") and rng.random() < .5:
            c = {"int64": 2 ** 53 + 1, "float64": 1 / 3}.get(dt, 2 - 3j)
        elif dt in ("float32", "int32") and rng.random() < .3:
            c = {"int32": -2 ** 31 + 1, "float32": -.1}[dt]
        kw["constant_values"] = c
    if mode == "constant" and rng.random() < .3:
        kw.pop("mode")
    if npad is not None:
        kw["npad"] = npad
    r = tomopy.pad(a, ax, ncore=int(pick(rng, [1, 2, 4])), **kw)
    n = a.shape[ax]
    k = int(np.ceil((n * np.sqrt(2) - n) / 2)) if npad is None else npad
    seq = [(0, 0)] * 3
    seq[ax % 3] = (k, k)
    ref = np.pad(a, seq, "constant", constant_values=np.dtype(dt).type(c)) if mode == "constant" else np.pad(a, seq, "edge")
    mon.ok(r.dtype == a.dtype, "dtype", f"{r.dtype}")
    mon.equal(r, ref, "pad", f"{mode} {npad} axis {ax} {dt}")
    if k:
        mon.sig("pad", p["sh"], ax, k, mode, dt)


def run_360(p, mon):
    rng = rng_for("c18t", p["seed"])
    dx, dy, dz = int(rng.integers(2, 16)), p["sh"][1], p["sh"][2]
    dt = pick(rng, ["float32", "float64", "int32"])
    a = (rng.integers(0, 1000, (dx, dy, dz)) + (0 if dt == "int32" else rng.random((dx, dy, dz)))).astype(dt)
    ov = int(rng.integers(0, dz + 1))
    rot = pick(rng, ["left", "right"])
    f = pick(rng, [tomopy.sino_360_to_180, tomopy.sino_360_t0_180])
    arg = ov + (float(rng.uniform(-.4, .4)) if rng.random() < .3 else 0)
    kw = dict(overlap=arg, rotation=rot)
    if rot == "left" and rng.random() < .3:
        kw.pop("rotation")
    if ov == 0 and arg == 0 and rng.random() < .5:
        kw.pop("overlap")
    r = f(a, **kw)
    n = dx // 2
    mon.ok(r.shape == (n, dy, 2 * dz - ov) and r.dtype == a.dtype, "shape360", f"{r.shape} {r.dtype}")
    A, B = a[:n], a[n:2 * n][:, :, ::-1]
    if rot == "right":
        lft, rgt = A, B
    else:
        lft, rgt = B, A
    mon.equal(r[:, :, :dz - ov], lft[:, :, :dz - ov], "sino360", f"{rot} overlap {ov}: left part")
    mon.equal(r[:, :, dz:], rgt[:, :, ov:], "sino360", f"{rot} overlap {ov}: right part")
    if ov:
        P, Q = lft[:, :, dz - ov:].astype(np.float64), rgt[:, :, :ov].astype(np.float64)
        w = np.linspace(0, 1, ov) if ov > 1 else .5
        ref = (1 - w) * P + w * Q
        tol = 1e-5 * (np.abs(P) + np.abs(Q)) + (1 if dt == "int32" else 0)
        mon.close(r[:, :, dz - ov:dz], ref, "blend", f"{rot} overlap {ov}", rtol=0, atol=tol)
    mon.sig("360", dx, dz, ov, rot, dt)


def run_trim(p, mon):
    rng = rng_for("c18r", p["seed"])
    dx, dy, dz = int(rng.integers(1, 14)), p["sh"][1], int(rng.integers(6, 40))
    a = array(rng, (dx, dy, dz), "normal")
    D = int(rng.integers(1, dz))
    x, y = (int(v) for v in rng.integers(-dz // 3, dz // 3 + 1, 2))
    c = dz / 2 + float(pick(rng, [0, .25, -.3, 1]))
    r = tomopy.trim_sinogram(a, c, x, y, pick(rng, [D, float(D)]))
    mon.ok(r.shape == (dx, dy, D), "shape-trim", str(r.shape))
    rad, al = np.hypot(x, y), np.arctan2(x, y)
    for m in range(dx):
        s = np.cos(al - m * np.pi / dx) * rad + c - D / 2
        if abs(s - round(s)) < 1e-6:
            mon.count("skipped_edge_on_pixel")
            continue
        i1, i2 = (min(max(int(v), 0), dz) for v in (np.ceil(s), np.floor(s + D)))
        mon.equal(r[m, :, :i2 - i1], a[m, :, i1:i2], "trim", f"row {m} columns {i1}:{i2}")
    mon.sig("trim", dx, dz, D, x, y)


FAMILIES = [Family("sample", gen, run_sample, 16000, 80000), Family("pad", gen, run_pad, 12800, 64000), Family("full_turn", gen, run_360, 12800, 64000), Family("trim", gen, run_trim, 6400, 32000)]
