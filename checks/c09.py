from vlib import *
import siddon
tomopy = lazy("tomopy")
RULE = ("random objects (10 value distributions), non-square grids 1..24 px, angle sets (random, multiples of 45 deg, negative, "
        "beyond 2 pi), rotation centers on and off the detector; non-trivial: at least one ray crosses the object; the oracle is a "
        "double-precision ray tracer, linearity, mass, periodicity and option relations")
ASSUMPTIONS = ["rays within 0.0125 px of the grid border or along a grid line are not judged (documented 0.01 px trimming)"]
REQUIRED = ["rays_judged", "monitor:line-integral", "monitor:mass", "monitor:vector", "monitor:transmission"]


def gen(rng, i):
    nx = int(rng.integers(1, 20)); ny = int(rng.integers(1, 20))
    if i % 4 == 0:
        ny = nx
    return dict(oy=int(rng.integers(1, 5)), nx=nx, ny=ny, dt=int(rng.integers(1, 9)),
                kind=pick(rng, KINDS), ang=pick(rng, ["random", "quarters", "negative", "wide", "linspace"]),
                cen=pick(rng, ["default", "scalar", "array", "int", "off", "varied"]), pad=bool(rng.integers(2)),
                ncore=int(pick(rng, [1, 1, 1, 2, 4])), nchunk=pick(rng, [None, None, 1, 2]))


def angles(p, rng):
    dt = p["dt"]
    if p["ang"] == "random":
        t = rng.uniform(0, np.pi, dt)
    elif p["ang"] == "quarters":
        t = rng.integers(-8, 9, dt) * np.pi / 4
    elif p["ang"] == "negative":
        t = rng.uniform(-2 * np.pi, 0, dt)
    elif p["ang"] == "wide":
        t = rng.uniform(-12, 12, dt)
    else:
        t = np.linspace(0, np.pi, dt)
    return t.astype(np.float32)


def centers(p, rng, dx):
    k = p["cen"]
    if k == "default":
        return None, np.full(p["oy"], dx / 2.0)
    if k == "scalar":
        c = float(np.float32(dx / 2 + rng.uniform(-2, 2)))
        return c, np.full(p["oy"], c)
    if k == "int":
        c = int(dx // 2)
        return c, np.full(p["oy"], float(c))
    if k == "off":
        c = float(np.float32(rng.uniform(-dx, 2 * dx)))
        return c, np.full(p["oy"], c)
    if k == "array":
        c = float(np.float32(dx / 2 + rng.uniform(-2, 2)))
        return np.full(p["oy"], c, np.float32), np.full(p["oy"], c)
    c = (dx / 2 + rng.uniform(-2, 2, p["oy"])).astype(np.float32)
    return c, c.astype(np.float64)


def width(p):
    if p["pad"]:
        return int(np.ceil((np.sqrt(p["nx"] ** 2 + p["ny"] ** 2) + 2) / 2.) * 2)
    return p["nx"]


def run_lines(p, mon):
    rng = rng_for("data", p["seed"])
    obj = array(rng, (p["oy"], p["nx"], p["ny"]), p["kind"])
    th = angles(p, rng)
    dx = width(p)
    c, cs = centers(p, rng, dx)
    kw = dict(center=c, pad=p["pad"], ncore=p["ncore"], nchunk=p["nchunk"])
    got = np.array(tomopy.project(obj, th, sinogram_order=True, **kw))
    if not mon.ok(got.shape == (p["oy"], p["dt"], dx), "shape", f"shape {got.shape}"):
        return
    rad = tomopy.project(obj, th, sinogram_order=False, **kw)
    mon.equal(np.swapaxes(got, 0, 1), rad, "order", "radiograph order is not the transpose of sinogram order")
    tr = tomopy.project(obj, th, sinogram_order=True, emission=False, **kw)
    lim = np.abs(got) < 80
    ex = np.exp(-np.where(lim, got, 0).astype(np.float64))
    mon.close(np.where(lim, tr, 1), np.where(lim, ex, 1), "transmission", "exp(-line integral)", rtol=0, atol=1e-30 + 3e-6 * ex * (1 + np.abs(np.where(lim, got, 0))))
    amax = float(np.abs(obj).max())
    for s in range(p["oy"]):
        A, amb = siddon.system(th, cs[s], p["nx"], p["ny"], dx)
        ref = A @ obj[s].astype(np.float64).ravel()
        judged = ~amb
        mon.count("rays_judged", judged.sum())
        mon.count("rays_skipped", amb.sum())
        hit = judged & (A.sum(2) > 0)
        if hit.any():
            mon.sig(p["nx"], p["ny"], p["ang"], p["cen"], p["pad"], p["kind"], s)
        mon.close(np.where(judged, got[s], 0), np.where(judged, ref, 0), "line-integral",
                  f"slice {s} center {cs[s]}", rtol=0, atol=amax * (1e-5 * (p["nx"] + p["ny"]) + 2e-3))


def run_mass(p, mon):
    """object inside the field of view: every projection has the object's mass, so does linearity hold"""
    rng = rng_for("mass", p["seed"])
    n = p["nx"] + 14
    obj = np.zeros((p["oy"], n, n), np.float32)
    yy, xx = np.mgrid[:n, :n] - (n - 1) / 2.0
    m = xx ** 2 + yy ** 2 < (n / 2.0 - 2.5) ** 2
    obj[:, m] = (0.5 + rng.random((p["oy"], int(m.sum())))).astype(np.float32)
    th = np.linspace(0, np.pi, 24, endpoint=False).astype(np.float32) + np.float32(rng.random())
    got = np.array(tomopy.project(obj, th, sinogram_order=True, ncore=1)).astype(np.float64)
    mass = obj.astype(np.float64).sum((1, 2))
    # the sum over unit-spaced rays is a sampling of the projection: individual angles may deviate
    # (box windows), the mean over angles is tight
    tot = got.sum(2)
    mon.close(tot.mean(1), mass, "mass", "mean mass over angles", rtol=0, atol=0.01 * mass.max())
    mon.close(tot, np.repeat(mass[:, None], th.size, 1), "mass", "mass per angle", rtol=0, atol=0.06 * mass.max())
    # linearity and slice independence
    o2 = array(rng, obj.shape, "normal")
    a, b = 1.5, -0.75
    g2 = np.array(tomopy.project(o2, th, sinogram_order=True, ncore=1)).astype(np.float64)
    g3 = np.array(tomopy.project((a * obj + b * o2).astype(np.float32), th, sinogram_order=True, ncore=1))
    mon.close(g3, a * got + b * g2, "linear", "project(a x + b y)", rtol=1e-4)
    # periodicity
    k = int(rng.integers(1, 3))
    g4 = np.array(tomopy.project(obj, (th.astype(np.float64) + 2 * np.pi * k).astype(np.float32), sinogram_order=True, ncore=1))
    mon.close(g4, got, "periodic", f"theta+{k}*2pi", rtol=0, atol=0.02 * n ** 0.5 * float(obj.max()) + 0.05, frac=0.02)
    # center shift by whole pixels moves the projection by whole pixels
    dx = got.shape[2]
    c0 = dx / 2.0
    sh = int(rng.integers(1, 4))
    g5 = np.array(tomopy.project(obj, th, center=c0 + sh, sinogram_order=True, ncore=1)).astype(np.float64)
    mon.close(g5[:, :, sh:], got[:, :, :dx - sh], "center-shift", f"shift {sh}", rtol=1e-4, atol=2e-3, frac=0.01)
    mon.sig("mass", n, p["oy"], sh, k)


def run_vector(p, mon):
    rng = rng_for("vec", p["seed"])
    n = p["nx"]
    kind = p["seed"] % 4    # 0, 2: a cube (all axes); 1: as many slices as columns (axes 0 and 1); 3: any (axis 0)
    shape = (n, n, n) if kind in (0, 2) else (p["ny"], n, p["ny"]) if kind == 1 else (p["oy"], n, p["ny"])
    p = dict(p, nx=shape[1], ny=shape[2], oy=shape[0])
    f = [array(rng, shape, "normal") for _ in range(3)]
    th = angles(p, rng)
    dx = width(p)
    c, cs = centers(p, rng, dx)
    vx, vy = siddon.ray_dir(th)
    amax = max(float(np.abs(x).max()) for x in f)
    got2 = np.array(tomopy.project2(f[0], f[1], th, center=c, pad=p["pad"], sinogram_order=True))
    rad2 = np.array(tomopy.project2(f[0], f[1], th, center=c, pad=p["pad"], sinogram_order=False))
    mon.equal(np.swapaxes(got2, 0, 1), rad2, "order")
    sysm = {v: siddon.system(th, v, p["nx"], p["ny"], dx) for v in set(cs)}
    tol = amax * (1e-5 * (p["nx"] + p["ny"]) + 2e-3) * 1.5

    def cmp(got, gx, gy, key):
        for s in range(gx.shape[0]):
            A, amb = sysm[cs[s]]
            ref = (A @ gx[s].astype(np.float64).ravel()) * vx[:, None] + (A @ gy[s].astype(np.float64).ravel()) * vy[:, None]
            mon.count("rays_judged", (~amb).sum())
            mon.close(np.where(amb, 0, got[s]), np.where(amb, 0, ref), "vector", f"{key} slice {s}", rtol=0, atol=tol)
    cmp(got2, f[0], f[1], "project2")
    mon.sig("vec", shape, p["ang"], p["cen"])
    axes = [[0, 1, 2], [0, 1], [0, 1, 2], [0]][kind]
    for ax in axes:
        got3 = np.array(tomopy.project3(f[0], f[1], f[2], th, center=c, pad=p["pad"], sinogram_order=True, axis=ax))
        if ax == 0:
            cmp(got3, f[0], f[1], "project3 axis 0")
        elif ax == 1:
            # slice s runs over the last axis, the ray plane is (second, first)
            g = lambda a: np.transpose(a, (2, 1, 0))
            cmp(got3, g(f[1]), g(f[2]), "project3 axis 1")
        else:
            g = lambda a: np.transpose(a, (1, 2, 0))
            cmp(got3, g(f[0]), g(f[2]), "project3 axis 2")
        mon.sig("vec3", ax, n)
    tr = np.array(tomopy.project2(f[0], f[1], th, center=c, pad=p["pad"], sinogram_order=True, emission=False))
    mon.close(tr, np.exp(-got2.astype(np.float64)), "transmission", rtol=1e-5)


FAMILIES = [Family("lines", gen, run_lines, 1760, 8800), Family("mass", gen, run_mass, 192, 960), Family("vector", gen, run_vector, 480, 2400)]
