"""Independent double-precision ray tracer for the parallel-beam geometry of tomopy.

Ray of detector pixel d at angle th: points t*(cos,sin) + y*(-sin,cos), with
y = (1-dx)/2 + d + mov, mov = (dx-1)/2 - center (+0.01 if that is within 0.01 above an integer) + 0.5.
Pixel (i, j) of an (nx, ny) grid covers x in [i-nx/2, i+1-nx/2], y in [j-ny/2, j+1-ny/2].
"""
import numpy as np


def eff_mov(dx, center):
    mov = np.float64((np.float32(dx) - np.float32(1)) * np.float32(0.5) - np.float32(center))
    fr = mov - np.floor(mov)
    amb = abs(fr - 0.01) < 1e-5 or fr > 1 - 1e-5
    if fr < 0.01:
        mov += 0.01
    return mov + 0.5, amb


def system(theta, center, nx, ny, dx, margin=0.0125):
    """A[p, d, pixel] = intersection length; amb[p, d]: the ray runs so close to the border or to a
    corner of the grid, or so nearly along a grid line, that single precision cannot be judged."""
    theta = np.asarray(theta, np.float32).astype(np.float64)
    dt = theta.size
    A = np.zeros((dt, dx, nx * ny))
    amb = np.zeros((dt, dx), bool)
    mov, mamb = eff_mov(dx, center)
    if mamb:
        amb[:] = True
    gx = np.arange(nx + 1) - nx / 2.0
    gy = np.arange(ny + 1) - ny / 2.0
    y0 = (1 - dx) / 2.0 + np.arange(dx) + mov
    X, Y = nx / 2.0, ny / 2.0
    for p in range(dt):
        s, c = np.sin(theta[p]), np.cos(theta[p])
        if abs(s) < 1e-6:
            s, c = 0.0, np.sign(c)
        if abs(c) < 1e-6:
            c, s = 0.0, np.sign(s)
        axis = s == 0 or c == 0
        T = []
        big = 10.0 * (nx + ny + dx)
        if c != 0:
            tx = (gx[None, :] + y0[:, None] * s) / c            # crossings of x lines
            T.append(tx)
            yy = tx * s + y0[:, None] * c
            inside = np.abs(yy) <= Y + margin
            amb[p] |= np.any(inside & (np.abs(np.abs(yy) - Y) < margin), axis=1)
        if s != 0:
            ty = (gy[None, :] - y0[:, None] * c) / s
            T.append(ty)
            xx = ty * c - y0[:, None] * s
            inside = np.abs(xx) <= X + margin
            amb[p] |= np.any(inside & (np.abs(np.abs(xx) - X) < margin), axis=1)
        if axis:
            # a ray along a grid line belongs to neither pixel
            pos = y0 * (s if c == 0 else c)
            n = nx if c == 0 else ny
            fr = np.abs((pos + n / 2.0) - np.round(pos + n / 2.0))
            amb[p] |= (fr < 1e-3)
        else:
            # single precision error of the crossings grows with the slope
            k = max(abs(s / c), abs(c / s)) * (nx + ny) * 4e-7
            if k > 2e-3:
                amb[p] = True
        T = np.sort(np.clip(np.concatenate(T, 1), -big, big), axis=1)
        mid = 0.5 * (T[:, 1:] + T[:, :-1])
        L = T[:, 1:] - T[:, :-1]
        ix = np.floor(mid * c - y0[:, None] * s + X).astype(int)
        iy = np.floor(mid * s + y0[:, None] * c + Y).astype(int)
        ok = (ix >= 0) & (ix < nx) & (iy >= 0) & (iy < ny) & (L > 0)
        d = np.broadcast_to(np.arange(dx)[:, None], ok.shape)
        np.add.at(A[p], (d[ok], ix[ok] * ny + iy[ok]), L[ok])
    return A, amb


def ray_dir(theta):
    theta = np.asarray(theta, np.float32).astype(np.float64)
    # (source - detector)/|.|
    return -np.cos(theta), -np.sin(theta)


def clean_angles(rng, n, center, nx, ny, dx, lo=0.0, hi=np.pi, tries=400, centers=None):
    """n random angles (sorted) for which no ray is ambiguous, for all given centers."""
    out = []
    cs = list(np.unique(np.asarray(centers if centers is not None else [center], np.float32)))
    for _ in range(tries * n):
        if len(out) == n:
            break
        th = np.float32(rng.uniform(lo, hi))
        if all(not system([th], c, nx, ny, dx)[1].any() for c in cs):
            out.append(th)
    if len(out) < n:
        return None
    return np.sort(np.array(out, np.float32))
