"""Double-precision reference implementations of the iterative updates, one slice at a time.

A[p, d, pixel] are ray-pixel intersection lengths, data[p, d], x the image as a vector (nx*ny).
"""
import numpy as np


def blocks(dt, num_block, ind):
    b, r = divmod(dt, num_block)
    out, e = [], 0
    for os in range(num_block):
        s = e
        e = s + b + (1 if os < r else 0)
        out.append([q if num_block == 1 else int(ind[q]) for q in range(s, e)])
    return out


def art(A, data, x, n):
    for _ in range(n):
        for p in range(A.shape[0]):
            for d in range(A.shape[1]):
                a = A[p, d]
                s2 = a @ a
                if s2 > 0:
                    x = x + a * ((data[p, d] - a @ x) / s2)
    return x


def bart(A, data, x, n, blk):
    for _ in range(n):
        for b in blk:
            Ab = A[b].reshape(-1, A.shape[2])
            s2 = (Ab ** 2).sum(1)
            h = s2 > 0
            u = np.zeros(len(Ab))
            u[h] = (data[b].ravel()[h] - Ab[h] @ x) / s2[h]
            sd = Ab.sum(0)
            k = sd > 0
            x = x.copy()
            x[k] += (u @ Ab)[k] / sd[k]
    return x


def ratio(Ab, db, x):
    sim = Ab @ x
    h = (Ab.sum(1) > 0)
    r = np.zeros(len(Ab))
    r[h] = db[h] / sim[h]
    return r


def osem(A, data, x, n, blk):
    for _ in range(n):
        for b in blk:
            Ab = A[b].reshape(-1, A.shape[2])
            r = ratio(Ab, data[b].ravel(), x)
            sd = Ab.sum(0)
            k = sd > 0
            x = x.copy()
            x[k] *= (r @ Ab)[k] / sd[k]
    return x


def neighbours(nx, ny):
    """[(pixel, neighbour, weight)] with weights normalised per pixel"""
    I, J, W = [], [], []
    for i in range(nx):
        for j in range(ny):
            nb = []
            for di in (-1, 0, 1):
                for dj in (-1, 0, 1):
                    if (di or dj) and 0 <= i + di < nx and 0 <= j + dj < ny:
                        nb.append(((i + di) * ny + j + dj, 1.0 if di == 0 or dj == 0 else 1 / np.sqrt(2)))
            tot = sum(w for _, w in nb)
            for q, w in nb:
                I.append(i * ny + j); J.append(q); W.append(w / tot)
    return np.array(I), np.array(J), np.array(W)


def ospml(A, data, x, n, blk, nx, ny, par, hybrid, jit=None):
    I, J, W = neighbours(nx, ny)
    npix = nx * ny
    ospml.cancel = 0.0
    for _ in range(n):
        for b in blk:
            Ab = A[b].reshape(-1, npix)
            r = ratio(Ab, data[b].ravel(), x)
            E = -x * (r @ Ab)
            g = 1.0 / (1.0 + np.abs(x[I] - x[J]) / par[1]) if hybrid else np.ones(len(I))
            F = np.bincount(I, 2 * par[0] * W * g, npix)
            G = -np.bincount(I, 2 * par[0] * W * g * (x[I] + x[J]), npix) + Ab.sum(0)
            ospml.cancel = max(ospml.cancel, float(np.max((np.abs(G) + np.sqrt(G * G - 8 * E * F)) / (4 * F))))
            D = np.sqrt(G * G - 8 * E * F)
            if jit is not None:
                D = D * (1 + 2e-7 * jit.normal(size=npix))
            x = (-G + D) / (4 * F)
    return x


def tv(A, data, x, n, nx, ny, lam):
    c = np.float64(np.float32(0.35))
    dt, dx, npix = A.shape
    r = 1 / np.sqrt(dx * dt / 2.0)
    M = A.reshape(-1, npix)
    d = data.ravel()
    x = x / r
    u = x.copy()
    px = np.zeros((nx, ny)); py = np.zeros((nx, ny)); q = np.zeros(len(d))
    for _ in range(n):
        X = x.reshape(nx, ny)
        px[:-1, :-1] += c * (X[:-1, 1:] - X[:-1, :-1])
        py[:-1, :-1] += c * (X[1:, :-1] - X[:-1, :-1])
        m = np.maximum(1, np.hypot(px, py) / lam)
        px /= m; py /= m
        q = (q + c * r * (M @ x) - c * d) / (1 + c)
        old = u.copy()
        div = px.copy(); div[:, 1:] -= px[:, :-1]
        dy_ = py.copy(); dy_[1:] -= py[:-1]
        u = u - c * r * (q @ M) + c * (div + dy_).ravel()
        x = 2 * u - old
    return x * r


def grad(A, data, x, n, step, lam=0.0, reg=0.0, jit=None):
    """jit: random generator for single-precision rounding of gradient and image (the automatic step divides small differences of both)"""
    dt, dx, npix = A.shape
    r = 1 / np.sqrt(dx * dt / 2.0)
    M = A.reshape(-1, npix)
    d = data.ravel()
    x = x / r
    x0, g0 = x.copy(), np.zeros(npix)
    for i in range(n):
        g = 2 * r * ((r * (M @ x) - d) @ M) + 2 * lam * (x - reg)
        if jit is not None:
            g = g + 1e-7 * jit.normal(size=npix) * 2 * r * ((r * (np.abs(M) @ np.abs(x)) + np.abs(d)) @ np.abs(M))
            x = x * (1 + 6e-8 * jit.normal(size=npix))
        if step < 0:
            if i == 0:
                t = 1e-3
            else:
                dg = g - g0
                den = dg @ dg
                t = ((x - x0) @ dg) / den if den > 0 else 0.0
                
        else:
            t = step
        g0, x0 = g.copy(), x.copy()
        x = x - t * g
    return x * r


def vector(A, data, x1, x2, vx, vy, n):
    dt, dx, npix = A.shape
    M = A.reshape(-1, npix)
    ax, ay = np.repeat(vx, dx), np.repeat(vy, dx)
    s2 = (M ** 2).sum(1)
    h = s2 > 0
    sd = M.sum(0)
    k = sd > 0
    for _ in range(n):
        sim = (M @ x1) * ax + (M @ x2) * ay
        u = np.zeros(len(M))
        u[h] = (data.ravel()[h] - sim[h]) / s2[h]
        x1, x2 = x1.copy(), x2.copy()
        d1, d2 = (u * ax) @ M, (u * ay) @ M
        x1[k] += d1[k] / sd[k]
        x2[k] += d2[k] / sd[k]
    return x1, x2
