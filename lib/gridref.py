"""Double-precision Fourier-grid reconstruction (PSWF gridding, one slice at a time) and the filters."""
import numpy as np
from numpy.polynomial import legendre as LG

COEFS = [0.5767616E+02, -0.8931343E+02, 0.4167596E+02, -0.1053599E+02, 0.1662374E+01, -0.1780527E-00,
         0.1372983E-01, -0.7963169E-03, 0.3593372E-04, -0.1295941E-05, 0.3817796E-07]


def pdim(dx, gx, gy):
    n = 16
    while n < max(dx, gx, gy):
        n *= 2
    return n


def filters(name, n, par, dt=1):
    """filter values for frequencies j/n, j = 0..n/2-1"""
    x = np.arange(n // 2) / n
    r = 2 * x
    if name == "none":
        return np.ones(n // 2)
    if name == "shepp":
        return r * np.sinc(x)
    if name == "cosine":
        return r * np.cos(np.pi * x)
    if name == "hann":
        return r * 0.5 * (1 + np.cos(2 * np.pi * x / par[0]))
    if name == "hamming":
        return r * (0.54 + 0.46 * np.cos(2 * np.pi * x / par[0]))
    if name == "ramlak":
        return r
    if name == "parzen":
        return r * (1 - x / par[0]) ** 3
    if name == "butterworth":
        return r / (1 + (x / par[0]) ** (2 * par[1]))
    raise ValueError(name)


def gridrec(data, theta, center, gx, gy, filt):
    """filt: (n/2,) or (dt, n/2).  Returns the image and the correction factor of every pixel."""
    dt, dx = data.shape
    n = pdim(dx, gx, gy)
    h = n // 2
    C, lam, ltbl = 7.0, 0.99998546, 512
    L = int(2 * C / np.pi)
    L2 = int(C / np.pi)
    spc = 2 * ltbl // L
    cf = np.zeros(21)
    cf[::2] = COEFS
    wt = LG.legval(np.arange(ltbl + 1) / ltbl, cf) / LG.legval(0.0, cf)
    wt[0] = 1.0
    linv = h - 1
    norm = np.sqrt(np.pi / 2 / C / lam) / 1.2
    fac = ltbl / (linv + 0.5)
    winv = np.zeros(n)
    k = np.arange(linv + 1)
    w = norm * (-1.0) ** k / wt[np.floor(k * fac + 0.5).astype(int)]
    winv[linv + k] = w
    winv[linv - k] = w
    winv[2 * linv + 1] = norm * (-1.0) ** (linv + 1) / wt[ltbl]
    filt = np.broadcast_to(np.asarray(filt, np.float64), (dt, h))
    S = np.fft.ifft(data.astype(np.float64), n, axis=1) * n
    j = np.arange(1, h)
    H = np.zeros((n, n), complex)
    ph = np.exp(-2j * np.pi * j * float(center) / n) * np.pi / n / dt
    c32 = np.cos(np.asarray(theta, np.float32))
    s32 = np.sin(np.asarray(theta, np.float32))
    for p in range(dt):
        c1 = filt[p, 1:h] * ph * S[p, 1:h]
        c2 = filt[p, 1:h] * np.conj(ph) * S[p, n - j]
        U = (j.astype(np.float32) * c32[p] + np.float32(h)).astype(np.float64)
        V = (j.astype(np.float32) * s32[p] + np.float32(h)).astype(np.float64)
        for a in range(-L2, L2 + 2):
            iu = np.ceil(U - L2).astype(int) + a + L2
            ou = (iu <= np.floor(U + L2)) & (iu >= 1) & (iu < n)
            wu = np.where(ou, wt[np.clip(np.floor(np.abs(U - iu) * spc + 0.5).astype(int), 0, ltbl)], 0)
            for b in range(-L2, L2 + 2):
                iv = np.ceil(V - L2).astype(int) + b + L2
                ov = ou & (iv <= np.floor(V + L2)) & (iv >= 1) & (iv < n)
                if not ov.any():
                    continue
                wv = wt[np.clip(np.floor(np.abs(V - iv) * spc + 0.5).astype(int), 0, ltbl)]
                m = ov
                np.add.at(H, (iu[m], iv[m]), (wu * wv * c1)[m])
                np.add.at(H, (n - iu[m], n - iv[m]), (wu * wv * c2)[m])
    G = np.fft.fft2(H).real
    ox, oy = (n - gx) // 2, (n - gy) // 2
    yi = (np.arange(gy) - (h - oy)) % n
    xi = (np.arange(gx) - (h - ox)) % n
    corr = np.outer(winv[ox:ox + gx], winv[oy:oy + gy])       # [k, j]
    img = G[np.ix_(yi, xi)].T * corr
    return img[::-1], np.abs(corr[::-1]) / norm ** 2
