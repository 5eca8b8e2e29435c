"""Independent reference renderer (numpy only; shares no code with the repository).

Mixtures are lists of (amp, mean(2), cov(2,2)) in pixel space.
"""
import numpy as np

# Published mixture-of-Gaussian approximations of the exp and deV profiles
# (Hogg & Lang 2013), in units of the effective radius.
EXP_AMP = np.array([2.34853813e-03, 3.07995260e-02, 2.23364214e-01,
                    1.17949102e+00, 4.33873750e+00, 5.99820770e+00])
EXP_VAR = np.array([1.20078965e-03, 8.84526493e-03, 3.91463084e-02,
                    1.39976817e-01, 4.60962500e-01, 1.50159566e+00])
EXP_AMP = EXP_AMP / EXP_AMP.sum()
_d = np.array([4.26347652e-02, 2.40127183e-01, 6.85907632e-01, 1.51937350e+00,
               2.83627243e+00, 4.46467501e+00, 5.72440830e+00, 5.60989349e+00])
DEV_CORE = 0.010233
DEV_AMP = np.append(DEV_CORE, _d * (1. - DEV_CORE) / _d.sum())
DEV_VAR = np.append(0., np.array([2.23759216e-04, 1.00220099e-03, 4.18731126e-03, 1.69432589e-02,
                                  6.84850479e-02, 2.87207080e-01, 1.33320254e+00, 8.40215071e+00]))
PROFILE = dict(exp=(EXP_AMP, EXP_VAR), dev=(DEV_AMP, DEV_VAR), gauss=(np.array([1.]), np.array([1.])))
NRE = dict(exp=4., dev=8., gauss=6., sersic=8.)


# -------- geometry

def ellipse(shape):
    """(r_e in arcsec, axis ratio, position angle E of N in radians) of a shape object."""
    n = type(shape).__name__
    a = [float(v) for v in shape.getAllParams()]
    if n == 'EllipseE':
        r, e1, e2 = a
        e = np.hypot(e1, e2)
        return r, (1. - e) / (1. + e), 0.5 * np.arctan2(e2, e1)
    if n == 'EllipseESoft':
        lr, e1, e2 = a
        s = np.hypot(e1, e2)
        e = 1. - np.exp(-s)
        return np.exp(lr), (1. - e) / (1. + e), 0.5 * np.arctan2(e2, e1)
    assert n == 'GalaxyShape', n
    r, ab, phi = a
    # (the repository-wide convention for 'phi': the sense opposite to EllipseE's angle,
    # as in EllipseE.fromRAbPhi)
    return max(r, 1. / 30), ab, -np.deg2rad(phi)


def sky_cov(shape):
    """Covariance of a unit-variance profile, in degrees^2 on the sky (RA*cosDec, Dec)."""
    r, ab, pa = ellipse(shape)
    r = r / 3600.
    u = np.array([np.sin(pa), np.cos(pa)])
    v = np.array([np.cos(pa), -np.sin(pa)])
    return r * r * (np.outer(u, u) + ab * ab * np.outer(v, v))


class Frame(object):
    """Pixel geometry of an image: from a zoo Astro and an integer/float origin offset."""

    def __init__(self, astro, x0=0., y0=0.):
        self.astro = astro
        self.x0, self.y0 = x0, y0
        if astro.kind == 'null':
            self.cd = np.eye(2) * astro.pixscale / 3600.
        else:
            c = astro.tan.get_cd()
            self.cd = np.array([[c[0], c[1]], [c[2], c[3]]])
        self.cdi = np.linalg.inv(self.cd)
        self.pixscale = 3600. * np.sqrt(abs(np.linalg.det(self.cd)))

    def xy(self, pos):
        p = [float(v) for v in pos.getAllParams()]
        if self.astro.kind == 'null':
            x, y = p[0] + self.astro.dx, p[1] + self.astro.dy
        else:
            x, y = self.astro.tan.radec2pixelxy(p[0], p[1])[-2:]
            x, y = x - 1., y - 1.
        return x - self.x0, y - self.y0

    def cov(self, shape):
        return self.cdi @ sky_cov(shape) @ self.cdi.T


# -------- mixtures

def psf_mix(psf):
    """Mixture of a Gaussian PSF object, from its documented parameters."""
    n = type(psf).__name__
    p = np.array(psf.getAllParams(), float)
    if n == 'NCircularGaussianPSF':
        K = len(p) // 2
        # (the weights are relative: the total mass is 1)
        s, w = p[:K], p[K:] / p[K:].sum()
        return [(w[k], np.zeros(2), np.eye(2) * s[k]**2) for k in range(K)]
    if n == 'GaussianMixturePSF':
        K = len(p) // 6
        amp, mu, v = p[:K], p[K:3 * K].reshape(K, 2), p[3 * K:].reshape(K, 3)
        return [(amp[k], mu[k], np.array([[v[k, 0], v[k, 2]], [v[k, 2], v[k, 1]]])) for k in range(K)]
    if n == 'GaussianMixtureEllipsePSF':
        K = len(p) // 6
        amp, mu, e = p[:K], p[K:3 * K].reshape(K, 2), p[3 * K:].reshape(K, 3)
        out = []
        for k in range(K):
            lr, e1, e2 = e[k]
            s = np.hypot(e1, e2)
            ab = (1 - (1 - np.exp(-s))) / (1 + (1 - np.exp(-s)))
            pa = 0.5 * np.arctan2(e2, e1)
            u = np.array([np.sin(pa), np.cos(pa)])
            w = np.array([np.cos(pa), -np.sin(pa)])
            out.append((amp[k], mu[k], np.exp(2 * lr) * (np.outer(u, u) + ab**2 * np.outer(w, w))))
        return out
    raise KeyError(n)


def soft_frac(f):
    n = type(f).__name__
    v = float(f.getAllParams()[0])
    if n == 'SoftenedFracDev':
        return 1. / (1. + np.exp(4. * (0.5 - v)))
    return min(max(v, 0.), 1.)


def components(src):
    """[(brightness object, weight, [(amp, var)] or None for a point, shape)]"""
    n = type(src).__name__
    if n in ('PointSource', 'MovingPointSource'):
        return [(src.brightness, 1., None, None)]
    if n in ('ExpGalaxy', 'DevGalaxy', 'GaussianGalaxy'):
        k = {'E': 'exp', 'D': 'dev', 'G': 'gauss'}[n[0]]
        return [(src.brightness, 1., PROFILE[k], src.shape)]
    if n == 'FixedCompositeGalaxy':
        f = soft_frac(src.fracDev)
        return [(src.brightness, f, PROFILE['dev'], src.shapeDev),
                (src.brightness, 1. - f, PROFILE['exp'], src.shapeExp)]
    if n == 'CompositeGalaxy':
        return [(src.brightnessExp, 1., PROFILE['exp'], src.shapeExp),
                (src.brightnessDev, 1., PROFILE['dev'], src.shapeDev)]
    raise KeyError(n)


def profile_mix(src, frame, counts):
    """Source's intrinsic mixture centred at 0 in pixels, times counts(brightness)."""
    out = []
    for br, w, prof, shape in components(src):
        c = counts(br) * w
        if prof is None:
            out.append((c, np.zeros(2), np.zeros((2, 2))))
        else:
            V = frame.cov(shape)
            for a, v in zip(*prof):
                out.append((c * a, np.zeros(2), v * V))
    return out


def convolve(m1, m2):
    return [(a * b, u + v, A + B) for a, u, A in m1 for b, v, B in m2]


def gauss(mix, x0, x1, y0, y1, cx, cy):
    """Evaluate a mixture on the pixel grid [x0,x1) x [y0,y1), centred at cx,cy."""
    xx, yy = np.meshgrid(np.arange(x0, x1, dtype=float), np.arange(y0, y1, dtype=float))
    r = np.zeros(xx.shape)
    for a, u, V in mix:
        det = V[0, 0] * V[1, 1] - V[0, 1] * V[1, 0]
        dx = xx - cx - u[0]
        dy = yy - cy - u[1]
        q = (V[1, 1] * dx * dx - 2. * V[0, 1] * dx * dy + V[0, 0] * dy * dy) / det
        with np.errstate(under='ignore'):
            r += a / (2. * np.pi * np.sqrt(det)) * np.exp(-0.5 * q)
    return r


def dgauss(mix, x0, x1, y0, y1, cx, cy):
    """d/dcx, d/dcy of gauss()."""
    xx, yy = np.meshgrid(np.arange(x0, x1, dtype=float), np.arange(y0, y1, dtype=float))
    gx = np.zeros(xx.shape)
    gy = np.zeros(xx.shape)
    for a, u, V in mix:
        I = np.linalg.inv(V)
        dx = xx - cx - u[0]
        dy = yy - cy - u[1]
        q = I[0, 0] * dx * dx + 2 * I[0, 1] * dx * dy + I[1, 1] * dy * dy
        with np.errstate(under='ignore'):
            g = a / (2. * np.pi * np.sqrt(np.linalg.det(V))) * np.exp(-0.5 * q)
        gx += g * (I[0, 0] * dx + I[0, 1] * dy)
        gy += g * (I[0, 1] * dx + I[1, 1] * dy)
    return gx, gy


# -------- pixelized PSFs

def lanczos_kernel(d, L=3):
    """Taps k=-3..3 of the normalized Lanczos kernel: out[i] = sum_k K[k] img[i+k], shift by +d."""
    t = np.arange(-L, L + 1) + d
    k = np.sinc(t) * np.sinc(t / L)
    k[np.abs(t) >= L] = 0.
    return k / k.sum()


def lanczos_shift(canvas, dx, dy):
    """Shift an image by (dx,dy) with zeros outside (same shape)."""
    kx, ky = lanczos_kernel(dx), lanczos_kernel(dy)
    H, W = canvas.shape
    p = np.zeros((H + 6, W + 6))
    p[3:-3, 3:-3] = canvas
    t = sum(kx[k] * p[:, k:k + W] for k in range(7))
    return sum(ky[k] * t[k:k + H, :] for k in range(7))


def pix_point(img, px, py, x0, x1, y0, y1):
    """Unit point source with stamp img, on [x0,x1)x[y0,y1); also the stamp footprint mask."""
    h, w = img.shape
    ix, iy = int(np.rint(px)), int(np.rint(py))
    sx, sy = ix - w // 2, iy - h // 2
    M = 4
    can = np.zeros((h + 2 * M, w + 2 * M))
    can[M:-M, M:-M] = img
    can = lanczos_shift(can, px - ix, py - iy)
    out = np.zeros((y1 - y0, x1 - x0))
    foot = np.zeros(out.shape, bool)
    for yy in range(can.shape[0]):
        Y = sy - M + yy - y0
        if Y < 0 or Y >= out.shape[0]:
            continue
        X = np.arange(can.shape[1]) + sx - M - x0
        ok = (X >= 0) & (X < out.shape[1])
        out[Y, X[ok]] = can[yy, ok]
        inn = ok & (np.arange(can.shape[1]) >= M) & (np.arange(can.shape[1]) < M + w)
        if M <= yy < M + h:
            foot[Y, X[inn]] = True
    return out, foot


def pix_galaxy(img, mix, px, py, x0, x1, y0, y1, N=256):
    """Mixture convolved with a stamp: product of transforms on a large box, then the
    same Lanczos treatment of the sub-pixel offset as for the stamp."""
    h, w = img.shape
    ix, iy = int(np.rint(px)), int(np.rint(py))
    can = np.zeros((N, N))
    c = N // 2
    can[c - h // 2:c - h // 2 + h, c - w // 2:c - w // 2 + w] = img
    F = np.fft.fft2(can)
    f = np.fft.fftfreq(N)
    u, v = f[None, :], f[:, None]
    G = np.zeros((N, N))
    for a, _, V in mix:
        G += a * np.exp(-2 * np.pi**2 * (V[0, 0] * u * u + V[1, 1] * v * v + 2 * V[0, 1] * u * v))
    g = np.fft.ifft2(F * G).real
    g = lanczos_shift(g, px - ix, py - iy)
    out = np.zeros((y1 - y0, x1 - x0))
    X = np.arange(x0, x1) - ix + c
    Y = np.arange(y0, y1) - iy + c
    okx = (X >= 0) & (X < N)
    oky = (Y >= 0) & (Y < N)
    out[np.ix_(oky, okx)] = g[np.ix_(Y[oky], X[okx])]
    return out
