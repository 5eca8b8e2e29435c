"""Random scenes (several images of one field, several sources) and their reference models.

Builds objects of the code under test; the reference side uses lib/ref.py only.
"""
import numpy as np

import ref
import zoo
from zoo import pick, chance, loguni
from tractor import Image, Tractor, HybridPixelizedPSF, PixelizedPSF, NullSky, ConstantSky
from tractor.psf import NormalizedPixelizedPsf

GAUSS = ('gm', 'nc', 'gme')


def matched_hybrid(rng, half=None):
    """Hybrid PSF whose Gaussian approximation is the very Gaussian its stamp samples."""
    g = zoo.gm_psf(rng, K=1)
    V = zoo.rand_cov(rng, 1.3, 2.2)
    from tractor import GaussianMixturePSF
    g = GaussianMixturePSF(np.array([1.]), np.zeros((1, 2)), V[np.newaxis])
    h = half or int(rng.integers(12, 16))
    st = ref.gauss([(1., np.zeros(2), V)], -h, h + 1, -h, h + 1, 0., 0.)
    p = HybridPixelizedPSF(PixelizedPSF(st.astype(np.float32)), gauss=g)
    p.zoo_kind = 'hybrid'
    p.zoo_stamp = st
    return p


def psf(rng, kind=None):
    kind = kind or pick(rng, ['gm', 'nc', 'gme', 'pix', 'hybrid', 'npix'])
    if kind == 'hybrid':
        return matched_hybrid(rng)
    return zoo.psf(rng, kind)


def hybrid_tail(psf_, mix, half):
    """Flux that can wrap around when a galaxy is rendered with a hybrid PSF: a component of variance v goes
    through an FFT of half-size R >= half only if R is at least 3 sigmas."""
    V = psf_.gauss.mog.var[0]
    t = 0.
    for a, mu, S in mix:
        C = S + V
        R = max(max(half, 3 * np.sqrt(S[0, 0] + S[1, 1])) - 3, 0)
        t += abs(a) / (2 * np.pi * np.sqrt(np.linalg.det(C))) * np.exp(-0.5 * R ** 2 / np.linalg.eigvalsh(C)[-1])
    return 6 * t


class Im(object):
    """An image of the scene together with what the reference needs to know about it."""

    def __init__(self, rng, astro, photo, band, psf_, sky_, W, H, maskfrac=0.1, noise=1., **kw):
        self.astro, self.photo, self.band, self.psf, self.W, self.H = astro, photo, band, psf_, W, H
        data = rng.normal(0, noise, (H, W)).astype(np.float32)
        ie = (rng.uniform(0.5, 1.5, (H, W)) / noise).astype(np.float32)
        if maskfrac:
            ie[rng.random((H, W)) < maskfrac] = 0.
        self.img = Image(data=data, inverr=ie, psf=psf_, wcs=astro.wcs, sky=sky_,
                         photocal=photo.cal(band), name='im', **kw)
        self.frame = ref.Frame(astro)

    def counts(self, br):
        return self.photo.counts(br, self.band)

    def sky_model(self):
        s = self.img.sky
        n = type(s).__name__
        if n == 'NullSky':
            return np.zeros((self.H, self.W))
        if n == 'ConstantSky':
            return np.zeros((self.H, self.W)) + float(s.getAllParams()[0])
        assert n == 'SplineSky', n
        nx, ny = len(s.xgrid), len(s.ygrid)
        c = np.array(s.getAllParams(), float)
        return spline_eval(s, c, nx, ny, self.W, self.H)

    def models(self, src, mask=None):
        """[(reference array, tolerance array)] for each profile component of src.

        mask: (x0,x1,y0,y1) rectangle the source is rendered on (instead of its nominal extent)."""
        x, y = self.frame.xy(src.getPosition())
        W, H = self.W, self.H
        k = self.psf.zoo_kind
        out = []
        yy, xx = np.mgrid[0:H, 0:W]
        dist = np.maximum(np.abs(xx - x), np.abs(yy - y))
        rad = float(self.psf.getRadius())
        comps = ref.components(src)
        if type(src).__name__ == 'CompositeGalaxy':
            groups = [[c] for c in comps]
        else:
            groups = [comps]
        for g in groups:
            mix = []
            nre = 0.
            for br, w, prof, shape in g:
                c = self.counts(br) * w
                if prof is None:
                    mix.append((c, np.zeros(2), np.zeros((2, 2))))
                else:
                    V = self.frame.cov(shape)
                    mix += [(c * a, np.zeros(2), v * V) for a, v in zip(*prof)]
                    kk = [q for q in ref.PROFILE if ref.PROFILE[q] is prof][0]
                    nre = max(nre, ref.NRE[kk] * ref.ellipse(shape)[0] / self.frame.pixscale)
            point = g[0][2] is None
            imsize = max(x, W - 1 - x, y, H - 1 - y) + 1
            half = rad if point else max(rad, min(nre, imsize))
            if mask is not None:
                mx0, mx1, my0, my1 = mask
                sh = self.psf.shape if k not in GAUSS else (0, 0)
                half = max(abs(x - mx0), abs(mx1 - x), abs(y - my0), abs(my1 - y), sh[0] / 2., sh[1] / 2.)
                inside = (xx >= mx0) & (xx < mx1) & (yy >= my0) & (yy < my1)
            if k in GAUSS:
                r = ref.gauss(ref.convolve(mix, ref.psf_mix(self.psf)), 0, W, 0, H, x, y)
                tol = 4e-6 * np.max(np.abs(r), initial=1e-30) + 1e-9 * sum(abs(m[0]) for m in mix)
                if mask is None:
                    tol = tol + np.where(dist > half - 0.5, np.abs(r) * (1 + 1e-6), 0.)
                else:
                    tol = 2e-5 * np.max(np.abs(r), initial=1e-30) + 1e-9 * sum(abs(m[0]) for m in mix) + np.zeros(r.shape)
            elif point:
                st = self.psf.zoo_stamp
                r, foot = ref.pix_point(st, x, y, 0, W, 0, H)
                r = r * mix[0][0]
                tol = 3e-6 * abs(mix[0][0]) * st.max() + np.where(foot, 0., np.abs(r))
                if mask is not None and not (foot & inside).any():
                    tol = tol + np.abs(r)
            else:
                st = self.psf.zoo_stamp
                N = 256 if max(half, nre) < 110 else 512
                full = ref.pix_galaxy(st, mix, 0., 0., -N // 2, N // 2, -N // 2, N // 2, N=N)
                gy, gx = np.mgrid[-N // 2:N // 2, -N // 2:N // 2]
                h = int(half) - 3
                tail = np.max(np.abs(full[np.maximum(abs(gx), abs(gy)) >= h]), initial=0.)
                r = ref.pix_galaxy(st, mix, x, y, 0, W, 0, H, N=N)
                tol = 6 * tail + 3e-6 * np.max(np.abs(full)) + np.where(dist > h, np.abs(r), 0.)
                if k == 'hybrid':
                    # wide profile components are not rendered through the FFT (where they would wrap around)
                    tail = hybrid_tail(self.psf, mix, half)
                    tol = tail + 3e-4 * np.max(np.abs(full)) + np.where(dist > h, np.abs(r), 0.)
                if mask is not None:
                    tol = (tail + 3e-4 * np.max(np.abs(full)) if k == 'hybrid' else 6 * tail + 3e-6 * np.max(np.abs(full))) + np.zeros(r.shape)
            if mask is not None:
                r = np.where(inside, r, 0.)
                tol = np.where(inside, tol, 0.)
            out.append((r, np.broadcast_to(tol, r.shape)))
        return out

    def model(self, srcs, sky=True):
        r = self.sky_model() if sky else np.zeros((self.H, self.W))
        tol = np.abs(r) * 1e-6 + 1e-12
        for s in srcs:
            for a, t in self.models(s):
                r = r + a
                tol = tol + t
        return r, tol


def spline_eval(sky, c, nx, ny, W, H):
    """Bicubic B-spline with knots as fitted through the grid, coefficients c (from the object).

    Independent of the repository's evaluation code: explicit tensor product of B-splines."""
    from scipy.interpolate import BSpline
    # not-a-knot knot vectors of an interpolating spline through the grid nodes
    def knots(g, k):
        g = np.asarray(g, float)
        inner = g[2:-2] if k == 3 else g[1:-1]
        return np.concatenate([[g[0]] * (k + 1), inner, [g[-1]] * (k + 1)])
    k = sky.order
    tx, ty = knots(sky.xgrid, k), knots(sky.ygrid, k)
    xs = np.arange(W, dtype=float) + sky.x0
    ys = np.arange(H, dtype=float) + sky.y0

    def basis(t, n, u):
        u = np.clip(u, t[0], t[-1])
        B = np.zeros((len(u), n))
        for i in range(n):
            e = np.zeros(n)
            e[i] = 1.
            B[:, i] = BSpline(t, e, k, extrapolate=True)(u)
        return B
    BX, BY = basis(tx, nx, xs), basis(ty, ny, ys)
    C = c.reshape(nx, ny).T
    return BY @ C @ BX.T


def scene(rng, nim=None, nsrc=None, psf_kinds=None, src_kinds=None, sky_kinds=None, linear=True,
          astro_kind=None, size=(18, 42), signed=0., margin=6, rmax=3., clo=5., chi=3e3, same_psf=False,
          maskfrac=0.1, noise=1., rmin=0.4, photo_kind=None):
    """-> (Tractor, [Im], [source])"""
    nim = nim or int(rng.integers(1, 4))
    nsrc = int(rng.integers(1, 5)) if nsrc is None else nsrc
    photo = zoo.Photo(rng, kind=photo_kind, linear=linear)
    ims = []
    base = None
    for i in range(nim):
        W, H = int(rng.integers(*size)), int(rng.integers(*size))
        if base is None:
            astro = base = zoo.Astro(rng, W, H, kind=astro_kind)
        else:
            astro = sibling(rng, base, W, H)
        band = pick(rng, photo.bands) if photo.kind in ('fluxes', 'nmgy', 'mags') else photo.band
        p = psf(rng, pick(rng, psf_kinds) if psf_kinds else None)
        s = zoo.sky(rng, W, H, pick(rng, sky_kinds) if sky_kinds else None)
        ims.append(Im(rng, astro, photo, band, p, s, W, H, maskfrac=maskfrac, noise=noise))
    srcs = []
    for i in range(nsrc):
        m = margin
        x = float(rng.uniform(-m, base.W - 1 + m))
        y = float(rng.uniform(-m, base.H - 1 + m))
        if chance(rng, 0.15):
            k = int(rng.integers(3))        # centred on a pixel in both or one direction
            x, y = (float(np.round(x)) if k != 1 else x), (float(np.round(y)) if k != 2 else y)
        s = zoo.source(rng, base, photo, x=x, y=y, kind=pick(rng, src_kinds) if src_kinds else None,
                       lo=rmin, hi=rmax, signed=signed, clo=clo, chi=chi)
        srcs.append(s)
    tr = Tractor([i.img for i in ims], srcs)
    return tr, ims, srcs


def sibling(rng, base, W, H):
    """Another WCS over the same field (dithered, rescaled, rotated)."""
    a = zoo.Astro.__new__(zoo.Astro)
    a.kind, a.W, a.H = base.kind, W, H
    from tractor import NullWCS, ConstantFitsWcs
    if a.kind == 'null':
        a.pixscale = base.pixscale
        a.dx, a.dy = base.dx + float(rng.uniform(-4, 4)), base.dy + float(rng.uniform(-4, 4))
        a.wcs = NullWCS(pixscale=a.pixscale, dx=a.dx, dy=a.dy)
        return a
    from astrometry.util.util import Tan
    r, d = base.tan.pixelxy2radec(base.W / 2. + 1, base.H / 2. + 1)[-2:]
    th = rng.uniform(0, 2 * np.pi)
    s = float(rng.uniform(0.7, 1.4)) * base.pixscale / 3600.
    f = pick(rng, [-1., 1.])
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]) @ np.diag([f, 1.]) * s
    a.tan = Tan(r, d, W / 2. + float(rng.uniform(-3, 3)), H / 2. + float(rng.uniform(-3, 3)),
                R[0, 0], R[0, 1], R[1, 0], R[1, 1], float(W), float(H))
    a.wcs = ConstantFitsWcs(a.tan)
    a.pixscale = a.tan.pixel_scale()
    return a


def wide_model(im, src, mask=None):
    """Reference for sources that may be larger than the image, through a Gaussian or matched hybrid PSF.

    -> (model, tolerance, nearest distance from the source to the mask, nominal radius in pixels)"""
    x, y = im.frame.xy(src.getPosition())
    W, H = im.W, im.H
    hyb = im.psf.zoo_kind == 'hybrid'
    pm = ref.psf_mix(im.psf.gauss if hyb else im.psf)
    yy, xx = np.mgrid[0:H, 0:W]
    dist = np.maximum(np.abs(xx - x), np.abs(yy - y))
    imsize = max(x, W - 1 - x, y, H - 1 - y) + 1
    rad = float(im.psf.getRadius())
    near, nres = 0., []
    inside = np.ones((H, W), bool)
    if mask is not None:
        x0, x1, y0, y1 = mask
        inside = (xx >= x0) & (xx < x1) & (yy >= y0) & (yy < y1)
        near = np.hypot(max(x0 - x, x - (x1 - 1), 0.), max(y0 - y, y - (y1 - 1), 0.))
    r, t = np.zeros((H, W)), np.zeros((H, W))
    groups = [[c] for c in ref.components(src)] if type(src).__name__ == 'CompositeGalaxy' else [ref.components(src)]
    for g in groups:
        mix, nre = [], 0.
        for br, w, prof, shape in g:
            V = im.frame.cov(shape)
            mix += [(im.counts(br) * w * a, np.zeros(2), v * V) for a, v in zip(*prof)]
            kk = [q for q in ref.PROFILE if ref.PROFILE[q] is prof][0]
            if w > 0:
                nre = max(nre, ref.NRE[kk] * ref.ellipse(shape)[0] / im.frame.pixscale)
        nres.append(nre)
        half = max(rad, min(nre, imsize))
        full = ref.convolve(mix, pm)
        a = ref.gauss(full, 0, W, 0, H, x, y)
        peak = sum(abs(c[0]) / (2 * np.pi * np.sqrt(np.linalg.det(c[2]))) for c in full)
        tol = 2e-5 * peak + np.zeros((H, W))
        if hyb:
            tol = tol + (1e-2 if near == 0 else 1e-3) * peak + hybrid_tail(im.psf, mix, half if mask is None else max(abs(x - x0), abs(x1 - x), abs(y - y0), abs(y1 - y),
                                                                                             im.psf.shape[0] / 2.))
        if mask is None:
            tol = tol + np.where(dist > half - 3, np.abs(a) * (1 + 1e-6), 0.)
        elif near > nre - 2:
            tol = tol + np.abs(a)
        r, t = r + a, t + tol
    return np.where(inside, r, 0.), np.where(inside, t, 0.), near, nres
