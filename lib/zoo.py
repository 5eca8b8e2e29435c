"""Random factories for the objects of the code under test.

Every factory takes a numpy Generator; nothing here decides a verdict.
"""
import numpy as np

from tractor import (Image, Tractor, PixPos, RaDecPos, Flux, Mag, Mags, Fluxes,
                     NanoMaggies, NullPhotoCal, LinearPhotoCal, MagsPhotoCal,
                     FluxesPhotoCal, NullWCS, ConstantFitsWcs, NullSky,
                     ConstantSky, PointSource, PixelizedPSF, GaussianMixturePSF,
                     NCircularGaussianPSF, GaussianMixtureEllipsePSF)
from tractor.engine import Catalog, Images
from tractor.galaxy import (ExpGalaxy, DevGalaxy, GaussianGalaxy, GalaxyShape,
                            FixedCompositeGalaxy, CompositeGalaxy, FracDev,
                            SoftenedFracDev)
from tractor.ellipses import EllipseE, EllipseESoft
from tractor.psf import HybridPixelizedPSF, NormalizedPixelizedPsf
from tractor.patch import Patch, ModelMask
from tractor.splinesky import SplineSky
from tractor.sersic import SersicGalaxy, SersicIndex

BANDS = ['u', 'g', 'r', 'i', 'z', 'Y', 'w1', 'w2']


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def chance(rng, p):
    return bool(rng.random() < p)


def loguni(rng, lo, hi):
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))


def sub_bands(rng, nmin=1, nmax=4):
    n = int(rng.integers(nmin, nmax + 1))
    return [str(b) for b in rng.permutation(BANDS)[:n]]


# ---------------------------------------------------------------- brightness

class Photo(object):
    """A matched pair of photocal and brightness classes.

    counts(values) is an independent statement of the conversion."""

    def __init__(self, rng, kind=None, linear=False):
        kinds = ['flux', 'linflux', 'fluxes', 'nmgy']
        if not linear:
            kinds.append('mags')
        self.kind = kind or pick(rng, kinds)
        self.bands = sub_bands(rng)
        self.band = pick(rng, self.bands)
        self.scale = loguni(rng, 0.05, 20.)
        self.zp = float(rng.uniform(20, 27))

    def cal(self, band=None):
        band = band or self.band
        k = self.kind
        if k == 'flux':
            return NullPhotoCal()
        if k == 'linflux':
            return LinearPhotoCal(self.scale)
        if k == 'fluxes':
            return FluxesPhotoCal(band)
        if k == 'nmgy':
            return LinearPhotoCal(self.scale, band=band)
        return MagsPhotoCal(band, self.zp)

    def brightness(self, rng, counts=None, lo=1., hi=1e4, signed=0.):
        """Random brightness; counts in self.band in [lo,hi]."""
        def c():
            v = loguni(rng, lo, hi)
            if signed and rng.random() < signed:
                v = -v
            return v
        if counts is None:
            counts = c()
        k = self.kind
        if k == 'flux':
            return Flux(counts)
        if k == 'linflux':
            return Flux(counts / self.scale)
        vals = {}
        for b in self.bands:
            cc = counts if b == self.band else c()
            if k == 'fluxes':
                vals[b] = cc
            elif k == 'nmgy':
                vals[b] = cc / self.scale
            else:
                vals[b] = self.zp - 2.5 * np.log10(abs(cc))
        cls = dict(fluxes=Fluxes, nmgy=NanoMaggies, mags=Mags)[k]
        return cls(order=list(self.bands), **vals)

    def counts(self, br, band=None):
        band = band or self.band
        k = self.kind
        if k == 'flux':
            return br.getValue()
        if k == 'linflux':
            return br.getValue() * self.scale
        v = br.getAllParams()[self.bands.index(band)]
        if k == 'fluxes':
            return v
        if k == 'nmgy':
            return v * self.scale
        return 10.**(-0.4 * (v - self.zp))


# ---------------------------------------------------------------- WCS

def tan_wcs(rng, W, H, pixscale=None, dec=None):
    from astrometry.util.util import Tan
    ra = float(rng.uniform(0, 360))
    if dec is None:
        dec = float(rng.uniform(-75, 75))
    ps = pixscale or loguni(rng, 0.1, 3.)
    th = rng.uniform(0, 2 * np.pi)
    flip = -1. if rng.random() < 0.7 else 1.
    sk = rng.uniform(-0.05, 0.05)
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    cd = np.dot(R, np.array([[flip, sk], [0., 1.]])) * ps / 3600.
    return Tan(ra, dec, float(rng.uniform(0, W)), float(rng.uniform(0, H)),
               cd[0, 0], cd[0, 1], cd[1, 0], cd[1, 1], float(W), float(H))


class Astro(object):
    """A matched pair of WCS and position class."""

    def __init__(self, rng, W, H, kind=None, dec=None):
        self.kind = kind or pick(rng, ['null', 'null', 'tan'])
        self.W, self.H = W, H
        if self.kind == 'null':
            self.pixscale = pick(rng, [1., 1., 0.25, 0.5, 2.])
            self.dx, self.dy = (0., 0.) if chance(rng, 0.6) else \
                (float(rng.uniform(-5, 5)), float(rng.uniform(-5, 5)))
            self.wcs = NullWCS(pixscale=self.pixscale, dx=self.dx, dy=self.dy)
        else:
            self.tan = tan_wcs(rng, W, H, dec=dec)
            self.wcs = ConstantFitsWcs(self.tan)
            self.pixscale = self.tan.pixel_scale()

    def pos(self, x, y):
        """Position object lying at pixel x,y."""
        if self.kind == 'null':
            return PixPos(x - self.dx, y - self.dy)
        r, d = self.tan.pixelxy2radec(x + 1., y + 1.)[-2:]
        return RaDecPos(r, d)


# ---------------------------------------------------------------- PSFs

def rand_cov(rng, lo=0.8, hi=3.):
    a, b = loguni(rng, lo, hi), loguni(rng, lo, hi)
    th = rng.uniform(0, np.pi)
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    return R @ np.diag([a * a, b * b]) @ R.T


def gauss_stamp(rng, half=None, half2=None, norm=True, sig=None):
    h = int(half if half is not None else rng.integers(6, 14))
    w = int(half2 if half2 is not None else h)
    yy, xx = np.mgrid[-h:h + 1, -w:w + 1]
    im = np.zeros(xx.shape)
    for k in range(int(rng.integers(1, 3))):
        V = rand_cov(rng, 1.0, min(h, w) / 4. if sig is None else sig)
        I = np.linalg.inv(V)
        q = I[0, 0] * xx**2 + 2 * I[0, 1] * xx * yy + I[1, 1] * yy**2
        im += rng.uniform(0.2, 1.) * np.exp(-0.5 * q) / np.sqrt(np.linalg.det(V))
    if norm:
        im /= im.sum()
    return im.astype(np.float32)


def gm_psf(rng, K=None, mean=False):
    K = K or int(rng.integers(1, 4))
    amp = rng.uniform(0.2, 1., K)
    amp /= amp.sum()
    mu = rng.uniform(-0.3, 0.3, (K, 2)) if mean else np.zeros((K, 2))
    var = np.array([rand_cov(rng) for k in range(K)])
    return GaussianMixturePSF(amp, mu, var)


def nc_psf(rng, K=None):
    K = K or int(rng.integers(1, 4))
    w = rng.uniform(0.2, 1., K)
    # (the weights are relative)
    w *= pick(rng, [1., 1., 3.5]) / w.sum()
    return NCircularGaussianPSF(list(map(float, rng.uniform(0.8, 3., K))),
                                list(map(float, w)))


def gme_psf(rng, K=None):
    K = K or int(rng.integers(1, 3))
    w = rng.uniform(0.2, 1., K)
    w /= w.sum()
    ell = [EllipseESoft(float(np.log(rng.uniform(0.9, 3.))),
                        float(rng.uniform(-0.5, 0.5)), float(rng.uniform(-0.5, 0.5)))
           for k in range(K)]
    return GaussianMixtureEllipsePSF(w, np.zeros((K, 2)), ell)


def psf(rng, kind=None):
    kind = kind or pick(rng, ['gm', 'nc', 'gme', 'pix', 'hybrid', 'npix'])
    if kind == 'gm':
        p = gm_psf(rng)
    elif kind == 'nc':
        p = nc_psf(rng)
    elif kind == 'gme':
        p = gme_psf(rng)
    elif kind == 'pix':
        h2 = int(rng.integers(6, 14)) if chance(rng, 0.4) else None
        st = gauss_stamp(rng, half2=h2)
        if chance(rng, 0.25):
            # oversubtracted wings, as in real stamps
            st = st.astype(float)
            st -= rng.uniform(0.2, 0.6) * st.max() * (st / st.max()) ** rng.uniform(0.4, 0.7)
            st = (st / st.sum()).astype(np.float32) if abs(st.sum()) > 0.2 else np.abs(st / np.abs(st).sum()).astype(np.float32)
        p = PixelizedPSF(st)
        p.zoo_stamp = st.astype(float)
    elif kind == 'npix':
        st = gauss_stamp(rng) * pick(rng, [1., 0.1, 7.])
        p = NormalizedPixelizedPsf(st)
        p.zoo_stamp = st / st.sum(dtype=float)
    elif kind == 'hybrid':
        st = gauss_stamp(rng)
        p = HybridPixelizedPSF(PixelizedPSF(st), gauss=gm_psf(rng, K=1))
        p.zoo_stamp = st.astype(float)
    p.zoo_kind = kind
    return p


# ---------------------------------------------------------------- shapes, sources

def shape(rng, kind=None, lo=0.3, hi=4., emax=0.6):
    kind = kind or pick(rng, ['ee', 'es', 'gs'])
    r = loguni(rng, lo, hi)
    e = rng.uniform(0, emax)
    if emax >= 0.6 and chance(rng, 0.1):
        # edge-on
        e = rng.uniform(0.6, 0.9)
    th = rng.uniform(0, np.pi)
    if kind == 'ee':
        return EllipseE(r, float(e * np.cos(2 * th)), float(e * np.sin(2 * th)))
    if kind == 'es':
        ee = -np.log(1 - e)
        return EllipseESoft(float(np.log(r)), float(ee * np.cos(2 * th)), float(ee * np.sin(2 * th)))
    return GalaxyShape(r, float((1 - e) / (1 + e)), float(np.rad2deg(th)))


SRC = ['pt', 'exp', 'dev', 'gauss', 'fcomp', 'comp']


def source(rng, astro, photo, x=None, y=None, kind=None, counts=None, lo=0.3, hi=4.,
           shape_kind=None, signed=0., clo=1., chi=1e4):
    """lo, hi: effective radius range in arcsec (scaled to pixels of the WCS)."""
    W, H = astro.W, astro.H
    if x is None:
        x = float(rng.uniform(2, W - 3))
    if y is None:
        y = float(rng.uniform(2, H - 3))
    kind = kind or pick(rng, SRC)
    pos = astro.pos(x, y)
    lo, hi = lo * astro.pixscale, hi * astro.pixscale

    def br():
        return photo.brightness(rng, counts=counts, signed=signed, lo=clo, hi=chi)

    def sh():
        return shape(rng, kind=shape_kind, lo=lo, hi=hi)
    if kind == 'pt':
        s = PointSource(pos, br())
    elif kind == 'exp':
        s = ExpGalaxy(pos, br(), sh())
    elif kind == 'dev':
        s = DevGalaxy(pos, br(), sh())
    elif kind == 'gauss':
        s = GaussianGalaxy(pos, br(), sh())
    elif kind == 'fcomp':
        f = float(rng.uniform(0.1, 0.9))
        if chance(rng, 0.4):
            f = SoftenedFracDev(f)
        s = FixedCompositeGalaxy(pos, br(), f, sh(), sh())
    elif kind == 'comp':
        s = CompositeGalaxy(pos, br(), sh(), br(), sh())
    elif kind == 'sersic':
        s = SersicGalaxy(pos, br(), sh(), SersicIndex(float(rng.uniform(0.7, 5.5))))
    s.zoo_xy = (x, y)
    s.zoo_kind = kind
    return s


# ---------------------------------------------------------------- skies, images

def sky(rng, W, H, kind=None, amp=5.):
    kind = kind or pick(rng, ['null', 'const', 'spline'])
    if kind == 'null':
        return NullSky()
    if kind == 'const':
        return ConstantSky(float(pick(rng, [0., 1., -1.])) if chance(rng, 0.15) else float(rng.normal(0, amp)))
    nx, ny = int(rng.integers(4, 7)), int(rng.integers(4, 7))
    X = np.linspace(0, W, nx)
    Y = np.linspace(0, H, ny)
    return SplineSky(X, Y, rng.normal(0, amp, (ny, nx)))


def image(rng, W=None, H=None, astro=None, photo=None, psf_=None, sky_=None,
          noise=1., maskfrac=0.1, **kw):
    W = W or int(rng.integers(18, 48))
    H = H or int(rng.integers(18, 48))
    astro = astro or Astro(rng, W, H)
    photo = photo or Photo(rng)
    psf_ = psf_ if psf_ is not None else psf(rng)
    sky_ = sky_ if sky_ is not None else sky(rng, W, H)
    data = rng.normal(0, noise, (H, W)).astype(np.float32)
    ie = (rng.uniform(0.5, 1.5, (H, W)) / noise).astype(np.float32)
    if maskfrac:
        ie[rng.random((H, W)) < maskfrac] = 0.
    im = Image(data=data, inverr=ie, psf=psf_, wcs=astro.wcs, sky=sky_,
               photocal=photo.cal(), name='im', **kw)
    im.zoo = (astro, photo)
    return im
