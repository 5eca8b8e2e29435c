"""C24: spatially varying PSF models: evaluation, shifting, files, Fourier transforms, Gaussian fits on a grid."""
import os
import pickle

import numpy as np

import zoo
from zoo import pick, chance, loguni
from monitor import Skip
from tractor import Image, Tractor, PixPos, Flux, NullWCS, NullPhotoCal, NullSky, ConstantSky, PointSource, PixelizedPSF
from tractor.galaxy import ExpGalaxy
from tractor.ellipses import EllipseE
from tractor.patch import ModelMask
from tractor.psf import GaussianMixturePSF, GaussianMixtureEllipsePSF, NormalizedPixelizedPsf, HybridPixelizedPSF
from tractor.shifted import ShiftedPsf
from tractor.psfex import (PsfExModel, PixelizedPsfEx, NormalizedPixelizedPsfEx, VaryingGaussianPSF, VaryingGaussianPsfEx, PsfEx, CachingPsfEx)

RULE = 'random polynomial PSF models (degree 0-3, square or not, any origin and scale) and varying-Gaussian fits through histories of evaluation, shifts, copies and file round trips; distinct by (kind, degree, history)'
QUICK = 3
NEED = {'evaluation': 400, 'shift': 400, 'file': 60, 'merged row': 60, 'rendered': 250, 'fourier': 250, 'galaxy': 60, 'normalized': 100,
        'grid fit': 30, 'fit file': 20, 'cell': 200, 'wrapped PSF': 300, 'cutout model': 100, 'cutout of a cutout': 20, 'shifted twice': 30}


def model(rng, deg=None, sampling=1., half=None, half2=None):
    p = PsfExModel()
    deg = int(rng.integers(0, 4)) if deg is None else deg
    n = (deg + 1) * (deg + 2) // 2
    half = half or int(rng.integers(5, 9))
    half2 = half2 or (half if chance(rng, 0.7) else int(rng.integers(5, 9)))
    p.psfbases = np.array([zoo.gauss_stamp(rng, half=half, half2=half2) * (1. if i == 0 else 0.15 * rng.normal()) for i in range(n)]).astype(np.float32)
    p.sampling, p.degree = sampling, deg
    p.x0, p.y0 = float(rng.uniform(-50, 50)), float(rng.uniform(-50, 50))
    p.xscale, p.yscale = loguni(rng, 10., 200.), loguni(rng, 10., 200.)
    p.radius = (2 * half + 2) / 2.
    p.fwhm = float(rng.uniform(2, 5))
    return p


def terms(deg, dx, dy):
    """Monomials in PSFEx order: x varies fastest."""
    return [(j, k, dx ** j * dy ** k) for k in range(deg + 1) for j in range(deg + 1 - k)]


def want_at(d, x, y):
    dx, dy = (x - d['x0']) / d['xscale'], (y - d['y0']) / d['yscale']
    return sum(t * b.astype(float) for (j, k, t), b in zip(terms(d['degree'], dx, dy), d['psfbases']))


def snap(p):
    return dict(x0=p.x0, y0=p.y0, xscale=p.xscale, yscale=p.yscale, degree=p.degree, psfbases=p.psfbases.copy(), sampling=p.sampling, radius=p.radius, fwhm=p.fwhm)


def same_model(m, p, d, what, rtol=0.):
    for k, v in d.items():
        if k == 'psfbases':
            m.check(np.array_equal(p.psfbases, v), 'c24.' + what, 'the basis images', what=what)
        else:
            g = getattr(p, k)
            m.check(abs(g - v) <= rtol * abs(v) + 1e-12, 'c24.' + what, 'model attribute', attr=k, got=g, want=v)


def check_at(m, rng, p, d, n=2):
    for i in range(n):
        x, y = float(rng.uniform(-100, 150)), float(rng.uniform(-100, 150))
        w = want_at(d, x, y)
        m.scaled_close(p.at(x, y), w, 'c24.at', 'PSF image at a position', tol=3e-6 * (1 + np.abs([t for j, k, t in terms(d['degree'], (x - d['x0']) / d['xscale'], (y - d['y0']) / d['yscale'])]).max() * 5))
        m.event('evaluation')
        t, xp, yp = p.polynomials(x, y, powers=True)
        ww = terms(d['degree'], (x - d['x0']) / d['xscale'], (y - d['y0']) / d['yscale'])
        m.close(t, [q[2] for q in ww], 'c24.poly', 'polynomial terms', rtol=1e-9, atol=1e-12)
        m.equal((list(xp), list(yp)), ([q[0] for q in ww], [q[1] for q in ww]), 'c24.powers', 'polynomial powers')


def sc_model(m, rng):
    p = model(rng, sampling=pick(rng, [1., 0.7, 0.5]))
    d = snap(p)
    fn = os.path.join(os.environ['VERIF_SCRATCH'], 'psfex-%d.fits' % os.getpid())
    m.equal((tuple(p.shape), p.nbases), (d['psfbases'][0].shape, len(d['psfbases'])), 'c24.shape', 'shape and number of bases')
    for step in range(int(rng.integers(2, 6))):
        k = pick(rng, ['shifted', 'shift', 'copy', 'file', 'row', 'at', 'pickle'])
        m.op(k)
        dx, dy = [float(v) for v in (rng.integers(-40, 40, 2) if chance(rng, 0.7) else rng.uniform(-40, 40, 2))]
        if k == 'shifted':
            q = p.shifted(dx, dy)
            check_at(m, rng, p, d, 1)
            same_model(m, p, d, 'original')
            d = dict(d, x0=d['x0'] - dx, y0=d['y0'] - dy)
            m.event('shift')
            p = q
        elif k == 'shift':
            p.shift(dx, dy)
            d = dict(d, x0=d['x0'] - dx, y0=d['y0'] - dy)
            m.event('shift')
        elif k == 'copy':
            q = p.copy()
            p.shift(3., 4.)
            p = q
        elif k == 'file':
            p.writeto(fn)
            p = PsfExModel(fn=fn)
            os.remove(fn)
            d['radius'] = (d['psfbases'].shape[1] + 1) / 2.
            # header values have 14 or more digits
            same_model(m, p, d, 'file', rtol=1e-12)
            d.update(x0=p.x0, y0=p.y0, xscale=p.xscale, yscale=p.yscale)
            m.event('file')
        elif k == 'row':
            class Row(object):
                pass
            r = Row()
            r.psf_samp, r.poldeg1, r.polname1, r.polname2, r.polgrp1, r.polgrp2, r.polngrp = d['sampling'], d['degree'], 'X_IMAGE ', 'Y_IMAGE', 1, 1, 1
            r.polzero1, r.polzero2, r.polscal1, r.polscal2, r.psf_fwhm, r.psf_mask, r.psfaxis3 = d['x0'], d['y0'], d['xscale'], d['yscale'], d['fwhm'], d['psfbases'], len(d['psfbases'])
            p = PsfExModel(Ti=r)
            d['radius'] = (d['psfbases'].shape[1] + 1) / 2.
            m.event('merged row')
        elif k == 'pickle':
            p = pickle.loads(pickle.dumps(p))
        same_model(m, p, d, k)
        check_at(m, rng, p, d, 1)
    m.state('model', d['degree'], d['sampling'], tuple(m.trace[-3:]))


def sc_psf(m, rng):
    """The varying pixelized PSF renders as the constant PSF of its position."""
    norm = chance(rng, 0.4)
    samp = pick(rng, [1., 1., 1., 0.6])
    d = model(rng, deg=int(rng.integers(0, 3)), sampling=samp)
    # keep the models sane over the domain
    d.psfbases[1:] *= 0.3
    d.xscale, d.yscale = loguni(rng, 60., 200.), loguni(rng, 60., 200.)
    d0 = snap(d)
    cls = NormalizedPixelizedPsfEx if norm else PixelizedPsfEx
    P = cls(None, psfex=d)
    hyb = chance(rng, 0.3)
    if hyb:         # wrapped: pixelized for what it can, a mixture for the rest
        P = HybridPixelizedPSF(P, gauss=zoo.gm_psf(rng, K=1))
        m.event('hybrid')
    hist = []
    ox = oy = 0.
    seen, fts = [], {}
    for step in range(int(rng.integers(3, 8))):
        k = pick(rng, ['render', 'render', 'fft', 'fft', 'getShifted', 'shift', 'copy', 'image', 'galaxy'])
        if hyb and k in ('shift', 'copy'):
            k = 'getShifted'
        hist.append(k)
        m.op(k)
        x, y = float(rng.uniform(0, 60)), float(rng.uniform(0, 60))
        if seen and chance(rng, 0.5):       # a place seen before
            x, y = pick(rng, list(fts) if fts and k == 'fft' else seen)
        seen.append((x, y))
        im = want_at(d0, x + ox, y + oy)
        if np.abs(im).max() > 5 or im.sum() < 0.3:
            continue
        if norm:
            im = im / im.sum()
            m.event('normalized')
        C = (NormalizedPixelizedPsf if norm else PixelizedPSF)(im.astype(np.float32), sampling=samp)
        sc = np.abs(im).max() / samp ** 2
        if k == 'getShifted':
            dx, dy = [float(v) for v in rng.integers(-20, 20, 2)]
            Q = P.getShifted(dx, dy)
            m.close(P.getImage(x, y), im, 'c24.alias', 'shifted copies leave the original alone', rtol=0, atol=2e-5 * sc)
            P = Q
            ox, oy = ox + dx, oy + dy
            m.event('shift')
        elif k == 'shift':
            dx, dy = [float(v) for v in rng.integers(-20, 20, 2)]
            P.shift(dx, dy)
            ox, oy = ox + dx, oy + dy
            m.event('shift')
        elif k == 'copy':
            Q = P.copy()
            P.shift(5., 5.)
            P = Q
            m.equal(P.fwhm, d0['fwhm'], 'c24.fwhm', 'FWHM of a copy')
        elif k == 'image':
            m.close(P.getImage(x, y), im, 'c24.image', 'PSF image at a position', rtol=0, atol=2e-5 * sc)
            c = P.constantPsfAt(x, y)
            for xx, yy in ((0., 0.), (x, y)):
                m.close(c.getImage(xx, yy), im, 'c24.const', 'the PSF frozen at a position', rtol=0, atol=2e-5 * sc)
            m.equal((type(c.pix if hyb else c), c.pix.sampling if hyb else c.sampling), (type(C), samp), 'c24.const', 'kind of the frozen PSF')
        elif k == 'render':
            kw = {}
            if chance(rng, 0.3):
                kw['modelMask'] = ModelMask(int(x) - int(rng.integers(2, 8)), int(y) - int(rng.integers(2, 8)), int(rng.integers(5, 15)), int(rng.integers(5, 15)))
            elif chance(rng, 0.3):
                kw['radius'] = int(rng.integers(2, 6))
            a, b = P.getPointSourcePatch(x, y, **kw), C.getPointSourcePatch(x, y, **kw)
            m.check((a is None) == (b is None), 'c24.render', 'rendering at a position: nothing')
            if a is None:
                continue
            A, B = np.zeros((120, 120)), np.zeros((120, 120))
            a.x0, b.x0, a.y0, b.y0 = a.x0 + 30, b.x0 + 30, a.y0 + 30, b.y0 + 30
            a.addTo(A)
            b.addTo(B)
            m.close(A, B, 'c24.render', 'point source through the varying PSF', rtol=0, atol=3e-5 * sc)
            m.event('rendered')
        elif k == 'fft':
            R = float(rng.uniform(4, 30))
            if (x, y) in fts:       # the same transform as before
                R = fts[(x, y)]
                m.event('transform again')
            fts[(x, y)] = R
            fa, ca, sa, va = P.getFourierTransform(x, y, R)
            fb, cb, sb, vb = C.getFourierTransform(x, y, R)
            m.equal((tuple(sa), fa.shape), (tuple(sb), fb.shape), 'c24.fft', 'Fourier transform size')
            m.close(np.array(ca, float), np.array(cb, float), 'c24.fft', 'Fourier transform centre')
            m.check(np.abs(fa - fb).max() <= 2e-4, 'c24.fft', 'Fourier transform of the PSF at a position', worst=np.abs(fa - fb).max())
            for p, q in zip(va, vb):
                m.close(p, q, 'c24.fft', 'Fourier frequencies')
            m.event('fourier')
        elif k == 'galaxy':
            img = Image(data=np.zeros((60, 60), np.float32), inverr=np.ones((60, 60), np.float32), psf=P, wcs=NullWCS(), photocal=NullPhotoCal(), sky=NullSky())
            if not (5 < x < 55 and 5 < y < 55):
                continue
            s = ExpGalaxy(PixPos(x, y), Flux(100.), EllipseE(float(rng.uniform(1., 2.)), 0.2, 0.1))
            if chance(rng, 0.5):
                s = PointSource(PixPos(x, y), Flux(100.))
            A = np.array(Tractor([img], [s]).getModelImage(0), float)
            img.psf = HybridPixelizedPSF(C, gauss=P.gauss) if hyb else C
            B = np.array(Tractor([img], [s]).getModelImage(0), float)
            m.close(A, B, 'c24.galaxy', 'a source rendered through the varying PSF', rtol=0, atol=2e-4 * np.abs(B).max() + 1e-6)
            m.event('galaxy')
    m.state('psf', norm, samp, d0['degree'], tuple(hist))


class Vary(VaryingGaussianPSF):
    """Gaussian whose width varies over the image."""
    def setup(self, rng):
        self.s0 = float(rng.uniform(1.3, 2.))
        self.gx, self.gy = float(rng.uniform(-0.4, 0.4)), float(rng.uniform(-0.4, 0.4))
        return self

    def sig(self, x, y):
        return self.s0 + self.gx * x / self.W + self.gy * y / self.H

    def instantiateAt(self, x, y):
        yy, xx = np.mgrid[-9:10, -9:10]
        s = self.sig(x, y)
        return np.exp(-0.5 * (xx ** 2 + yy ** 2) / s ** 2) / (2 * np.pi * s ** 2)


def sc_grid(m, rng):
    W, H = int(rng.integers(60, 300)), int(rng.integers(60, 300))
    nx, ny = int(rng.integers(4, 7)), int(rng.integers(4, 7))
    v = Vary(W, H, nx=nx, ny=ny, K=1).setup(rng)
    v.savesplinedata = True
    for i in range(5):
        x, y = float(rng.uniform(0, W)), float(rng.uniform(0, H))
        g = v.psfAt(x, y)
        m.check(type(g) is GaussianMixturePSF, 'c24.gridtype', 'kind of PSF')
        m.close(g.mog.var[0], np.eye(2) * v.sig(x, y) ** 2, 'c24.grid', 'the fitted width follows the PSF over the image', rtol=0.01, atol=0.02)
        m.close(np.r_[g.mog.amp[0], g.mog.mean[0]], [1., 0., 0.], 'c24.grid', 'fitted amplitude and mean', rtol=0, atol=1e-3)
        mog = v.getMixtureOfGaussians(px=x, py=y)
        m.close(mog.var, g.mog.var, 'c24.grid', 'mixture at a position')
        a, b = v.getPointSourcePatch(x, y), g.getPointSourcePatch(x, y)
        m.equal(a.getExtent(), b.getExtent(), 'c24.grid', 'point source extent')
        m.close(a.patch, b.patch, 'c24.grid', 'point source patch')
    dx, dy = int(rng.integers(0, 20)), int(rng.integers(0, 20))
    s = v.getShifted(dx, dy)
    a, b = s.getPointSourcePatch(20.3, 21.7), v.getPointSourcePatch(20.3 + dx, 21.7 + dy)
    m.close(a.patch, b.patch, 'c24.gridshift', 'the shifted PSF is that of the shifted position', rtol=1e-4, atol=1e-6)
    m.event('grid fit')
    m.state('grid', nx, ny)
    return v


def sc_fitfile(m, rng):
    """Saved Gaussian fits of a PsfEx model; cached version."""
    W, H = 200, 240
    nx, ny, K = int(rng.integers(4, 6)), int(rng.integers(4, 6)), int(rng.integers(1, 3))
    fn = os.path.join(os.environ['VERIF_SCRATCH'], 'vg-%d.fits' % os.getpid())
    p = VaryingGaussianPsfEx(None, W, H, nx=nx, ny=ny, K=K)
    p.psfex = model(rng, deg=1, half=8, half2=8)
    p.psfex.psfbases[1:] *= 0.05
    p.psfex.psfbases[0] = sum(zoo.gauss_stamp(rng, half=8, half2=8) for i in range(2)) / 2.
    p.psfex.xscale = p.psfex.yscale = 500.
    p.savesplinedata = True
    p.ensureFit()
    merge = chance(rng, 0.5)
    p.toFits(fn, merge=merge)
    q = PsfEx.fromFits(fn)
    os.remove(fn)
    m.equal((q.W, q.H, q.nx, q.ny, q.K, q.psfclass), (W, H, nx, ny, K, GaussianMixturePSF), 'c24.fitfile', 'attributes read back')
    for i in range(4):
        x, y = float(rng.uniform(0, W)), float(rng.uniform(0, H))
        m.close(q.psfParamsAt(x, y), p.psfParamsAt(x, y), 'c24.fitfile', 'parameters of the fit read back', rtol=1e-9, atol=1e-9)
    m.event('fit file')
    # cached: a constant PSF per cell
    R = int(pick(rng, [10, 50, 100]))
    c = CachingPsfEx.fromPsfEx(p, rounding=R)
    if chance(rng, 0.3):
        c = pickle.loads(pickle.dumps(c))
    for i in range(12):
        x, y = float(rng.uniform(-R, W)), float(rng.uniform(-R, H))
        g = c.psfAt(x, y)
        cx, cy = np.floor(x / R) * R + R // 2, np.floor(y / R) * R + R // 2
        m.close(g.getAllParams(), p.psfAt(cx, cy).getAllParams(), 'c24.cell', 'the cached PSF is that of the cell of the position', rtol=1e-12, atol=1e-12, x=x, y=y, R=R)
        m.event('cell')
    m.check(len(c.cache) <= 100, 'c24.cell', 'bounded')
    m.state('fitfile', nx, ny, K, merge, R)


class Vary2(VaryingGaussianPSF):
    """Analytically varying Gaussian (no fit needed)."""
    def setup(self, rng):
        self.s0 = float(rng.uniform(1., 2.))
        self.gx, self.gy = float(rng.uniform(-0.4, 0.4)), float(rng.uniform(-0.4, 0.4))
        self.radius = int(rng.integers(6, 12))
        return self

    def hashkey(self):
        return ('Vary2', self.s0, self.gx, self.gy, self.radius)

    def psfParamsAt(self, x, y):
        s = self.s0 + self.gx * x / self.W + self.gy * y / self.H
        s = max(s, 0.7)     # (stays a PSF wherever it is evaluated)
        return np.array([1., 0., 0., s ** 2, s ** 2, 0.1 * s])


def same_patch(m, a, b, dx, dy, key, msg):
    if a is None or b is None:
        m.check(a is None and b is None, key, msg + ': one is None')
        return
    m.equal((a.x0 + dx, a.y0 + dy), (b.x0, b.y0), key, msg + ': where', dx=dx, dy=dy)
    m.check((a.patch is None) == (b.patch is None), key, msg + ': one is empty')
    if a.patch is not None:
        m.equal(a.patch.shape, b.patch.shape, key, msg + ': size')
        m.scaled_close(a.patch, b.patch, key, msg, 1e-6)


def sc_shifted(m, rng):
    """PSFs that are shifted by wrapping them."""
    W, H = int(rng.integers(40, 80)), int(rng.integers(40, 80))
    v = Vary2(W, H, K=1).setup(rng)
    v.psfclass = GaussianMixturePSF
    s, dx, dy = v, 0, 0
    n = int(rng.integers(1, 4))
    for i in range(n):
        ax, ay = int(rng.integers(-10, 25)), int(rng.integers(-10, 25))
        s = s.getShifted(ax, ay)
        dx += ax
        dy += ay
    if n > 1:
        m.event('shifted twice')
    m.equal((s.getRadius(), v.getRadius()), (v.radius, v.radius), 'c24.wrap', 'radius')
    for i in range(6):
        x, y = float(rng.uniform(-5, W)), float(rng.uniform(-5, H))
        kw, kv = {}, {}
        c = pick(rng, ['none', 'minval', 'clip', 'mask', 'box', 'radius', 'derivs', 'clipminval', 'derivsmask'])
        if 'minval' in c:
            kw['minval'] = kv['minval'] = loguni(rng, 1e-5, 1e-2)
        if 'clip' in c:
            a, b = sorted(rng.integers(-10, W + 10, 2).tolist())
            e, f = sorted(rng.integers(-10, H + 10, 2).tolist())
            kw['clipExtent'] = [a, b, e, f]
            kv['clipExtent'] = [a + dx, b + dx, e + dy, f + dy]
        if 'mask' in c or c == 'box':
            x0, y0 = int(x) - int(rng.integers(0, 8)), int(y) - int(rng.integers(0, 8))
            w, h = int(rng.integers(1, 15)), int(rng.integers(1, 15))
            if c == 'box':
                kw['modelMask'], kv['modelMask'] = ModelMask(x0, y0, w, h), ModelMask(x0 + dx, y0 + dy, w, h)
            else:
                q = rng.random((h, w)) < 0.7
                kw['modelMask'], kv['modelMask'] = ModelMask(x0, y0, q), ModelMask(x0 + dx, y0 + dy, q)
        if c == 'radius':
            kw['radius'] = kv['radius'] = int(rng.integers(2, 9))
        if 'derivs' in c:
            kw['derivs'] = kv['derivs'] = True
        a, b = s.getPointSourcePatch(x, y, **kw), v.getPointSourcePatch(x + dx, y + dy, **kv)
        m.equal(type(a), type(b), 'c24.wrap', 'kind of result (%s)' % c)
        if isinstance(a, tuple):
            for p, q in zip(a, b):
                same_patch(m, p, q, dx, dy, 'c24.wrap', 'shifted PSF (%s)' % c)
        else:
            same_patch(m, a, b, dx, dy, 'c24.wrap', 'shifted PSF (%s)' % c)
        g, h = s.getMixtureOfGaussians(px=x, py=y), v.getMixtureOfGaussians(px=x + dx, py=y + dy)
        m.close(g.var, h.var, 'c24.wrap', 'mixture of the shifted PSF')
        m.event('wrapped PSF')
    m.equal((s.numberOfParams(), list(s.getParams())), (v.numberOfParams(), list(v.getParams())), 'c24.wrap', 'parameters')
    # a wrapper has the parameters, limits and priors of what it wraps
    g = zoo.psf(rng, pick(rng, ['gme', 'nc', 'gm']))
    if chance(rng, 0.5):
        g = EllipseE(1., 0.2, 0.3)
        g.addGaussianPrior('re', 2., 0.5)
        g.getRadius = lambda: 5
    if chance(rng, 0.4):
        g.freezeParam(0)
    w = ShiftedPsf(g, 3, 4)
    for nm in ('getParams', 'numberOfParams', 'getParamNames', 'getStepSizes', 'getLowerBounds', 'getUpperBounds', 'getMaxStep', 'getLogPrior', 'getLogPriorDerivatives', 'getGaussianPriors'):
        if not hasattr(g, nm):
            continue
        a, b = getattr(w, nm)(), getattr(g, nm)()
        m.check(repr(a) == repr(b) or a is b or a == b, 'c24.wrapper', 'a wrapped calibration: %s' % nm, got=repr(a)[:200], want=repr(b)[:200])
    p = [float(x) for x in g.getParams()]
    p[-1] += 0.01
    w.setParams(p)
    m.close(list(g.getParams()), p, 'c24.wrapper', 'parameters set through a wrapper', rtol=1e-9)
    m.event('wrapper')
    # the model of a cutout is the cutout of the model
    img = Image(data=np.zeros((H, W), np.float32), inverr=np.ones((H, W), np.float32), psf=v, wcs=NullWCS(), sky=ConstantSky(0.), photocal=NullPhotoCal())
    if chance(rng, 0.5):
        img.modelMinval = 0.
    x0, y0 = int(rng.integers(0, W // 2)), int(rng.integers(0, H // 2))
    x1, y1 = int(rng.integers(x0 + 5, W + 1)), int(rng.integers(y0 + 5, H + 1))
    pos = PixPos(float(rng.uniform(x0, x1)), float(rng.uniform(y0, y1)))
    src = PointSource(pos, Flux(100.)) if chance(rng, 0.6) else ExpGalaxy(pos, Flux(100.), EllipseE(1.5, 0.2, 0.1))
    A = np.array(Tractor([img], [src]).getModelImage(0), float)
    sub = img.subimage(x0, x1, y0, y1)
    X0, Y0 = x0, y0
    if chance(rng, 0.4) and x1 - x0 > 8 and y1 - y0 > 8:
        sub = sub.subimage(2, x1 - x0, 3, y1 - y0)
        X0, Y0 = x0 + 2, y0 + 3
        m.event('cutout of a cutout')
    px = PixPos(pos.x - (X0), pos.y - (Y0))
    B = np.array(Tractor([sub], [src]).getModelImage(0), float)
    m.equal(B.shape, (y1 - Y0, x1 - X0), 'c24.cutout', 'size of the cutout')
    m.close(B, A[Y0:y1, X0:x1], 'c24.cutout', 'model of a cutout, %s' % type(src).__name__, rtol=1e-4, atol=2e-3)
    m.event('cutout model')
    m.state('shifted', n, type(src).__name__)


SCENARIOS = {
    'shifted': (sc_shifted, 120, 5000),
    'model': (sc_model, 500, 8000),
    'psf': (sc_psf, 500, 8000),
    'grid': (sc_grid, 60, 800),
    'fitfile': (sc_fitfile, 48, 600),
}
