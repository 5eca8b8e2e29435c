"""C28: images and calibrations written to FITS headers and files are read back unchanged."""
import contextlib
import io
import os

import numpy as np
import fitsio

import zoo
from zoo import pick, chance, loguni
from tractor import (Image, NullWCS, NullPhotoCal, ConstantSky, GaussianMixturePSF, LinearPhotoCal, PointSource, PixPos,
                     Flux, Tractor, ConstantFitsWcs, NanoMaggies)
from tractor.wcs import RaDecPos
from tractor.sky import NullSky
from tractor.galaxy import ExpGalaxy
from tractor.ellipses import EllipseE
from astrometry.util.util import Tan

RULE = 'random images with the calibrations that have a header form (identity WCS with offsets and pixel scale, identity photometry, null or constant sky, Gaussian-mixture PSF), any of their parameters frozen, with and without key prefixes and extra headers; TAN standard headers with offsets; distinct by (kinds, components, frozen, prefix)'
NEED = {'image file': 100, 'header': 300, 'frozen': 80, 'prefix': 80, 'same model': 100, 'standard header': 100, 'shifted standard header': 40, 'refused': 30}
QUICK = 5


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def make(rng):
    K = int(rng.integers(1, 5))
    # "diag": header values are printed to 15 significant digits
    w = rng.uniform(0.2, 1., K)
    psf = GaussianMixturePSF(w / w.sum(), rng.normal(0, 0.5, (K, 2)), np.array([zoo.rand_cov(rng, 0.9, 2.5) for k in range(K)]))
    wcs = NullWCS(pixscale=loguni(rng, 0.1, 3.), dx=float(rng.normal(0, 5)), dy=float(rng.normal(0, 5))) if chance(rng, 0.8) else NullWCS()
    sky = ConstantSky(float(rng.normal(0, 1)) * loguni(rng, 1e-6, 1e4)) if chance(rng, 0.8) else NullSky()
    W, H = int(rng.integers(3, 30)), int(rng.integers(3, 30))
    data = rng.normal(0, 10, (H, W)).astype(pick(rng, [np.float32, np.float64]))
    iv = rng.uniform(0.1, 2., (H, W)).astype(data.dtype)
    iv[rng.random((H, W)) < 0.2] = 0
    im = Image(data=data, invvar=iv, psf=psf, wcs=wcs, sky=sky, photocal=NullPhotoCal())
    return im, K


def freeze(rng, ob):
    if not hasattr(ob, 'freezeParam'):
        return 0
    n = 0
    for nm in list(ob.getParamNames()):
        if chance(rng, 0.4):
            ob.freezeParam(nm)
            n += 1
    return n


def same(m, a, b, what, tol=1e-12):
    m.check(type(a) is type(b), 'c28.class', '%s: %s became %s' % (what, type(a).__name__, type(b).__name__))
    x, y = np.array(a.getAllParams(), float), np.array(b.getAllParams(), float)
    m.equal(len(y), len(x), 'c28.nparams', '%s: number of parameters' % what)
    m.close(y, x, 'c28.params', '%s: parameters' % what, rtol=tol, atol=1e-300)
    if type(a) is NullWCS:
        m.close([b.dx, b.dy, b.pixscale], [a.dx, a.dy, a.pixscale], 'c28.wcs', 'offsets and pixel scale', rtol=tol, atol=1e-300)
        m.close(b.cdAtPixel(0, 0), a.cdAtPixel(0, 0), 'c28.cd', 'CD matrix', rtol=tol, atol=1e-300)


def sc_image(m, rng):
    im, K = make(rng)
    fz = 0
    if chance(rng, 0.5):
        fz = freeze(rng, im.psf) + (freeze(rng, im.sky) if type(im.sky) is ConstantSky else 0)
    prefix = pick(rng, ['', '', 'Q', 'B_'])
    fn = os.path.join(os.environ['VERIF_SCRATCH'], 'im-%d.fits' % os.getpid())
    if os.path.exists(fn):
        os.remove(fn)
    kw = {}
    if chance(rng, 0.4):
        h = fitsio.FITSHDR()
        h.add_record(dict(name='OBSERVER', value='nobody'))
        kw['primheader'] = h
    if chance(rng, 0.4):
        h = fitsio.FITSHDR()
        h.add_record(dict(name='GAIN', value=2.5))
        kw['imageheader'] = h
    if chance(rng, 0.4):
        h = fitsio.FITSHDR()
        h.add_record(dict(name='WHAT', value='invvar'))
        kw['invvarheader'] = h
    frozen_before = [list(o.getFrozenParams()) if hasattr(o, 'getFrozenParams') else None for o in (im.psf, im.sky)]
    with quiet():
        f = fitsio.FITS(fn, 'rw')
        im.toFits(f, prefix=prefix, **kw)
        f.close()
        f = fitsio.FITS(fn)
        b = Image.readFromFits(f, prefix=prefix)
        hd = [f[i].read_header() for i in range(3)]
        f.close()
    os.remove(fn)
    m.event('image file')
    if fz:
        m.event('frozen')
    if prefix:
        m.event('prefix')
    if 'primheader' in kw:
        m.equal(hd[0].get('OBSERVER'), 'nobody', 'c28.extra', 'extra primary header card')
    if 'imageheader' in kw:
        m.equal(hd[1].get('GAIN'), 2.5, 'c28.extra', 'extra image header card')
    if 'invvarheader' in kw:
        m.equal(hd[2].get('WHAT'), 'invvar', 'c28.extra', 'extra inverse-variance header card')
    m.check(np.array_equal(b.getImage(), im.getImage()), 'c28.pixels', 'pixels changed')
    m.close(b.getInvvar(), im.getInvvar(), 'c28.invvar', 'inverse variances', rtol=1e-6, atol=0)
    m.check(np.array_equal(b.getInvvar() == 0, im.getInvvar() == 0), 'c28.mask', 'masked pixels changed')
    for nm in ('psf', 'wcs', 'sky', 'photocal'):
        same(m, getattr(im, nm), getattr(b, nm), nm)
    m.equal([list(o.getFrozenParams()) if hasattr(o, 'getFrozenParams') else None for o in (im.psf, im.sky)], frozen_before, 'c28.frozen', 'what was frozen')
    # the two images predict the same pixels
    H, W = im.shape
    x, y = im.wcs.pixelToPosition(W / 2., H / 2.).getAllParams()
    srcs = [PointSource(PixPos(x, y), Flux(100.)), ExpGalaxy(PixPos(x + 1, y - 1), Flux(50.), EllipseE(float(rng.uniform(1, 3)) * im.wcs.pixscale, 0.2, -0.1))]
    A, B = Tractor([im], srcs).getModelImage(0), Tractor([b], srcs).getModelImage(0)
    m.close(B, A, 'c28.model', 'model image through the calibrations read back', rtol=0, atol=1e-6 * np.abs(A).max())
    la, lb = Tractor([im], srcs).getLogLikelihood(), Tractor([b], srcs).getLogLikelihood()
    m.close(lb, la, 'c28.like', 'log-likelihood', rtol=1e-4, atol=1e-6)
    m.event('same model')
    m.state(K, type(im.sky).__name__, fz, prefix, im.data.dtype.str, tuple(sorted(kw)))


def sc_header(m, rng):
    im, K = make(rng)
    for nm in ('psf', 'wcs', 'sky', 'photocal'):
        o = getattr(im, nm)
        n = freeze(rng, o) if chance(rng, 0.5) and o.numberOfParams() else 0
        pre = pick(rng, ['', 'X_', 'CCD_'])
        h = fitsio.FITSHDR()
        h.add_record(dict(name='OTHER', value=1))
        if pre:
            # keys of another object, which do not belong to this one
            for k in range(8):
                h.add_record(dict(name='P%i' % k, value=777.))
        with quiet():
            o.toFitsHeader(h, prefix=pre)
            b = type(o).fromFitsHeader(h, prefix=pre)
        same(m, o, b, '%s header' % nm, tol=1e-15)
        m.event('header')
        if n:
            m.event('frozen')
        if pre:
            m.event('prefix')
        m.state('hdr', nm, K, n, pre)
    # a PSF cannot be made of anything but whole Gaussians
    h = fitsio.FITSHDR()
    n = int(rng.integers(0, 30))
    for i in range(n):
        h.add_record(dict(name='P%i' % i, value=float(i)))
    with quiet():
        try:
            p = GaussianMixturePSF.fromFitsHeader(h)
            ok = True
        except RuntimeError:
            ok = False
    m.equal(ok, n > 0 and n % 6 == 0, 'c28.refuse', 'a header with %d PSF parameters is accepted' % n)
    m.event('refused')


def sc_standard(m, rng):
    """Standard headers: TAN WCS cards (of the subimage), MAGZP, SKY."""
    W, H = int(rng.integers(20, 60)), int(rng.integers(20, 60))
    ps = loguni(rng, 0.1, 2.) / 3600.
    th = rng.uniform(0, 2 * np.pi)
    s = pick(rng, [1, -1])
    tan = Tan(float(rng.uniform(0, 360)), float(rng.uniform(-70, 70)), float(rng.uniform(-10, W)), float(rng.uniform(-10, H)),
              -np.cos(th) * ps * s, np.sin(th) * ps, np.sin(th) * ps * s, np.cos(th) * ps, float(W), float(H))
    x0, y0 = (int(rng.integers(0, 10)), int(rng.integers(0, 10))) if chance(rng, 0.6) else (0, 0)
    wcs = ConstantFitsWcs(tan)
    wcs.setX0Y0(x0, y0)
    scale = loguni(rng, 1e-3, 1e3)
    skyv = float(rng.normal(0, 5))
    im = Image(data=np.zeros((H - y0, W - x0)), invvar=np.ones((H - y0, W - x0)), psf=zoo.gm_psf(rng), wcs=wcs, sky=ConstantSky(skyv), photocal=LinearPhotoCal(scale))
    h = im.getStandardFitsHeader()
    m.close(h['SKY'], skyv, 'c28.stdsky', 'SKY card', rtol=1e-12, atol=0)
    # a source of that magnitude gives one count
    m.close(NanoMaggies.magToNanomaggies(h['MAGZP']) * scale, 1., 'c28.magzp', 'MAGZP card: counts of a source of that magnitude', rtol=1e-9, atol=0)
    g = lambda k: float(h[k])
    t2 = Tan(g('CRVAL1'), g('CRVAL2'), g('CRPIX1'), g('CRPIX2'), g('CD1_1'), g('CD1_2'), g('CD2_1'), g('CD2_2'), g('IMAGEW'), g('IMAGEH'))
    m.close([g('IMAGEW'), g('IMAGEH')], [W - x0, H - y0], 'c28.stdsize', 'image size cards', rtol=0, atol=0)
    for i in range(4):
        px, py = float(rng.uniform(0, W - x0)), float(rng.uniform(0, H - y0))
        ra, dec = t2.pixelxy2radec(px + 1, py + 1)[-2:]
        x, y = wcs.positionToPixel(RaDecPos(ra, dec))
        m.close([x, y], [px, py], 'c28.stdwcs', 'pixel of a position by the WCS cards', rtol=0, atol=1e-5)
    m.event('standard header')
    if x0 or y0:
        m.event('shifted standard header')
    m.state('std', x0, y0)


SCENARIOS = {'image': (sc_image, 100, 4000), 'header': (sc_header, 80, 4000), 'standard': (sc_standard, 80, 3000)}
