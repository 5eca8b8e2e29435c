"""C25: cache keys tell different things apart; the cache is a bounded least-recently-used map."""
import numpy as np

import zoo
import ref
import scene as S
from zoo import pick, chance, loguni
from monitor import Skip
from tractor import (Image, Tractor, PixPos, Flux, Fluxes, Mags, NanoMaggies, NullPhotoCal, LinearPhotoCal, MagsPhotoCal, FluxesPhotoCal,
                     NullWCS, ConstantFitsWcs, TanWcs, WcslibWcs, ConstantSky, NullSky, PointSource, PixelizedPSF, RaDecPos)
from tractor.cache import Cache, NullCache, TractorCacheMixin
from tractor.galaxy import ExpGalaxy, DevGalaxy, GaussianGalaxy, GalaxyShape, FixedCompositeGalaxy, CompositeGalaxy, FracDev, SoftenedFracDev
from tractor.ellipses import EllipseE, EllipseESoft
from tractor.psf import HybridPixelizedPSF, NormalizedPixelizedPsf
from tractor.psfex import PixelizedPsfEx, PsfExModel, NormalizedPixelizedPsfEx
from tractor.sersic import SersicGalaxy, SersicIndex
from tractor.splinesky import SplineSky
from tractor.motion import MovingPointSource, PMRaDec
from tractor.tractortime import TAITime
from tractor.shifted import ScaledPhotoCal, ShiftedPsf, ShiftedWcs, ScaledWcs
from tractor.wcs import *

RULE = 'pairs of calibration objects or sources that differ in one respect; random histories of cache operations; cached tractors over recalibrated images; distinct by (class, difference)'
NEED = {'psf pair': 150, 'wcs pair': 100, 'photometry pair': 150, 'sky pair': 60, 'source pair': 100, 'behaviour differs': 300, 'same key': 60,
        'cache operation': 3000, 'eviction': 300, 'recalibrated': 150, 'cache hit': 100}


class CachedTractor(TractorCacheMixin, Tractor):
    pass


def keyof(m, o):
    k = o.hashkey()
    hash(k)
    m.equal(k, o.hashkey(), 'c25.stable', 'the key of an unchanged object is stable')
    return k


def differ(m, family, what, a, b, behave, tol=1e-9):
    """Objects that behave differently have different keys."""
    ka, kb = keyof(m, a), keyof(m, b)
    A, B = behave(a), behave(b)
    m.equal(keyof(m, a), ka, 'c25.stable', 'use does not change the key')
    same = len(A) == len(B) and all(x.shape == y.shape and np.all(np.abs(x - y) <= tol * (np.abs(x).max(initial=0.) + 1e-12)) for x, y in zip(A, B))
    m.event(family + ' pair')
    if not same:
        m.event('behaviour differs')
        m.check(ka != kb, 'c25.key', 'two objects that behave differently have the same cache key', family=family, what=what, k=str(ka)[:300])
    elif ka == kb:
        m.event('same key')
    m.state(family, what, type(a).__name__, type(b).__name__, same)


def stamp(rng, half=None, half2=None):
    return zoo.gauss_stamp(rng, half=half, half2=half2)


def psfex(rng, cls=PixelizedPsfEx, deg=1, bases=None, x0=0.):
    p = PsfExModel()
    p.sampling, p.degree, p.xscale, p.yscale, p.x0, p.y0, p.fwhm = 1., deg, 20., 30., x0, 10., 3.
    n = (deg + 1) * (deg + 2) // 2
    p.psfbases = bases if bases is not None else np.array([stamp(rng, 6, 6) * (1. if i == 0 else 0.2) for i in range(n)])
    p.radius = 7.
    return cls(None, psfex=p)


def sc_psf(m, rng):
    img = Image(data=np.zeros((24, 26), np.float32), inverr=np.ones((24, 26), np.float32), psf=None, wcs=NullWCS(), photocal=NullPhotoCal(), sky=NullSky())
    g = ExpGalaxy(PixPos(12.3, 11.8), Flux(10.), EllipseE(1.5, 0.2, 0.1))

    def behave(p):
        out = []
        for x, y in ((10., 11.), (12.4, 9.7)):
            a = np.zeros((24, 26))
            p.getPointSourcePatch(x, y, minval=0.).addTo(a)
            out.append(a)
        img.psf = p
        a = np.zeros((24, 26))
        mod = g.getModelPatch(img)
        if mod is not None:
            mod.addTo(a)
        out.append(a)
        # (a hybrid uses its mixture for galaxies off the image)
        if hasattr(p, 'getMixtureOfGaussians'):
            mog = p.getMixtureOfGaussians(px=3., py=4.)
            out.append(np.concatenate([mog.amp.ravel(), mog.var.ravel(), mog.mean.ravel()]))
        return out
    k = pick(rng, ['sampling', 'shape', 'norm', 'gauss', 'hybrid', 'pix', 'params', 'type', 'psfex', 'psfexbases', 'psfexshift', 'psfexnorm', 'lanczos', 'same', 'wrapped'])
    st = stamp(rng)
    if k == 'sampling':
        a, b = PixelizedPSF(st), PixelizedPSF(st, sampling=pick(rng, [0.5, 0.8, 1.3, 2.]))
    elif k == 'shape':
        st = stamp(rng, 6, 9)
        a, b = PixelizedPSF(st), PixelizedPSF(st.reshape(st.shape[::-1]))
    elif k == 'norm':
        a, b = PixelizedPSF(st * np.float32(2.)), NormalizedPixelizedPsf(st * np.float32(2.))
    elif k == 'gauss':
        a, b = HybridPixelizedPSF(PixelizedPSF(st), gauss=zoo.gm_psf(rng, K=1)), HybridPixelizedPSF(PixelizedPSF(st), gauss=zoo.gm_psf(rng, K=1))
    elif k == 'hybrid':
        a, b = PixelizedPSF(st), HybridPixelizedPSF(PixelizedPSF(st), gauss=zoo.gm_psf(rng, K=1))
    elif k == 'pix':
        a, b = PixelizedPSF(st), PixelizedPSF(stamp(rng))
        c = st.copy()
        if chance(rng, 0.7):
            c[pick(rng, [0, st.shape[0] // 2, -1]), pick(rng, [0, st.shape[1] // 2, -1])] += 0.1
            b = PixelizedPSF(c)
    elif k == 'params':
        a = zoo.psf(rng, pick(rng, ['gm', 'nc', 'gme']))
        b = a.copy()
        p = b.getParams()
        i = int(rng.integers(len(p)))
        p[i] += pick(rng, [0.05, loguni(rng, 1e-5, 1e-2)])
        b.setParams(p)
        if chance(rng, 0.6):        # frozen parameters count as well
            for q in (a, b):
                st = np.random.RandomState(i)
                for o in [q] + list(getattr(q, 'subs', [])):
                    for j in range(len(o.liquid)):
                        if st.rand() < 0.6:
                            o.freezeParam(j)
            m.event('frozen')
    elif k == 'type':
        ell = EllipseE(1.5, 0., 0.)
        from tractor import NCircularGaussianPSF, GaussianMixturePSF
        a = NCircularGaussianPSF([1.5, 2.5], [0.6, 0.4])
        b = NCircularGaussianPSF([1.5, 2.5], [0.4, 0.6])
        if chance(rng, 0.5):
            b = NCircularGaussianPSF([2.5, 1.5], [0.6, 0.4])
    elif k == 'psfex':
        a, b = psfex(rng), psfex(rng, deg=2)
    elif k == 'psfexbases':
        a = psfex(rng)
        bb = a.psfex.psfbases.copy()
        bb[-1] += np.float32(0.01)
        b = psfex(rng, bases=bb)
    elif k == 'psfexshift':
        a = psfex(rng)
        b = a.getShifted(float(rng.integers(3, 30)), 0.)
        if chance(rng, 0.5):
            b = a.copy()
            b.shift(0., 7.)
    elif k == 'psfexnorm':
        a = psfex(rng)
        b = psfex(rng, cls=NormalizedPixelizedPsfEx, bases=a.psfex.psfbases)
    elif k == 'lanczos':
        a, b = PixelizedPSF(st, Lorder=3), PixelizedPSF(st, Lorder=5)
    elif k == 'wrapped':
        q = psfex(rng)
        a, b = ShiftedPsf(q, 0, 0), ShiftedPsf(q, 5, 9)
        beh0 = behave

        def behave(p):
            x = np.zeros((24, 26))
            p.getPointSourcePatch(10., 11., minval=0.).addTo(x)
            return [x]
    else:
        a = zoo.psf(rng)
        b = a.copy()
    m.op(k)
    differ(m, 'psf', k, a, b, behave)


def wcslib(t):
    from astrometry.util.util import anwcs_from_string
    cd = list(t.cd)
    cards = [('SIMPLE', 'T'), ('BITPIX', '8'), ('NAXIS', '2'), ('NAXIS1', str(int(t.imagew))), ('NAXIS2', str(int(t.imageh))),
             ('CTYPE1', "'RA---TAN'"), ('CTYPE2', "'DEC--TAN'"),
             ('CRVAL1', repr(float(t.crval[0]))), ('CRVAL2', repr(float(t.crval[1]))), ('CRPIX1', repr(float(t.crpix[0]))), ('CRPIX2', repr(float(t.crpix[1]))),
             ('CD1_1', repr(float(cd[0]))), ('CD1_2', repr(float(cd[1]))), ('CD2_1', repr(float(cd[2]))), ('CD2_2', repr(float(cd[3])))]
    s = ''.join(('%-8s= %20s' % kv).ljust(80) for kv in cards)
    return WcslibWcs(None, wcs=anwcs_from_string(s + 'END'.ljust(80)))


def offsets(rng):
    d = [int(x) for x in rng.integers(0, 5, 2)]
    r = rng.random()
    if r < 0.15:        # offsets whose sum or difference is zero are offsets nevertheless
        d[1] = d[0]
    elif r < 0.3:
        d[1] = -d[0]
    elif r < 0.4:
        d = [x + 0.25 for x in d]
    return d


def sc_wcs(m, rng):
    from astrometry.util.util import Tan
    t = zoo.tan_wcs(rng, 40, 40)

    def behave(w):
        out = []
        if isinstance(w, NullWCS) or getattr(w, 'kind_', '') == 'null':
            pos = [PixPos(3., 4.), PixPos(20., -7.)]
        else:
            r, d = t.pixelxy2radec(5., 7.)[-2:]
            r2, d2 = t.pixelxy2radec(35., 20.)[-2:]
            pos = [RaDecPos(r, d), RaDecPos(r2, d2)]
        for p in pos:
            out.append(np.array(w.positionToPixel(p)))
        out.append(np.array(w.cdAtPixel(4., 5.)))
        return out
    k = pick(rng, ['null', 'shift', 'tanparam', 'wcslib', 'wcslibshift', 'other', 'tanshift', 'edit', 'wrapshift', 'wrapscale'])
    if k == 'null':
        v = [1., 0., 0.]
        w = list(v)
        i = int(rng.integers(3))
        w[i] = pick(rng, [0.5, 2., 3.])
        a, b = NullWCS(*v), NullWCS(*w)
    elif k == 'shift':
        a = ConstantFitsWcs(t)
        b = a.shifted(*offsets(rng))
    elif k == 'tanshift':
        a = TanWcs(Tan(t))
        b = a.shifted(*offsets(rng))
    elif k in ('tanparam', 'edit'):
        a = TanWcs(Tan(t))
        b = a.copy()
        p = b.getParams()
        i = int(rng.integers(8))
        p[i] += 1e-3 if i < 4 else 1e-7
        if k == 'edit':
            # the same object before and after
            ka, A = keyof(m, a), behave(a)
            a.setParams(p)
            kb, B = keyof(m, a), behave(a)
            if any(np.any(x != y) for x, y in zip(A, B)):
                m.event('behaviour differs')
                m.check(ka != kb, 'c25.key', 'changing a parameter of a WCS changes its key', param=i)
            a.setParams(b.getParams())
            m.equal(keyof(m, a), ka, 'c25.key', 'restoring the parameters restores the key')
            m.event('wcs pair')
            m.state('edit', i)
            return
        b.setParams(p)
        b.wcs_ = None
        # keys include the identity of the wrapped object: compare on one wrapped object
    elif k == 'wcslib':
        a, b = wcslib(t), wcslib(zoo.tan_wcs(rng, 40, 40))
    elif k == 'wcslibshift':
        a = wcslib(t)
        b = a.shifted(*offsets(rng))
    elif k == 'wrapshift':
        w = ConstantFitsWcs(t)
        o = offsets(rng)
        a, b = ShiftedWcs(w, 0, 0), ShiftedWcs(w, *o)
        if chance(rng, 0.5):
            a = ShiftedWcs(w, o[1], o[0])
    elif k == 'wrapscale':
        w = ConstantFitsWcs(t)
        a, b = ScaledWcs(w, 2.), ScaledWcs(w, pick(rng, [0.5, 2.001, 3.]))
    else:
        a, b = ConstantFitsWcs(t), ConstantFitsWcs(zoo.tan_wcs(rng, 40, 40))
    m.op(k)
    differ(m, 'wcs', k, a, b, behave)


def sc_photo(m, rng):
    bands = zoo.sub_bands(rng, 2, 4)
    vals = dict((b, loguni(rng, 1., 100.)) for b in bands)
    b1, b2 = bands[:2]
    k = pick(rng, ['linband', 'fluxband', 'magband', 'scale', 'zp', 'scaled', 'maxmag', 'bright', 'order', 'class', 'value'])

    def cal_behave(c):
        out = []
        for br in (NanoMaggies(**vals), Mags(**vals)):
            if isinstance(br, Mags) != isinstance(c, MagsPhotoCal):
                continue
            out.append(np.array([c.brightnessToCounts(br)]))
        return out

    def br_behave(br):
        out = []
        for bd in bands:
            try:
                c = MagsPhotoCal(bd, 25.) if isinstance(br, Mags) else FluxesPhotoCal(bd)
                out.append(np.array([c.brightnessToCounts(br)]))
            except Exception:
                out.append(np.array([np.nan]))
                out[-1] = np.array([-12345.])
        return out
    beh = cal_behave
    s = loguni(rng, 0.1, 10.)
    cls = pick(rng, [Mags, Fluxes, NanoMaggies])
    if k == 'linband':
        a, b = LinearPhotoCal(s, band=b1), LinearPhotoCal(s, band=b2)
    elif k == 'fluxband':
        a, b = FluxesPhotoCal(b1), FluxesPhotoCal(b2)
    elif k == 'magband':
        a, b = MagsPhotoCal(b1, 25.), MagsPhotoCal(b2, 25.)
    elif k == 'scale':
        a, b = LinearPhotoCal(s, band=b1), LinearPhotoCal(s * (1 + loguni(rng, 1e-7, 1e-2)), band=b1)
    elif k == 'zp':
        a, b = MagsPhotoCal(b1, 25.), MagsPhotoCal(b1, 25. + loguni(rng, 1e-6, 0.1))
    elif k == 'maxmag':
        a, b = MagsPhotoCal(b1, 25.), MagsPhotoCal(b1, 25.)
        b.maxmag = 0.5
    elif k == 'scaled':
        c = LinearPhotoCal(s, band=b1)
        a, b = ScaledPhotoCal(c, 2.), ScaledPhotoCal(c, 3.)
    elif k == 'bright':
        v = loguni(rng, 1., 20.)
        a, b = cls(**{b1: v}), cls(**{b2: v})
        beh = br_behave
    elif k == 'order':
        a = cls(order=[b1, b2], **{b1: 3., b2: 4.})
        b = cls(order=[b2, b1], **{b1: 4., b2: 3.})
        beh = br_behave
    elif k == 'class':
        a, b = Fluxes(**vals), Mags(**vals)
        beh = br_behave
    else:
        a = cls(**vals)
        b = a.copy()
        b.setBand(b2, vals[b2] * 1.001)
        beh = br_behave
    m.op(k)
    differ(m, 'photometry', k, a, b, beh)


def sc_sky(m, rng):
    def behave(s):
        a = np.zeros((12, 15))
        s.addTo(a)
        return [a]
    X, Y = np.linspace(0, 20, 5), np.linspace(0, 16, 6)
    g = rng.normal(size=(6, 5))
    k = pick(rng, ['const', 'shift', 'grid', 'value', 'null', 'offset', 'order'])
    if k == 'const':
        v = float(rng.normal())
        a, b = ConstantSky(v), ConstantSky(v + pick(rng, [1e-6, 1., -1.]))
        if chance(rng, 0.3):
            a, b = ConstantSky(-1.), ConstantSky(-2.)
    elif k == 'shift':
        a = SplineSky(X, Y, g)
        b = SplineSky(X, Y, g)
        b.shift(*offsets(rng))
    elif k == 'grid':
        a, b = SplineSky(X, Y, g), SplineSky(X * 1.1, Y, g)
        if chance(rng, 0.5):
            b = SplineSky(X, Y * 0.9, g)
    elif k == 'order':
        a, b = SplineSky(X, Y, g, order=3), SplineSky(X, Y, g, order=1)
    elif k == 'value':
        a = SplineSky(X, Y, g)
        b = a.copy()
        p = b.getParams()
        p[int(rng.integers(len(p)))] += 0.1
        b.setParams(p)
    elif k == 'null':
        a, b = NullSky(), ConstantSky(1.)
    else:
        a = SplineSky(X, Y, g)
        b = a.copy()
        b.offset(0.3) if chance(rng, 0.5) else b.scale(1.2)
    m.op(k)
    differ(m, 'sky', k, a, b, behave)


def sc_source(m, rng):
    W = H = 24
    astro = zoo.Astro(rng, W, H)
    photo = zoo.Photo(rng)
    im = zoo.image(rng, W=W, H=H, astro=astro, photo=photo, psf_=zoo.psf(rng, pick(rng, ['gm', 'hybrid', 'nc'])))

    def behave(s):
        a = np.zeros((H, W))
        q = s.getModelPatch(im, minsb=0.)
        if q is not None:
            q.addTo(a)
        return [a]
    s = zoo.source(rng, astro, photo, lo=1., hi=3., kind=pick(rng, zoo.SRC + ['sersic']))
    k = pick(rng, ['param', 'type', 'shape', 'copy', 'moving'])
    if k == 'param':
        b = s.copy()
        p = b.getAllParams()
        st = b.getAllStepSizes()
        i = int(rng.integers(len(p)))
        p[i] += st[i] * pick(rng, [1., loguni(rng, 1e-3, 1.)])
        b.setAllParams(p)
        if chance(rng, 0.5):        # frozen parameters count as well
            for q in (s, b):
                for j in range(len(q.liquid)):
                    if (i + j) % 2:
                        q.freezeParam(j)
                    else:
                        sub = q._getThings()[j] if hasattr(q, '_getThings') else q.subs[j]
                        if hasattr(sub, 'freezeAllParams') and (i // 2) % 2:
                            sub.freezeAllParams()
            m.event('frozen')
    elif k == 'type':
        if s.zoo_kind not in ('exp', 'dev', 'gauss'):
            raise Skip
        b = pick(rng, [ExpGalaxy, DevGalaxy, GaussianGalaxy, SersicGalaxy])
        b = b(s.pos, s.brightness, s.shape) if b is not SersicGalaxy else SersicGalaxy(s.pos, s.brightness, s.shape, SersicIndex(2.))
    elif k == 'moving':
        if astro.kind != 'tan':
            raise Skip
        ps = astro.pixscale / 3600.
        pos = astro.pos(12., 11.)
        s = MovingPointSource(pos, photo.brightness(rng), PMRaDec(*[float(v) for v in rng.normal(size=2) * ps]), 0.1, epoch=TAITime(None, mjd=57000.))
        s.zoo_kind = 'moving'
        im.time = TAITime(None, mjd=57500.)
        b = s.copy()
        w = pick(rng, ['epoch', 'pm', 'parallax'])
        if w == 'epoch':
            b.epoch = TAITime(None, mjd=57000. + loguni(rng, 1., 1000.))
        elif w == 'pm':
            b.pm.setParams([v + ps * loguni(rng, 1e-3, 1.) for v in b.pm.getParams()])
        else:
            b.parallax.setValue(0.1 + loguni(rng, 1e-3, 1.))
        m.event('moving')
    elif k == 'shape':
        if s.zoo_kind not in ('exp', 'dev', 'gauss'):
            raise Skip
        b = s.copy()
        a1, a2, a3 = pick(rng, [(1., 0.5, 0.3), (0.5, 0.2, 0.1)])
        s.shape = EllipseE(a1, a2, a3)
        b.shape = pick(rng, [EllipseESoft, GalaxyShape])(a1, a2, a3)
    else:
        b = s.copy()
        m.equal(keyof(m, b), keyof(m, s), 'c25.copy', 'a copy of a source has the same key')
        m.event('same key')
    m.op(k, s.zoo_kind)
    differ(m, 'source', k + s.zoo_kind, s, b, behave)


def sc_lru(m, rng):
    size = int(pick(rng, [1, 2, 3, 5, 8]))
    c = Cache(maxsize=size)
    ref_, order, nput, hits, miss = {}, [], {}, 0, 0     # order: sequence of distinct keys by recency of retrieval or insertion

    def touch(k):
        if k in order:
            order.remove(k)
        order.append(k)
    keys = [('k', i) for i in range(size * 2 + 2)] + [-1., -2., (-1., 'a'), (-2., 'a')]
    for step in range(60):
        k = pick(rng, keys)
        op = pick(rng, ['put', 'set', 'get', 'item', 'default', 'len', 'clear' if chance(rng, 0.03) else 'get', 'size'])
        m.event('cache operation')
        m.op(op, str(k))
        if op in ('put', 'set'):
            v = pick(rng, [None, step, np.zeros((2, int(rng.integers(1, 5)))), 'x%d' % step])
            was = set(x for x in order if x in ref_)
            if op == 'put':
                c.put(k, v)
            else:
                c[k] = v
            if k not in ref_:
                if len(ref_) >= size:
                    # one entry has to go, and it is one not used more recently than the others
                    m.event('eviction')
                    victim = order[0]
                    del ref_[victim]
                    order.remove(victim)
                touch(k)
            ref_[k] = v
            m.check(len(c) <= size, 'c25.bounded', 'the cache is bounded', size=len(c), limit=size)
        elif op in ('get', 'item', 'default'):
            try:
                if op == 'get':
                    v = c.get(k)
                elif op == 'item':
                    v = c[k]
                else:
                    v = c.get(k, 'default')
                got = True
            except KeyError:
                got = False
            if k in ref_:
                hits += 1
                m.check(got and v is ref_[k], 'c25.value', 'the cache returns the value last stored under a recently used key', k=str(k))
                touch(k)
            else:
                miss += 1
                m.check((not got) if op != 'default' else v == 'default', 'c25.absent', 'a key that is not there is not found', k=str(k))
        elif op == 'clear':
            c.clear()
            ref_, order, hits, miss = {}, [], 0, 0
        m.equal(len(c), len(ref_), 'c25.len', 'number of entries')
        m.equal((c.hits, c.misses), (hits, miss), 'c25.stats', 'hit and miss counts')
        m.equal(c.totalSize(), sum(v.size for v in ref_.values() if isinstance(v, np.ndarray)), 'c25.size', 'total size of the entries')
    str(c)
    n = NullCache()
    n.put(1, 2)
    n[3] = 4
    m.equal((n.get(1, 'd'), len(n), n.totalSize()), ('d', 0, 0), 'c25.null', 'the null cache holds nothing')
    m.state('lru', size, hits, miss)


def sc_recal(m, rng):
    """A tractor with a model cache follows changes of the calibration."""
    tr0, ims, srcs = S.scene(rng, nim=1, nsrc=int(rng.integers(1, 3)), size=(14, 24), margin=-2, rmax=2., psf_kinds=['gm', 'nc', 'gme', 'hybrid'], photo_kind='nmgy')
    img, photo = ims[0].img, ims[0].photo
    if ims[0].astro.kind == 'tan':
        from astrometry.util.util import Tan
        img.wcs = TanWcs(Tan(ims[0].astro.tan))
    tr = CachedTractor([img], srcs, cache=Cache(maxsize=pick(rng, [1000, 3])))
    tr.modtype = np.float64
    pool = [img.psf, zoo.psf(rng, 'hybrid'), zoo.psf(rng, 'gm')]
    # a PSF like another but for the sampling
    if img.psf.zoo_kind == 'hybrid':
        pool.append(HybridPixelizedPSF(PixelizedPSF(img.psf.pix.img, sampling=0.7), gauss=img.psf.gauss))
        pool.append(HybridPixelizedPSF(NormalizedPixelizedPsf(img.psf.pix.img * 2), gauss=img.psf.gauss))
    for step in range(8):
        k = pick(rng, ['psf', 'band', 'scale', 'wcs', 'psfparam', 'same', 'bright'])
        if k == 'psf':
            img.psf = pick(rng, pool)
        elif k == 'band':
            img.photocal = LinearPhotoCal(img.photocal.getScale(), band=pick(rng, photo.bands))
        elif k == 'scale':
            img.photocal.setParams([loguni(rng, 0.1, 10.)])
        elif k == 'wcs':
            if isinstance(img.wcs, TanWcs):
                p = img.wcs.getParams()
                i = int(rng.integers(4))
                p[i] += float(rng.normal()) * (img.wcs.pixscale / 3600. if i < 2 else 1.)
                img.wcs.setParams(p)
            else:
                img.wcs = NullWCS(pixscale=img.wcs.pixscale, dx=img.wcs.dx + float(rng.integers(-1, 2)), dy=img.wcs.dy)
        elif k == 'psfparam':
            if img.psf.numberOfParams() == 0:
                continue
            p = img.psf.getParams()
            i = int(rng.integers(len(p)))
            p[i] *= 1.02
            img.psf.setParams(p)
        elif k == 'bright':
            s = pick(rng, srcs)
            if len(photo.bands) > 1 and hasattr(s, 'brightness'):
                # the same numbers in another order
                v = s.brightness.getAllParams()
                s.brightness = type(s.brightness)(order=list(photo.bands), **dict(zip(photo.bands, v[1:] + v[:1])))
        m.op(k)
        try:
            want = np.array(Tractor([img], srcs).getModelImage(0), float)
        except (RuntimeError, AssertionError):
            raise Skip
        h = tr.cache.hits
        got = np.array(tr.getModelImage(0), float)
        m.event('cache hit', tr.cache.hits - h)
        m.event('recalibrated')
        m.close(got, want, 'c25.stale', 'the model through the cache follows a change of "%s"' % k, rtol=0, atol=2e-6 * (np.abs(want).max() + 1e-9))
        m.state('recal', k, type(img.psf).__name__, type(img.wcs).__name__)


SCENARIOS = {
    'psf': (sc_psf, 500, 6000),
    'wcs': (sc_wcs, 400, 5000),
    'photo': (sc_photo, 500, 5000),
    'sky': (sc_sky, 250, 3000),
    'source': (sc_source, 400, 4000),
    'lru': (sc_lru, 150, 3000),
    'recal': (sc_recal, 150, 3000),
}
QUICK = 5
