"""C02: copies, deep copies and pickles are faithful and independent."""
import copy
import pickle
import numpy as np
import zoo
from zoo import pick, chance
from tractor import (Tractor, PixPos, RaDecPos, Flux, Mag, Fluxes, NanoMaggies, Mags,
                     ConstantSky, LinearPhotoCal, MagsPhotoCal, NullPhotoCal, FluxesPhotoCal,
                     Image, NullWCS, ConstantFitsWcs, PointSource, ModelMask)
from tractor.wcs import TanWcs
from tractor.patch import Patch
from tractor.basics import ConstantSurfaceBrightness
from tractor.ellipses import EllipseE, EllipseESoft
from tractor.galaxy import GalaxyShape, FracDev, SoftenedFracDev
from tractor.sersic import SersicIndex, SersicGalaxy
from tractor.sercore import SersicCoreGalaxy
from tractor.devcore import DevCoreGalaxy
from tractor.engine import Catalog, Images
from tractor.motion import MovingPointSource, PMRaDec, Parallax
from tractor.tractortime import TAITime
from tractor.utils import NpArrayParams
from tractor.mixture_profiles import MixtureOfGaussians
from tractor.psfex import PsfExModel, PixelizedPsfEx

RULE = ('one object of a random class, random values and random freeze pattern per case, duplicated by '
        'copy(), copy.deepcopy and pickle; distinct by (class, freeze pattern, route, mutation)')
NEED = {'dup': 500, 'mutated': 500, 'frozen some': 150}


def tree(o):
    """(class, liquid flags) of an object and its components, recursively."""
    subs = [tree(s) for s in o.subs] if hasattr(o, 'subs') else []
    return (type(o).__name__, tuple(bool(l) for l in getattr(o, 'liquid', ())), tuple(subs))


def params(o):
    f = getattr(o, 'getAllParams', None)
    return np.array(f(), float) if f else np.zeros(0)


def thawed(o):
    if not hasattr(o, 'getParamNames') or not hasattr(o, 'getParams'):
        return None
    return list(map(str, o.getParamNames())), np.array(o.getParams(), float)


# ---- one observation function per kind of object: arrays describing its behaviour

def obs_value(o):
    return [params(o)]


def obs_bright(photo):
    def f(o):
        return [params(o), [photo.cal(b).brightnessToCounts(o) for b in
                            (photo.bands if photo.kind in ('fluxes', 'nmgy', 'mags') else [None])]]
    return f


def obs_cal(brs):
    def f(o):
        return [[o.brightnessToCounts(b) for b in brs]]
    return f


def obs_shape(o):
    return [params(o), np.array(o.getRaDecBasis())]


def obs_wcs(poss):
    def f(o):
        r = []
        for p in poss:
            x, y = o.positionToPixel(p)
            r += [x, y]
            q = o.pixelToPosition(x, y)
            r += [q[0], q[1]]
            r += list(np.ravel(o.cdAtPixel(x, y)))
        return [np.array(r)]
    return f


def obs_psf(o):
    r = []
    for x, y in [(20., 20.), (15.3, 18.8)]:
        p = o.getPointSourcePatch(x, y, radius=8)
        r += [[p.x0, p.y0], p.patch]
    r.append([o.getRadius()])
    if hasattr(o, 'getMixtureOfGaussians'):
        g = o.getMixtureOfGaussians()
        r += [g.amp, g.mean, g.var]
    return r


def obs_sky(o):
    m = np.zeros((17, 23))
    o.addTo(m)
    r = [m]
    if hasattr(o, 'prior_smooth_sigma'):
        r.append([o.getLogPrior()])
    return r


def obs_src(im):
    def f(o):
        p = o.getModelPatch(im)
        if p is None or p.patch is None:
            return [[0.]]
        full = np.zeros(im.shape)
        p.addTo(full)
        return [full, [int(v) for v in p.getExtent()]]
    return f


def obs_img(cat):
    def f(o):
        t = Tractor([o], cat)
        return [o.data, o.inverr, t.getModelImage(0), [o.modelMinval],
                [0. if o.time is None else o.time.getValue()]]
    return f


def obs_tractor(o):
    r = []
    for i in range(len(o.images)):
        r += [o.getModelImage(i), o.getChiImage(i), [o.getModelImage(i).dtype.itemsize]]
    r.append([o.getLogProb()])
    return r


def obs_mog(o):
    return [o.amp, o.mean, o.var]


def obs_patch(o):
    if o.patch is None:
        return [[o.x0, o.y0, -1]]
    return [[o.x0, o.y0], o.patch]


# ---- factories: (object, observe, mutators)

def arr_mut(get):
    def f(o, rng):
        a = get(o)
        a[tuple(int(rng.integers(s)) for s in a.shape)] += 1.5
    return f


def make(rng):
    k = pick(rng, list(KINDS))
    return (k,) + KINDS[k](rng)


def k_pos(rng):
    if chance(rng, 0.5):
        return PixPos(*map(float, rng.uniform(-9, 99, 2))), obs_value, []
    return RaDecPos(*map(float, rng.uniform(-80, 80, 2))), obs_value, []


def k_bright(rng):
    ph = zoo.Photo(rng)
    return ph.brightness(rng), obs_bright(ph), []


def k_cal(rng):
    ph = zoo.Photo(rng)
    brs = [ph.brightness(rng) for i in range(3)]
    cal = ph.cal()
    if ph.kind == 'mags' and chance(rng, 0.5):
        # some of these count as invisible
        cal.maxmag = float(np.median([b.getMag(cal.band) for b in brs])) + 1e-3
    return cal, obs_cal(brs), []


def k_shape(rng):
    return zoo.shape(rng), obs_shape, []


def k_scalar(rng):
    c, v = pick(rng, [(FracDev, 0.3), (SoftenedFracDev, 0.6), (SersicIndex, 2.3), (Mag, 20.), (Flux, 9.),
                      (TAITime, 4.5e9), (Parallax, 0.1)])
    return c(v * float(rng.uniform(0.5, 1.5))), obs_value, []


def k_nparray(rng):
    class_ = NPA
    return class_(rng.normal(size=int(rng.integers(1, 7)))), obs_value, []


class NPA(NpArrayParams):
    pass


def k_wcs(rng):
    a = zoo.Astro(rng, 40, 30)
    poss = [a.pos(*rng.uniform(0, 30, 2)) for i in range(3)]
    w = a.wcs
    muts = []
    if a.kind == 'tan':
        if chance(rng, 0.5):
            w = TanWcs(a.tan)
        w.setX0Y0(*map(float, rng.integers(-5, 6, 2)))
        muts.append(lambda o, r: o.setX0Y0(99., 77.))
    else:
        muts.append(lambda o, r: o.setPixscale(o.pixscale * 3.))
        muts.append(lambda o, r: setattr(o, 'dx', o.dx + 2.5))
    return w, obs_wcs(poss), muts


def k_psf(rng):
    p = zoo.psf(rng)
    muts = []
    if hasattr(p, 'img') and p.zoo_kind in ('pix', 'npix'):
        muts.append(arr_mut(lambda o: o.img))
    if p.zoo_kind == 'hybrid':
        muts.append(lambda o, r: o.gauss.setAllParams(list(np.array(o.gauss.getAllParams()) * 1.1)))
    return p, obs_psf, muts


def k_sampled_psf(rng):
    from tractor.psf import PixelizedPSF
    p = PixelizedPSF(zoo.gauss_stamp(rng), sampling=pick(rng, [0.5, 0.7, 1.2]),
                     Lorder=pick(rng, [3, 4, 5]))

    def obs(o):
        q = o.getPointSourcePatch(20.3, 19.6)
        return [[q.x0, q.y0], q.patch, [o.sampling, o.Lorder]]
    return p, obs, []


def k_sky(rng):
    s = zoo.sky(rng, 23, 17, kind=pick(rng, ['const', 'spline']))
    muts = [lambda o, r: o.scale(2.)]
    if hasattr(s, 'xgrid'):
        muts.append(lambda o, r: o.offset(3.))
        muts.append(lambda o, r: o.shift(1, 2))
        if chance(rng, 0.5):
            s.setPriorSmoothness(float(rng.uniform(0.5, 3)))
        if chance(rng, 0.5):
            s.shift(2, 3)
        if chance(rng, 0.5):
            s.setAllParams(list(rng.normal(size=s.numberOfParams())))
    return s, obs_sky, muts


def scene(rng, n=None, pkinds=None):
    W, H = int(rng.integers(18, 36)), int(rng.integers(18, 36))
    a = zoo.Astro(rng, W, H)
    ph = zoo.Photo(rng)
    im = zoo.image(rng, W, H, astro=a, photo=ph, psf_=zoo.psf(rng, pkinds))
    return a, ph, im


def k_src(rng):
    a, ph, im = scene(rng)
    k = pick(rng, zoo.SRC + ['sersic', 'csb', 'sercore', 'devcore', 'moving', 'pt', 'pt'])
    if k == 'csb':
        s = ConstantSurfaceBrightness(ph.brightness(rng))
    elif k in ('sercore', 'devcore'):
        ph = zoo.Photo(rng, linear=True)
        im = zoo.image(rng, im.shape[1], im.shape[0], astro=a, photo=ph, psf_=zoo.gm_psf(rng))
        pos = a.pos(9.3, 11.2)
        sh = zoo.shape(rng, lo=0.5 * a.pixscale, hi=2 * a.pixscale)
        if k == 'sercore':
            s = SersicCoreGalaxy(pos, ph.brightness(rng), sh, SersicIndex(2.), ph.brightness(rng))
        else:
            s = DevCoreGalaxy(pos, ph.brightness(rng), sh, ph.brightness(rng))
    elif k == 'moving':
        a = zoo.Astro(rng, 30, 30, kind='tan')
        im = zoo.image(rng, 30, 30, astro=a, photo=ph, time=TAITime(4.5e9))
        s = MovingPointSource(a.pos(14., 15.), ph.brightness(rng),
                              PMRaDec(*(rng.normal(size=2) * a.pixscale / 3600. / 10.)),
                              float(rng.uniform(0, 1)), epoch=TAITime(4.4e9))
        if chance(rng, 0.5):
            s.fixedRadius = int(rng.integers(3, 8))
    else:
        s = zoo.source(rng, a, ph, kind=k)
    if k in zoo.SRC and chance(rng, 0.4) and k == 'pt':
        s.fixedRadius = int(rng.integers(3, 8))
    elif k == 'pt' and chance(rng, 0.7):
        # (a brightness floor that would trim the model, and a radius below which it may not)
        s.minRadius = int(rng.integers(5, 12))
        im.modelMinval = 0.3 * float(np.abs(s.getModelPatch(im, minsb=0.).patch).max())
    muts = []
    if k not in ('csb',):
        muts.append(lambda o, r: o.pos.setAllParams(
            [v + 0.4 * (1. if a.kind == 'null' else a.pixscale / 3600.) for v in o.pos.getAllParams()]))
    return s, obs_src(im), muts


def k_image(rng):
    a, ph, im = scene(rng)
    im.modelMinval = pick(rng, [0., 0., 0.01])
    if chance(rng, 0.5):
        im.time = TAITime(4.4e9)
    cat = [zoo.source(rng, a, ph) for i in range(2)]
    muts = [arr_mut(lambda o: o.data), arr_mut(lambda o: o.inverr)]
    if im.time is not None:
        muts.append(lambda o, r: o.time.setValue(7.))
    return im, obs_img(cat), muts


def k_catalog(rng):
    a, ph, im = scene(rng)
    c = Catalog(*[zoo.source(rng, a, ph) for i in range(int(rng.integers(0, 4)))])

    def obs(o):
        return [Tractor([im], o).getModelImage(0), [len(o)]]
    muts = [lambda o, r: o.append(zoo.source(r, a, ph))]
    return c, obs, muts


def k_tractor(rng):
    a, ph, im = scene(rng)
    ims = [im]
    if chance(rng, 0.5):
        ims.append(zoo.image(rng, im.shape[1], im.shape[0], astro=a, photo=ph))
    t = Tractor(ims, [zoo.source(rng, a, ph) for i in range(int(rng.integers(0, 4)))])
    if chance(rng, 0.3):
        t.modtype = np.float64
    if chance(rng, 0.3):
        # rendered through model masks, some sources not at all
        H, W = im.shape
        t.setModelMasks([dict((s, ModelMask(0, 0, W, H)) for s in t.catalog if chance(rng, 0.6)) for i in ims], assumeMasks=chance(rng, 0.7))
    muts = [lambda o, r: o.catalog.append(zoo.source(r, a, ph)),
            lambda o, r: arr_mut(lambda q: q.images[0].data)(o, r)]
    return t, obs_tractor, muts


def k_mog(rng):
    g = zoo.gm_psf(rng).mog
    return g, obs_mog, [arr_mut(lambda o: o.amp), arr_mut(lambda o: o.mean), arr_mut(lambda o: o.var)]


def k_patch(rng):
    p = Patch(int(rng.integers(-9, 9)), int(rng.integers(-9, 9)),
              None if chance(rng, 0.15) else rng.normal(size=tuple(rng.integers(1, 6, 2))))
    muts = [lambda o, r: setattr(o, 'x0', o.x0 + 1)]
    if p.patch is not None:
        muts.append(arr_mut(lambda o: o.patch))
    return p, obs_patch, muts


def k_psfex(rng):
    m = PsfExModel()
    m.sampling = 1.
    deg = int(rng.integers(0, 3))
    m.degree = deg
    n = (deg + 1) * (deg + 2) // 2
    m.psfbases = np.array([zoo.gauss_stamp(rng, half=8) * (1. if i == 0 else 0.1 * rng.normal())
                           for i in range(n)]).astype(np.float32)
    m.xscale, m.yscale = 20., 30.
    m.x0, m.y0 = 11., 13.
    m.radius = 9.
    m.fwhm = 3.
    p = PixelizedPsfEx(None, psfex=m)

    def obs(o):
        return [o.getImage(5., 9.), o.getPointSourcePatch(18.2, 3.1).patch, [o.fwhm, o.sampling]]
    return p, obs, [lambda o, r: o.shift(5., 3.)]


KINDS = dict(pos=k_pos, bright=k_bright, cal=k_cal, shape=k_shape, scalar=k_scalar, nparray=k_nparray,
             wcs=k_wcs, psf=k_psf, spsf=k_sampled_psf, sky=k_sky, src=k_src, image=k_image,
             catalog=k_catalog, tractor=k_tractor, mog=k_mog, patch=k_patch, psfex=k_psfex)


def freeze_random(m, o, rng, depth=0):
    """Freeze a random subset, recursively."""
    if hasattr(o, 'liquid') and hasattr(o, 'freezeParam') and len(o.liquid):
        for i in range(len(o.liquid)):
            if chance(rng, 0.35):
                o.freezeParams(i)
                m.event('frozen some')
    if hasattr(o, 'subs'):
        for s in o.subs:
            if s is not None:
                freeze_random(m, s, rng, depth + 1)


def dup(rng, o, allow_copy=True):
    r = pick(rng, ['copy', 'copy', 'deepcopy', 'pickle', 'pickle2'])
    if r == 'copy':
        return r, o.copy()
    if r == 'deepcopy':
        return r, copy.deepcopy(o)
    if r == 'pickle':
        return r, pickle.loads(pickle.dumps(o, -1))
    return r, pickle.loads(pickle.dumps(o, 2))


def snap(o, observe):
    return (tree(o), thawed(o), [np.array(a, float) for a in observe(o)])


def same(m, a, b, key, what):
    m.equal(a[0], b[0], key + '.freeze', what + ': classes and freeze flags')
    if a[1] is not None or b[1] is not None:
        m.equal(a[1][0], b[1][0], key + '.names', what + ': thawed names')
        m.close(a[1][1], b[1][1], key + '.params', what + ': thawed values', rtol=1e-9, atol=1e-9)
    m.equal(len(a[2]), len(b[2]), key + '.obs', what)
    for u, v in zip(a[2], b[2]):
        sc = float(np.max(np.abs(v))) if v.size else 0.
        m.close(u, v, key + '.behaviour', what + ': behaviour', rtol=1e-6, atol=1e-7 * sc + 1e-10)


def differs(a, b):
    try:
        if a[0] != b[0] or (a[1] is not None and (a[1][0] != b[1][0])):
            return True
        for u, v in zip(a[2] + ([a[1][1]] if a[1] else []), b[2] + ([b[1][1]] if b[1] else [])):
            if u.shape != v.shape or np.any(u != v):
                return True
    except Exception:
        return True
    return False


def mutate(m, o, rng, muts):
    what = []
    n = len(params(o))
    ms = list(muts)
    if n:
        def setp(q, r):
            k = getattr(q, 'numberOfParams', lambda: 0)()
            if k:
                i = int(r.integers(k))
                v = q.getParams()[i]
                q.setParam(i, v + 1e-3 * (abs(v) + 0.1))
        ms.append(setp)
    if hasattr(o, 'freezeParams') and len(getattr(o, 'liquid', ())):
        def flip(q, r):
            i = int(r.integers(len(q.liquid)))
            (q.freezeParams if q.liquid[i] else q.thawParams)(i)
        ms.append(flip)
    if hasattr(o, 'subs') and len(o.subs):
        def sub(q, r):
            s = pick(r, [s for s in q.subs if s is not None])
            mutate(m, s, r, [])
        ms.append(sub)
    if not ms:
        return
    for i in range(int(rng.integers(1, 3))):
        f = pick(rng, ms)
        f(o, rng)


def duplicate(m, rng):
    kind, o, observe, muts = make(rng)
    if chance(rng, 0.7):
        freeze_random(m, o, rng)
    s0 = snap(o, observe)
    route, d = dup(rng, o)
    m.op(kind, type(o).__name__, route)
    m.event('dup')
    m.event('kind ' + kind)
    m.check(d is not o, 'c02.alias.self', 'duplicate is the same object')
    m.check(type(d) is type(o), 'c02.type', 'duplicate of %s is a %s' % (type(o), type(d)))
    same(m, snap(o, observe), s0, 'c02.%s.%s.source-disturbed' % (kind, route), 'original after %s' % route)
    s1 = snap(d, observe)
    same(m, s1, s0, 'c02.%s.%s.fidelity' % (kind, route), '%s by %s' % (type(o).__name__, route))
    m.state(kind, type(o).__name__, route, s0[0])
    # a second-generation duplicate is as good
    if chance(rng, 0.3):
        r2, d2 = dup(rng, d)
        same(m, snap(d2, observe), s0, 'c02.%s.%s+%s.fidelity' % (kind, route, r2), 'second generation')
    # independence, both directions
    a, b = (o, d) if chance(rng, 0.5) else (d, o)
    before_b = snap(b, observe)
    before_a = snap(a, observe)
    mutate(m, a, rng, muts)
    after_a = snap(a, observe)
    if differs(before_a, after_a):
        m.event('mutated')
        m.state('mut', kind, type(o).__name__, route, after_a[0])
    same(m, snap(b, observe), before_b, 'c02.%s.%s.independence' % (kind, route),
         'the other of %s / its %s after an edit' % (type(o).__name__, route))
    # the duplicate is live: parameters set on it take effect as on the original
    if hasattr(a, 'getAllParams') and len(params(a)) and a.getAllParams is not None:
        if hasattr(a, 'setAllParams'):
            b.setAllParams(list(params(a)))
            if tree(a) == tree(b) and not muts:
                ua = [np.array(x, float) for x in observe(a)]
                ub = [np.array(x, float) for x in observe(b)]
                for u, v in zip(ua, ub):
                    sc = float(np.max(np.abs(v))) if v.size else 0.
                    m.close(u, v, 'c02.%s.%s.live' % (kind, route), 'same parameters, different behaviour',
                            rtol=1e-6, atol=1e-7 * sc + 1e-10)
    m.sample(kind=kind, cls=type(o).__name__, route=route, freeze=s0[0])


SCENARIOS = {'duplicate': (duplicate, 5000, 40000)}
QUICK = 3
