"""C10: evaluating the model has no side effects and remembers nothing but current parameter values."""
import pickle
import contextlib
import io

import numpy as np

import scene as S
import zoo
from zoo import pick, chance, loguni
from monitor import Skip
from tractor import ModelMask, Tractor
from tractor.motion import MovingPointSource, PMRaDec
from tractor.tractortime import TAITime
from tractor.cache import TractorCacheMixin, Cache

RULE = ('random scenes driven through random histories of evaluations interleaved with parameter changes; distinct by (kinds, history)')
NEED = {'evaluation': 1500, 'parameter change': 300, 'fresh comparison': 400, 'cache hit': 100, 'restored': 100, 'time changed': 30}
KINDS = zoo.SRC + ['sersic', 'sersic']


class CachedTractor(TractorCacheMixin, Tractor):
    pass


def observe(tr):
    """Everything that evaluation must leave alone."""
    out = [[float(v) for v in tr.getAllParams()], list(tr.getParamStateRecursive()), tr.getParamNames(), list(tr.getStepSizes())]
    for im in tr.images:
        out.append(im.data.tobytes())
        out.append(im.inverr.tobytes())
        p = im.psf
        if hasattr(p, 'img'):
            out.append(np.asarray(p.img).tobytes())
        if hasattr(p, 'mog') and type(p).__name__.startswith('GaussianMixture'):
            out.append((p.mog.amp.tolist(), p.mog.mean.tolist(), p.mog.var.tolist()))
        out.append([float(im.modelMinval), im.shape])
    return out


def model(tr):
    return [np.array(tr.getModelImage(i), float) for i in range(len(tr.images))]


def compare(m, a, b, key, msg, exact=False):
    for k, (x, y) in enumerate(zip(a, b)):
        if exact:
            m.check(np.array_equal(x, y), key, '%s (image %d)' % (msg, k), diff=float(np.max(np.abs(x - y))))
        else:
            m.scaled_close(x, y, key, '%s (image %d)' % (msg, k), tol=1e-6)


def evaluations(rng, tr, ims, srcs):
    """A random side-effect-free call, by name."""
    i = int(rng.integers(len(ims)))
    im, s = ims[i], pick(rng, srcs)
    x, y = im.frame.xy(s.getPosition())
    w, h = int(rng.integers(5, 25)), int(rng.integers(5, 25))
    mm = ModelMask(int(x) - w // 2, int(y) - h // 2, w, h)
    if chance(rng, 0.5):
        mm = ModelMask(int(x) - w // 2, int(y) - h // 2, rng.random((h, w)) < 0.8)
    k = pick(rng, ['model', 'models', 'chi', 'chis', 'lnl', 'lnp', 'prior', 'patch', 'mask', 'derivs', 'allderivs', 'unit', 'unitmask', 'str',
                   'hash', 'copy', 'psf', 'nosky', 'subset', 'ft', 'mog', 'minsb', 'bounds', 'gpriors', 'dpriors'])
    f = {
        'model': lambda: tr.getModelImage(i), 'models': lambda: tr.getModelImages(), 'chi': lambda: tr.getChiImage(i),
        'chis': lambda: list(tr.getChiImages()), 'lnl': lambda: tr.getLogLikelihood(), 'lnp': lambda: tr.getLogProb(),
        'prior': lambda: tr.getLogPrior(), 'patch': lambda: tr.getModelPatch(im.img, s),
        'mask': lambda: s.getModelPatch(im.img, modelMask=mm), 'derivs': lambda: s.getParamDerivatives(im.img, modelMask=pick(rng, [mm, None])),
        'allderivs': lambda: tr.getDerivs(), 'unit': lambda: s.getUnitFluxModelPatches(im.img),
        'unitmask': lambda: s.getUnitFluxModelPatches(im.img, modelMask=mm), 'str': lambda: (str(tr), repr(s), str(s), str(im.img), str(im.psf)),
        'hash': lambda: (s.hashkey(), im.img.hashkey()), 'copy': lambda: (s.copy(), im.psf.copy(), tr.catalog.copy()),
        'psf': lambda: im.psf.getPointSourcePatch(x, y), 'nosky': lambda: tr.getModelImage(i, sky=False),
        'subset': lambda: tr.getModelImage(i, srcs=srcs[:1]),
        'ft': lambda: im.psf.getFourierTransform(x, y, float(rng.uniform(4, 40))) if hasattr(im.psf, 'getFourierTransform') else None,
        'mog': lambda: im.psf.getMixtureOfGaussians(px=x, py=y) if hasattr(im.psf, 'getMixtureOfGaussians') else None,
        'minsb': lambda: tr.getModelImage(i, minsb=1e-3), 'bounds': lambda: (tr.getLowerBounds(), tr.getUpperBounds(), tr.getStepSizes()),
        'gpriors': lambda: tr.getGaussianPriors() if hasattr(tr, 'getGaussianPriors') else None,
        'dpriors': lambda: tr.getLogPriorDerivatives(),
    }[k]
    return k, f


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return f()
        except RuntimeError as e:
            # (galaxies with a purely pixelized PSF must be centred inside the image or mask)
            if 'sourceOut' in str(e):
                raise Skip('sourceOut')
            raise


def change(rng, tr, ims, srcs):
    p = np.array(tr.getParams(), float)
    st = np.array(tr.getStepSizes(), float)
    how = pick(rng, ['all', 'one', 'one', 'one'])
    if how == 'one':
        j = int(rng.integers(len(p)))
        tr.setParam(j, float(p[j] + st[j] * rng.uniform(-2, 2)))
    else:
        tr.setParams([float(v) for v in p + st * rng.uniform(-1, 1, len(p))])


def restrict(tr, ims):
    for im in ims:
        im.img.freezeAllParams()
        if type(im.img.sky).__name__ == 'ConstantSky':
            im.img.thawParam('sky')
        if im.psf.zoo_kind in ('gm', 'nc', 'gme'):
            im.img.thawParam('psf')


def history(m, rng):
    tr, ims, srcs = S.scene(rng, nim=int(rng.integers(1, 3)), nsrc=int(rng.integers(1, 4)), src_kinds=KINDS, linear=False,
                            size=(16, 28), margin=-2, rmax=2.)
    restrict(tr, ims)
    try:
        m0 = model(tr)
    except RuntimeError as e:
        if 'sourceOut' in str(e):
            raise Skip('sourceOut')
        raise
    blob = pickle.dumps(tr)
    p0 = tr.getParams()
    hist = []
    for step in range(12):
        before = observe(tr)
        k, f = evaluations(rng, tr, ims, srcs)
        m.op(k)
        quiet(f)
        hist.append(k)
        m.event('evaluation')
        after = observe(tr)
        m.check(after == before, 'side-effect', 'evaluation "%s" changed parameters, freeze state, PSF or image data' % k,
                diff=[(i, a, b) for x, y in zip(before, after) if x != y and isinstance(x, list) for i, (a, b) in enumerate(zip(x, y)) if a != b][:3])
        if chance(rng, 0.3):
            change(rng, tr, ims, srcs)
            m.op('set', tr.getParams())
            m.event('parameter change')
            if chance(rng, 0.7):
                fresh = pickle.loads(blob)
                fresh.setAllParams(tr.getAllParams())
                try:
                    a, b = model(tr), model(fresh)
                except RuntimeError as e:
                    if 'sourceOut' in str(e):
                        break
                    raise
                compare(m, a, b, 'stale', 'model after history %s differs from that of a fresh object with the same parameters' % hist)
                m.event('fresh comparison')
    tr.setParams(p0)
    compare(m, model(tr), m0, 'restored', 'parameters restored after %s, but not the model' % hist)
    fresh = pickle.loads(blob)
    compare(m, model(fresh), m0, 'fresh', 'a fresh object renders differently after %s' % hist)
    m.event('fresh comparison')
    m.event('restored')
    m.state(tuple(s.zoo_kind for s in srcs), tuple(i.psf.zoo_kind for i in ims), tuple(sorted(set(hist))))


def order(m, rng):
    """What is evaluated before makes no difference: the same object rendered first, last, in between others."""
    tr, ims, srcs = S.scene(rng, nim=2, nsrc=int(rng.integers(2, 5)), src_kinds=KINDS, size=(16, 28), margin=-2, rmax=2., linear=False)
    first = {}
    jobs = [(i, j) for i in range(len(ims)) for j in range(len(srcs))]
    for rnd in range(3):
        for q in rng.permutation(len(jobs)):
            i, j = jobs[q]
            pat = quiet(lambda: srcs[j].getModelPatch(ims[i].img))
            a = None if pat is None else (pat.getExtent(), pat.patch.copy())
            m.event('evaluation')
            if (i, j) in first:
                b = first[(i, j)]
                m.check((a is None) == (b is None), 'order', 'patch present or not depending on order')
                if a is not None:
                    m.equal(a[0], b[0], 'order', 'extent depends on what was rendered before')
                    m.check(np.array_equal(a[1], b[1]), 'order', 'model of source %d in image %d depends on what was rendered before' % (j, i))
            first[(i, j)] = a
            # results handed out are the caller's: scribbling on them must not be remembered
            if pat is not None and chance(rng, 0.5):
                pat.patch[...] = -1e6
    m.state(tuple(s.zoo_kind for s in srcs), tuple(i.psf.zoo_kind for i in ims))


def cached(m, rng):
    """A tractor with a model cache returns what one without returns."""
    tr0, ims, srcs = S.scene(rng, nim=int(rng.integers(1, 3)), nsrc=int(rng.integers(1, 4)), src_kinds=zoo.SRC, size=(14, 24), margin=-2,
                             rmax=2., psf_kinds=list(S.GAUSS) + ['hybrid'], signed=0.2)
    restrict(tr0, ims)
    if ims[0].astro.kind == 'null' and chance(rng, 0.5):
        for s in srcs:      # small integers make the hardest keys
            s.pos.setParams([float(pick(rng, [-2., -1., 0., 1., 2.])), float(rng.integers(-2, 12))])
    if ims[0].astro.kind == 'tan' and chance(rng, 0.6):
        # a moving source: its model depends on when the image was taken
        a = ims[0].astro
        mv = MovingPointSource(a.pos(float(rng.uniform(3, a.W - 4)), float(rng.uniform(3, a.H - 4))), ims[0].photo.brightness(rng),
                               PMRaDec(*[float(v) for v in rng.normal(size=2) * a.pixscale / 3600.]), 0., epoch=TAITime(None, mjd=57000.))
        mv.zoo_kind = 'moving'
        srcs.append(mv)
        tr0.catalog.append(mv)
        for im in ims:
            im.img.time = TAITime(None, mjd=57000. + 365.25 * float(rng.uniform(-3, 3)))
    size = pick(rng, [1000, 1, 2, 3])
    tr = CachedTractor([i.img for i in ims], srcs, cache=Cache(maxsize=size))
    tr.modtype = tr0.modtype = np.float64
    nhit = 0
    for step in range(10):
        k = pick(rng, ['same', 'param', 'flux', 'pos', 'minsb', 'masks', 'undo', 'off', 'int', 'time'])
        if k == 'time' and srcs[-1].zoo_kind == 'moving':
            for im in ims:
                im.img.time = TAITime(None, mjd=57000. + 365.25 * float(rng.uniform(-3, 3)))
            m.event('time changed')
        elif k == 'param':
            change(rng, tr, ims, srcs)
        elif k == 'int' and ims[0].photo.kind in ('flux', 'linflux', 'fluxes', 'nmgy'):
            b = pick(rng, srcs).getBrightnesses()[0]
            b.setParams([float(pick(rng, [-1., -2., 1., 2., 0.])) for v in b.getParams()])
        elif k == 'pos':
            s = pick(rng, srcs)
            if ims[0].astro.kind == 'null':
                s.pos.setParams([float(pick(rng, [-2., -1., 0., 1., 5.])), s.pos.getParams()[1]])
        elif k == 'masks':
            if chance(rng, 0.5):
                tr.setModelMasks(None)
                tr0.setModelMasks(None)
            else:
                ms = [dict((s, ModelMask(0, 0, int(rng.integers(3, 14)), int(rng.integers(3, 14)))) for s in srcs if chance(rng, 0.8)) for im in ims]
                tr.setModelMasks(ms)
                tr0.setModelMasks(ms)
        elif k == 'minsb':
            v = pick(rng, [0., 1e-3, 0.1, 1.])
            for im in ims:
                im.img.modelMinval = v
        elif k == 'off' and chance(rng, 0.3):
            tr.disable_cache()
        m.op(k, tr.getParams())
        h0 = tr.cache.hits if tr.cache is not None else 0
        minsb = pick(rng, [None, None, 0., 0.01, 0.5])
        kw = {} if minsb is None else dict(minsb=minsb)
        for i, im in enumerate(ims):
            a = tr.getModelImage(i, **kw)
            b = tr0.getModelImage(i, **kw)
            # a cached model may be more precise than asked for, never less
            mv = im.img.modelMinval if minsb is None else minsb
            m.close(a, b, 'cached', 'model through the cache differs after "%s"' % k, rtol=0,
                    atol=1e-6 * (np.abs(b).max() + 1e-9) + 3.5 * mv * len(srcs) * 2)
            m.event('evaluation')
        if tr.cache is not None:
            m.event('cache hit', tr.cache.hits - h0)
            m.check(len(tr.cache) <= size, 'cache-size', 'cache exceeds its size')
    m.state('cached', size, tuple(s.zoo_kind for s in srcs))


def freezing(m, rng):
    """Which parameters are frozen decides what a fit varies, never what is rendered."""
    tr, ims, srcs = S.scene(rng, nim=int(rng.integers(1, 3)), nsrc=int(rng.integers(1, 4)), src_kinds=KINDS, size=(14, 24), margin=-2, rmax=2., linear=False)
    if chance(rng, 0.5):
        for im in ims:
            im.img.modelMinval = loguni(rng, 1e-4, 1e-1)
    try:
        m0 = model(tr)
    except RuntimeError as e:
        if 'sourceOut' in str(e):
            raise Skip('sourceOut')
        raise
    lnl = tr.getLogLikelihood()
    lnp = tr.getLogPrior()
    allp = [float(v) for v in tr.getAllParams()]
    nodes = []

    def walk(o):
        if o is None or not hasattr(o, 'freezeParam'):
            return
        nodes.append(o)
        for s in (o._getThings() if hasattr(o, '_getThings') else getattr(o, 'subs', None) or []):
            walk(s)
    walk(tr)
    groups = [o for o in nodes if hasattr(o, 'thawAllRecursive')]
    for step in range(5):
        how = pick(rng, ['some', 'recursive', 'only', 'thaw', 'one'])
        with contextlib.redirect_stdout(io.StringIO()):
            if how == 'recursive':
                pick(rng, groups).freezeAllRecursive()
            elif how == 'thaw':
                pick(rng, groups).thawAllRecursive()
            else:
                for o in (nodes if how == 'some' else [pick(rng, nodes)]):
                    names = list(o.getParamNames()) if not hasattr(o, 'liquid') else list(range(len(o.liquid)))
                    for i in range(len(names)):
                        if chance(rng, 0.4):
                            o.freezeParam(i)
                        elif chance(rng, 0.3):
                            o.thawParam(i)
        m.op(how)
        m.event('frozen')
        m.equal([float(v) for v in tr.getAllParams()], allp, 'freeze-values', 'freezing changed parameter values')
        compare(m, model(tr), m0, 'freeze-model', 'freezing parameters (%s) changed what is rendered' % how)
        m.close(tr.getLogLikelihood(), lnl, 'freeze-lnl', 'freezing changed the log-likelihood', rtol=1e-6, atol=1e-6)
    m.state('freeze', tuple(s.zoo_kind for s in srcs), tuple(i.psf.zoo_kind for i in ims), how)


SCENARIOS = {
    'freezing': (freezing, 50, 1500),
    'history': (history, 160, 4000),
    'order': (order, 60, 1200),
    'cached': (cached, 120, 3000),
}
QUICK = 5
