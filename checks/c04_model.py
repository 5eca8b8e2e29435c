"""C04: the model image is the sky plus the sum of the PSF-convolved analytic source profiles."""
import numpy as np
import ref
import scene
import zoo
from zoo import pick, chance
from tractor import Tractor

RULE = ('random scenes (1-3 images with own WCS/PSF/sky/band, 0-5 sources of every kind inside, astride and '
        'outside the frame); distinct by (psf kinds, source kinds, sky kinds, wcs kind, photocal kind)')
NEED = {'fixed radius, off image': 20, 'unusable flux': 30, 'floor': 100, 'floor bites': 50, 'wide galaxy': 100, 'edited': 150, 'halfsize': 40, 'components': 40, 'placed': 15, 'reference model': 150, 'patch seen': 200, 'superposition': 120, 'off image': 50}


def sig(ims, srcs):
    return (tuple(i.psf.zoo_kind for i in ims), tuple(type(i.img.sky).__name__ for i in ims),
            tuple(s.zoo_kind for s in srcs), ims[0].astro.kind, ims[0].photo.kind)


def compare(m, tr, ims, srcs):
    for i, im in enumerate(ims):
        r, tol = im.model(srcs)
        mod = tr.getModelImage(i) if i % 2 == 0 else tr.getModelImage(im.img)
        m.equal(mod.shape, (im.H, im.W), 'shape', 'model image shape')
        scale = np.max(np.abs(r), initial=1e-30)
        t = tol + 1e-6 * scale
        m.close((mod.astype(float) - r) / t, np.zeros(r.shape), 'reference',
                'model image vs independent reference (in units of the tolerance)', rtol=0, atol=1.,
                psf=im.psf.zoo_kind, srcs=[s.zoo_kind for s in srcs], sky=type(im.img.sky).__name__,
                scale=scale)
        m.event('reference model')
        for s in srcs:
            x, y = im.frame.xy(s.getPosition())
            if not (0 <= x < im.W and 0 <= y < im.H):
                m.event('off image')
            p = s.getModelPatch(im.img)
            if p is not None:
                m.event('patch seen')
                x0, x1, y0, y1 = p.getExtent()
                if x0 < 0 or y0 < 0 or x1 > im.W or y1 > im.H:
                    m.event('patch clipped by the frame')


def run_reference(kinds, srckinds=None, **kw):
    def f(m, rng):
        tr, ims, srcs = scene.scene(rng, psf_kinds=kinds, src_kinds=srckinds, linear=False, signed=0.15, **kw)
        tr.modtype = pick(rng, [np.float32, np.float64])
        m.state(*sig(ims, srcs))
        if chance(rng, 0.3):
            # frozen parameters are as much part of the model as thawed ones
            for o in [tr] * chance(rng, 0.3) + [im.img for im in ims] + srcs:
                for nm in o.getNamedParams() if hasattr(o, 'getNamedParams') else []:
                    if chance(rng, 0.4):
                        o.freezeParam(nm)
            m.event('frozen scene')
        compare(m, tr, ims, srcs)
        m.sample(sig=sig(ims, srcs))
        # same objects, changed parameters: nothing may be remembered from before
        for k in range(2):
            for s in srcs:
                if chance(rng, 0.6):
                    o = zoo.source(rng, ims[0].astro, ims[0].photo, kind=s.zoo_kind, shape_kind='ee',
                                   lo=0.4, hi=2.5)
                    s.pos.setParams(o.pos.getParams())
                    for nm in ('shape', 'shapeDev', 'shapeExp'):
                        if hasattr(s, nm):
                            setattr(s, nm, getattr(o, nm))
                    for nm in ('brightness', 'brightnessExp', 'brightnessDev'):
                        if hasattr(s, nm):
                            getattr(s, nm).setParams(getattr(o, nm).getParams())
            compare(m, tr, ims, srcs)
    return f


def wide(m, rng):
    """Galaxies comparable to or much larger than the image, well inside, astride or outside it."""
    tr, ims, srcs = scene.scene(rng, nim=1, nsrc=2, margin=pick(rng, [-3, 15]), rmin=0.6, rmax=40., size=(16, 44),
                                psf_kinds=['hybrid', 'hybrid', 'gm', 'nc'], src_kinds=['exp', 'dev', 'gauss', 'fcomp', 'comp'])
    im = ims[0]
    for s in srcs:
        r, t, near, nres = scene.wide_model(im, s)
        p = s.getModelPatch(im.img)
        z = np.zeros((im.H, im.W))
        if p is not None:
            p.addTo(z)
        t = t + 1e-9
        m.close((z - r) / t, np.zeros(r.shape), 'wide', 'model of a wide galaxy vs reference (in units of the tolerance)',
                rtol=0, atol=1., psf=im.psf.zoo_kind, src=s.zoo_kind, nres=nres, none=p is None)
        m.event('wide galaxy')
        m.state('wide', im.psf.zoo_kind, s.zoo_kind, int(np.log2(max(nres))), p is None)


def approximate(m, rng):
    """A surface-brightness floor only drops what lies below (a small multiple of) it."""
    tr, ims, srcs = scene.scene(rng, nim=1, nsrc=3, margin=4, rmin=0.4, rmax=4., psf_kinds=['gm', 'nc', 'gme'],
                                src_kinds=['pt', 'exp', 'dev', 'gauss', 'fcomp', 'comp', 'comp'])
    im = ims[0]

    def full(p):
        z = np.zeros((im.H, im.W))
        if p is not None and p.patch is not None:
            p.addTo(z)
        return z

    for s in srcs:
        ref0 = full(s.getModelPatch(im.img, minsb=0.))
        sc = np.abs(ref0).max()
        if sc == 0:
            continue
        sb = sc * zoo.loguni(rng, 1e-5, 0.3)
        how = pick(rng, ['minsb', 'image', 'unit'])
        k = 1.
        if how == 'minsb':
            got = full(s.getModelPatch(im.img, minsb=sb))
        elif how == 'image':
            im.img.modelMinval = sb
            got = full(s.getModelPatch(im.img))
            im.img.modelMinval = 0.
            k = 2. if s.zoo_kind == 'comp' else 1.
        else:
            us = s.getUnitFluxModelPatches(im.img, minval=0.)
            ref0 = sum(full(u) for u in us)
            sc = np.abs(ref0).max()
            sb = sc * zoo.loguni(rng, 1e-5, 0.3)
            got = sum(full(u) for u in s.getUnitFluxModelPatches(im.img, minval=sb))
        worst = float(np.max(np.abs(got - ref0)))
        m.check(worst <= 1.01 * k * sb + 4e-6 * sc, 'floor', 'the approximation drops more than the requested floor allows',
                ratio=worst / sb, how=how, src=s.zoo_kind, psf=im.psf.zoo_kind)
        if worst > 0.1 * sb:
            m.event('floor bites')
        m.event('floor')
        m.sample(ratio=worst / sb, how=how, src=s.zoo_kind)
        m.state('floor', how, s.zoo_kind, im.psf.zoo_kind, int(np.log10(sb / sc)))


def fixed_radius(m, rng):
    """A point source given a radius is drawn out to that radius, also when that is beyond the PSF's own and the
    source lies outside the image; a source without usable flux is not drawn."""
    photo = zoo.Photo(rng, kind='flux')
    W, H = int(rng.integers(14, 40)), int(rng.integers(14, 40))
    astro = zoo.Astro(rng, W, H)
    psf = scene.psf(rng, pick(rng, ['gm', 'nc', 'gme']))
    own = float(psf.getRadius())
    psf.radius = int(rng.integers(3, 9))
    im = scene.Im(rng, astro, photo, photo.band, psf, zoo.sky(rng, W, H, 'null'), W, H)
    R = int(rng.integers(10, 25))
    x, y = float(rng.uniform(-12, W + 11)), float(rng.uniform(-12, H + 11))
    s = zoo.source(rng, astro, photo, kind='pt', x=x, y=y, signed=0.1)
    s.fixedRadius = R
    z = np.zeros((H, W))
    p = s.getModelPatch(im.img)
    if p is not None:
        p.addTo(z)
    x, y = im.frame.xy(s.pos)
    c = im.counts(s.brightness)
    r = ref.gauss([(c * a, u, V) for a, u, V in ref.psf_mix(psf)], 0, W, 0, H, x, y)
    yy, xx = np.mgrid[0:H, 0:W]
    near = np.maximum(abs(xx - x), abs(yy - y)) <= R - 1
    pk = abs(c) * sum(abs(a) / (2 * np.pi * np.sqrt(np.linalg.det(V))) for a, u, V in ref.psf_mix(psf))
    m.close((z - r)[near], np.zeros(near.sum()), 'fixed radius', 'a point source with a fixed radius', rtol=0, atol=4e-6 * pk, none=p is None)
    m.event('fixed radius')
    if not (0 <= x < W and 0 <= y < H):
        m.event('fixed radius, off image')
    if chance(rng, 0.2):
        for v in (0., np.inf, -np.inf, np.nan, 1e39):
            s.brightness.setParams([v])
            p = s.getModelPatch(im.img)
            m.check(p is None or p.patch is None or np.all(np.isfinite(p.patch)), 'not finite', 'a model that is not finite', flux=v)
            m.event('unusable flux')
    m.state('fixed', R, psf.radius, psf.zoo_kind, (x < 0) + 2 * (x > W - 1), (y < 0) + 2 * (y > H - 1))


def sersic(m, rng):
    """Sersic-family galaxies: the profile mixture is the object's own, everything else the reference's."""
    from tractor.sersic import SersicGalaxy, SersicIndex
    photo = zoo.Photo(rng)
    W, H = int(rng.integers(18, 40)), int(rng.integers(18, 40))
    astro = zoo.Astro(rng, W, H)
    psf = scene.psf(rng, pick(rng, ['gm', 'nc', 'gme']))
    im = scene.Im(rng, astro, photo, photo.band, psf, zoo.sky(rng, W, H, 'const'), W, H)
    s = zoo.source(rng, astro, photo, kind='sersic', lo=0.4, hi=3.)
    prof = s.getProfile()
    mix0 = [(float(a), np.zeros(2), float(v[0, 0])) for a, v in zip(prof.amp, prof.var)]
    V = im.frame.cov(s.shape)
    c = photo.counts(s.brightness)
    mix = [(c * a, u, v * V) for a, u, v in mix0]
    x, y = im.frame.xy(s.pos)
    r = ref.gauss(ref.convolve(mix, ref.psf_mix(psf)), 0, W, 0, H, x, y) + im.sky_model()
    mod = Tractor([im.img], [s]).getModelImage(0)
    yy, xx = np.mgrid[0:H, 0:W]
    far = np.maximum(abs(xx - x), abs(yy - y)) > max(psf.getRadius(), 8. * ref.ellipse(s.shape)[0] / im.frame.pixscale)
    sc = np.max(np.abs(r))
    m.close((mod - r)[~far] / sc, np.zeros((~far).sum()), 'sersic', 'sersic model vs reference', rtol=0, atol=2e-5)
    m.event('reference model')
    m.event('patch seen')
    m.state(psf.zoo_kind, astro.kind, photo.kind, int(s.sersicindex.getValue() * 4))


def constant_sb(m, rng):
    """A constant-surface-brightness source fills the frame with counts x pixel area."""
    from tractor.basics import ConstantSurfaceBrightness
    photo = zoo.Photo(rng)
    W, H = int(rng.integers(5, 30)), int(rng.integers(5, 30))
    astro = zoo.Astro(rng, W, H)
    im = scene.Im(rng, astro, photo, photo.band, scene.psf(rng, 'gm'), zoo.sky(rng, W, H, 'const'), W, H)
    s = ConstantSurfaceBrightness(photo.brightness(rng))
    mod = Tractor([im.img], [s]).getModelImage(0)
    r = im.sky_model() + photo.counts(s.brightness) * im.frame.pixscale**2
    m.scaled_close(mod, r, 'constsb', 'constant surface brightness', tol=1e-4)
    m.event('reference model')


def superposition(m, rng):
    tr, ims, srcs = scene.scene(rng, nsrc=int(rng.integers(2, 6)), linear=True,
                                src_kinds=zoo.SRC + ['sersic'], signed=0.2)
    tr.modtype = np.float64
    m.state(*sig(ims, srcs))
    allm = list(tr.getModelImages())
    m.equal(len(allm), len(ims), 'images', 'one model per image, in order')
    for i, im in enumerate(ims):
        full = tr.getModelImage(i)
        # absolute floor: rendering is single precision relative to the sources' flux
        floor = 1e-10 * sum(abs(im.counts(c[0])) for s in srcs if s.zoo_kind != 'sersic'
                            for c in ref.components(s)) + 1e-10 * sum(
                                abs(im.counts(s.brightness)) for s in srcs if s.zoo_kind == 'sersic')
        sc = np.max(np.abs(full), initial=1e-30)
        T = dict(tol=1e-6, scale=sc, atol=floor)
        m.scaled_close(allm[i], full, 'images', 'getModelImages vs getModelImage', **T)
        sky = tr.getModelImage(i, srcs=[])
        m.scaled_close(sky, im.sky_model(), 'sky only', 'no sources leaves the sky', **T)
        m.scaled_close(tr.getModelImage(i, sky=False), full - sky, 'sky flag', 'sky=False drops exactly the sky', **T)
        parts = [tr.getModelImage(im.img, srcs=[s], sky=False) for s in srcs]
        m.scaled_close(sum(parts) + sky, full, 'sum', 'sources add', **T)
        perm = [srcs[j] for j in rng.permutation(len(srcs))]
        m.scaled_close(tr.getModelImage(i, srcs=perm), full, 'order', 'source order does not matter', **T)
        sub = [j for j in range(len(srcs)) if chance(rng, 0.5)]
        m.scaled_close(tr.getModelImage(i, srcs=[srcs[j] for j in sub]), sky + sum([parts[j] for j in sub]), 'subset',
                       'subset of sources', **T)
        m.scaled_close(tr.getModelImage(i, srcs=[None] + srcs + [None, None]), full, 'none', 'None entries are ignored', **T)
        for s, p in zip(srcs, parts):
            pat = tr.getModelPatch(im.img, s)
            z = np.zeros((im.H, im.W))
            if pat is not None:
                pat.addTo(z)
                m.event('patch seen')
            m.scaled_close(p, z, 'patch', 'model image is the patch', tol=1e-6, atol=floor,
                           scale=np.max(np.abs(p), initial=1e-30))
        # flux scaling
        f = float(rng.uniform(0.1, 5.)) * pick(rng, [1., -1.])
        old = tr.getParams()
        for s in srcs:
            for nm in ('brightness', 'brightnessExp', 'brightnessDev'):
                if hasattr(s, nm):
                    b = getattr(s, nm)
                    b.setParams([f * v for v in b.getParams()])
        m.scaled_close(tr.getModelImage(i, sky=False), f * (full - sky), 'flux scaling',
                       'sources scale with their flux', tol=2e-6, atol=floor * abs(f), scale=abs(f) * np.max(np.abs(full - sky), initial=1e-30))
        tr.setParams(old)
        m.event('superposition')
    # the catalog is what is rendered: removing / adding a source removes / adds its image
    j = int(rng.integers(len(srcs)))
    im = ims[0]
    full = tr.getModelImage(0)
    part = tr.getModelImage(0, srcs=[srcs[j]], sky=False)
    sc = np.max(np.abs(full), initial=1e-30)
    tr.removeSource(srcs[j])
    m.scaled_close(tr.getModelImage(0), full - part, 'remove', 'removed source leaves the image', tol=1e-6, scale=sc, atol=floor)
    tr.addSource(srcs[j])
    m.scaled_close(tr.getModelImage(0), full, 'add', 're-added source returns', tol=1e-6, scale=sc, atol=floor)


def editing(m, rng):
    """A tractor shows the images and sources it holds now, however they came in."""
    from tractor.engine import Catalog, Images
    tr, ims, srcs = scene.scene(rng, nsrc=int(rng.integers(1, 5)), linear=True, psf_kinds=['gm', 'nc', 'gme'])
    tr.modtype = np.float64
    alone = {}
    for i, im in enumerate(ims):
        alone[id(im.img)] = dict((id(s), tr.getModelImage(i, srcs=[s], sky=False)) for s in srcs)
        alone[id(im.img)][None] = tr.getModelImage(i, srcs=[])
    t = Tractor()
    t.modtype = np.float64
    have_s, have_i = [], []
    for _ in range(8):
        op = pick(rng, ['addSource', 'addSources', 'removeSource', 'setCatalog', 'setImages', 'addImage'])
        some = [s for s in srcs if chance(rng, 0.6)]
        if op == 'addSource' and len(have_s) < 6:
            s = pick(rng, srcs)
            t.addSource(s)
            have_s = have_s + [s]
        elif op == 'addSources' and len(have_s) < 6:
            t.addSources(some)
            have_s = have_s + some
        elif op == 'removeSource' and have_s:
            s = pick(rng, have_s)
            t.removeSource(s)
            k = [i for i, x in enumerate(have_s) if x is s][0]
            have_s = have_s[:k] + have_s[k + 1:]
        elif op == 'setCatalog':
            t.setCatalog(Catalog(*some))
            have_s = some
        elif op == 'setImages':
            pickd = [im.img for im in ims if chance(rng, 0.7)]
            t.setImages(Images(*pickd))
            have_i = pickd
        elif op == 'addImage' and len(have_i) < 4:
            im = pick(rng, ims).img
            t.addImage(im)
            have_i = have_i + [im]
        else:
            continue
        m.op(op, len(have_s), len(have_i))
        m.check(len(t.getCatalog()) == len(have_s) and all(a is b for a, b in zip(t.getCatalog(), have_s)), 'edit', 'the catalog holds the sources given, in order', op=op)
        m.check(len(t.getImages()) == len(have_i) == t.getNImages() and all(a is b for a, b in zip(t.getImages(), have_i)), 'edit', 'the tractor holds the images given, in order', op=op)
        m.equal(t.numberOfParams(), sum(x.numberOfParams() for x in have_i) + sum(x.numberOfParams() for x in have_s), 'edit', 'number of parameters', op=op)
        m.close(t.getParams(), [v for x in list(have_i) + list(have_s) for v in x.getParams()], 'edit', 'parameters of images, then sources', rtol=0, atol=0, op=op)
        mods = list(t.getModelImages())
        m.equal(len(mods), len(have_i), 'edit', 'one model image per image')
        for img, mod in zip(have_i, mods):
            want = alone[id(img)][None] + sum([alone[id(img)][id(s)] for s in have_s])
            m.scaled_close(mod, want, 'edit', 'model image of the sources held now', tol=1e-6, atol=1e-30, scale=max([np.abs(want).max()] + [np.abs(alone[id(img)][id(s)]).max() for s in have_s]) + 1e-30, op=op)
        m.event('edited')
    m.state('edit', len(ims), len(srcs), len(have_s), len(have_i))


def sizes(m, rng):
    """A galaxy given a half-size is rendered in that box; composite sources are the sum of their unit-flux components."""
    from tractor.devcore import DevCoreGalaxy
    from tractor.sercore import SersicCoreGalaxy
    from tractor.sersic import SersicIndex
    photo = zoo.Photo(rng)
    W, H = int(rng.integers(24, 60)), int(rng.integers(24, 60))
    astro = zoo.Astro(rng, W, H)
    psf = scene.psf(rng, pick(rng, ['gm', 'nc', 'gme', 'hybrid']))
    im = scene.Im(rng, astro, photo, photo.band, psf, zoo.sky(rng, W, H, 'const'), W, H)
    kind = pick(rng, ['exp', 'dev', 'gauss', 'comp', 'fcomp', 'sersic', 'devcore', 'sercore'])
    x, y = float(rng.uniform(0, W - 1)), float(rng.uniform(0, H - 1))
    if kind in ('devcore', 'sercore'):
        sh = zoo.shape(rng, lo=0.5 * astro.pixscale, hi=2. * astro.pixscale)
        args = (astro.pos(x, y), photo.brightness(rng), sh)
        s = (DevCoreGalaxy(*(args + (photo.brightness(rng),))) if kind == 'devcore' else
             SersicCoreGalaxy(*(args + (SersicIndex(float(rng.uniform(0.7, 5.))), photo.brightness(rng)))))
    else:
        s = zoo.source(rng, astro, photo, kind=kind, x=x, y=y, lo=0.5, hi=2.)
    im.img.modelMinval = 0.
    from tractor import ModelMask
    mm = ModelMask(0, 0, W, H)
    whole = np.zeros((H, W))
    s.getModelPatch(im.img, modelMask=mm).addTo(whole)
    # the components
    us = s.getUnitFluxModelPatches(im.img, minval=0., modelMask=mm)
    bs = s.getBrightnesses()
    # (a galaxy with a fixed mixing fraction splits its one flux)
    m.equal(len(us), len(bs), 'components', 'one unit-flux model per brightness', kind=kind)
    tot = np.zeros((H, W))
    for u, b in zip(us, bs):
        if u is not None:
            (u * photo.counts(b)).addTo(tot)
    sc = np.abs(whole).max()
    m.close(tot, whole, 'components', 'the model is the sum of counts times unit-flux models', rtol=0, atol=2e-6 * sc + 1e-30, kind=kind)
    m.event('components')
    if kind in ('exp', 'dev', 'gauss', 'sersic'):
        # asking for the profile at a given pixel is the same as moving the source there
        x2, y2 = float(rng.uniform(0, W - 1)), float(rng.uniform(0, H - 1))
        moved = s.copy()
        moved.pos = astro.pos(x2, y2)
        px, py = im.img.getWcs().positionToPixel(moved.pos, moved)
        there = s.getUnitFluxModelPatch(im.img, px=px, py=py, minval=0., modelMask=mm).patch
        want = moved.getUnitFluxModelPatch(im.img, minval=0., modelMask=mm).patch
        m.close(there, want, 'placed', 'a galaxy profile requested at a pixel is the profile of the galaxy moved to that pixel', rtol=0, atol=2e-6 * np.abs(want).max() + 1e-30, kind=kind)
        m.event('placed')
    h = float(pick(rng, [int(rng.integers(2, 30)), float(rng.uniform(2., 20.))]))
    s.halfsize = h
    p = s.getModelPatch(im.img)
    z = np.zeros((H, W))
    p.addTo(z)
    x, y = im.frame.xy(s.pos)
    yy, xx = np.mgrid[0:H, 0:W]
    inside = np.maximum(abs(xx - x), abs(yy - y)) <= h - (1. if psf.zoo_kind in scene.GAUSS else 3.)
    tol = 2e-6 if psf.zoo_kind in scene.GAUSS else 4e-3
    m.close((z - whole)[inside], np.zeros(inside.sum()), 'halfsize', 'a galaxy given a half-size is the same galaxy inside it', rtol=0, atol=tol * sc + 1e-30, kind=kind, halfsize=h)
    if kind in ('exp', 'dev', 'gauss', 'sersic') and psf.zoo_kind in scene.GAUSS:
        x0, x1, y0, y1 = p.getExtent()
        m.check(x0 >= x - h - 1.001 and x1 <= x + h + 3.001 and y0 >= y - h - 1.001 and y1 <= y + h + 3.001, 'halfsize', 'and is rendered in that box', extent=(x0, x1, y0, y1), xy=(x, y), halfsize=h)
    m.event('halfsize')
    m.state('size', kind, psf.zoo_kind, int(h))


SCENARIOS = {
    'fixed radius': (fixed_radius, 80, 1500),
    'floor': (approximate, 100, 2000),
    'wide galaxies': (wide, 100, 2000),
    'editing': (editing, 60, 800),
    'sizes': (sizes, 80, 1200),
    'reference: Gaussian PSFs': (run_reference(['gm', 'nc', 'gme']), 260, 4000),
    'reference: pixelized PSFs': (run_reference(['pix', 'npix', 'hybrid'], size=(18, 34), rmax=1.6, rmin=0.3), 130, 2000),
    'reference: hybrid PSFs': (run_reference(['hybrid'], size=(24, 50), rmax=5., rmin=1.), 60, 1500),
    'reference: mixed': (run_reference(None, margin=25, rmax=5.), 100, 1500),
    'sersic': (sersic, 100, 1500),
    'constant surface brightness': (constant_sb, 60, 600),
    'superposition': (superposition, 120, 2000),
}
