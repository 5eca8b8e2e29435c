"""C09: model derivatives: one per thawed parameter, in order, close to the true derivative, without side effects."""
import numpy as np

import scene as S
from monitor import Skip
import zoo
from zoo import pick, chance, loguni
from tractor import ModelMask, Tractor, RaDecPos, PixPos

RULE = ('random sources of every kind x PSF x WCS x photometry with random freeze patterns, masked and unmasked, and random tractors '
        'with thawed image calibrations; distinct by (kinds, thawed set)')
NEED = {'floored derivative': 80, 'stepped position': 40, 'derivative': 1500, 'masked derivative': 300, 'image derivative': 150, 'absent': 50, 'zero flux': 10, 'negative flux': 10}
KINDS = zoo.SRC + ['sersic', 'sercore', 'devcore', 'moving', 'csb', 'pt', 'exp']


def snapshot(obj):
    return [float(v) for v in obj.getAllParams()] + [bool(b) for b in obj.getParamStateRecursive()] \
        if hasattr(obj, 'getParamStateRecursive') else [float(v) for v in obj.getAllParams()]


def make_source(rng, astro, photo, kind, x, y):
    if kind in zoo.SRC + ['sersic']:
        s = zoo.source(rng, astro, photo, kind=kind, x=x, y=y, lo=0.7, hi=2.5, signed=0.1)
        if kind == 'sersic':
            s.sersicindex.setValue(float(rng.uniform(0.8, 5.2)))
        return s
    lo, hi = 0.7 * astro.pixscale, 2.5 * astro.pixscale
    if kind == 'sercore':
        from tractor.sercore import SersicCoreGalaxy
        from tractor.sersic import SersicIndex
        return SersicCoreGalaxy(astro.pos(x, y), photo.brightness(rng), zoo.shape(rng, lo=lo, hi=hi),
                                SersicIndex(float(rng.uniform(0.8, 5.2))), photo.brightness(rng))
    if kind == 'devcore':
        from tractor.devcore import DevCoreGalaxy
        return DevCoreGalaxy(astro.pos(x, y), photo.brightness(rng), zoo.shape(rng, lo=lo, hi=hi), photo.brightness(rng))
    if kind == 'csb':
        from tractor.basics import ConstantSurfaceBrightness
        return ConstantSurfaceBrightness(photo.brightness(rng))
    assert kind == 'moving'
    from tractor.motion import MovingPointSource, PMRaDec
    from tractor.tractortime import TAITime
    ps = astro.pixscale / 3600.
    return MovingPointSource(astro.pos(x, y), photo.brightness(rng), PMRaDec(float(rng.normal(0, ps)), float(rng.normal(0, ps))),
                             float(abs(rng.normal(0, ps * 3600))), epoch=TAITime(None, mjd=57000.))


def full(im):
    return ModelMask(0, 0, im.W, im.H)


def render(src, im, p, mask):
    old = src.getParams()
    src.setParams(list(p))
    pat = src.getModelPatch(im.img, modelMask=mask)
    src.setParams(old)
    z = np.zeros((im.H, im.W))
    if pat is not None:
        pat.addTo(z)
    return z


def is_pos(src, j, names):
    return 'pos' in names[j] or names[j].startswith('pm') or names[j].startswith('parallax')


def truth(m, src, im, mask):
    """Reference derivative of each thawed parameter and the tolerance on it."""
    c = src.copy() if type(src).__name__ != 'MovingPointSource' else src
    p0 = np.array(c.getParams(), float)
    names = c.getParamNames()
    steps = np.array(c.getStepSizes(), float)
    F0 = render(c, im, p0, mask)
    ps = im.frame.pixscale
    out = []
    E = None
    if type(src).__name__ != 'MovingPointSource' and any('pos' in nm for nm in names):
        # accuracy of one-pixel central differences along each pixel axis
        x, y = im.frame.xy(src.pos)
        E = []
        for ux, uy in ((1, 0), (0, 1)):
            def at(d):
                c2 = src.copy()
                c2.pos.setAllParams(im.astro.pos(x + d * ux, y + d * uy).getAllParams())
                return render(c2, im, c2.getParams(), mask)
            E.append(np.abs((at(0.05) - at(-0.05)) / 0.1 - (at(1.) - at(-1.)) / 2.))
    for j in range(len(p0)):
        pos = is_pos(src, j, names)
        h = steps[j]
        hs = abs(h) * 0.2
        if pos:
            onepix = (1. if im.astro.kind == 'null' else ps / 3600.)
            if 'parallax' in names[j]:
                onepix = ps
            if names[j].split('.')[-1] == 'ra':
                onepix /= np.cos(np.deg2rad(src.pos.dec))
            hs = min(hs, 0.05 * onepix)

        def F(d):
            q = p0.copy()
            q[j] += d
            return render(c, im, q, mask)
        A = (F(hs) - F(-hs)) / (2 * hs)
        var = [(F(h) - F0) / h, (F0 - F(-h)) / h]
        if pos:
            for f in (1., 1.45):
                var.append((F(f * onepix) - F(-f * onepix)) / (2 * f * onepix))
        V = np.max([np.abs(v - A) for v in var], axis=0)
        if pos and E is not None:
            c2 = src.copy()
            c2.setParam(j, p0[j] + 1e-3 * onepix)
            x1, y1 = im.frame.xy(c2.pos)
            V = np.maximum(V, (abs(x1 - x) * E[0] + abs(y1 - y) * E[1]) / (1e-3 * onepix))
        sc = np.abs(A).max()
        noise = 3e-6 * np.abs(F0).max() / hs
        out.append((A, 2. * V + 0.05 * V.max() + 0.01 * sc + noise, sc + noise))
    return out


def interior(im, ext, border):
    """Pixels of the patch extent, less `border` at every side (if all) or at sides inside the image."""
    x0, x1, y0, y1 = ext
    ok = np.zeros((im.H, im.W), bool)
    a = x0 + border if (x0 > 0 or border == 3) else 0
    b = x1 - border if (x1 < im.W or border == 3) else im.W
    c = y0 + border if (y0 > 0 or border == 3) else 0
    d = y1 - border if (y1 < im.H or border == 3) else im.H
    ok[max(c, 0):max(d, 0), max(a, 0):max(b, 0)] = True
    return ok


def freeze(rng, src):
    for nm in list(src.getNamedParams()):
        if chance(rng, 0.2):
            src.freezeParam(nm)
        elif chance(rng, 0.25):
            sub = getattr(src, nm)
            if hasattr(sub, 'freezeParam') and sub.numberOfParams() > 1:
                sub.freezeParam(int(rng.integers(sub.numberOfParams())))


def setup(rng, kinds, psf_kinds):
    kind = pick(rng, kinds)
    W, H = int(rng.integers(20, 36)), int(rng.integers(20, 36))
    photo = zoo.Photo(rng)
    astro = zoo.Astro(rng, W, H, kind='tan' if kind == 'moving' else None)
    im = S.Im(rng, astro, photo, pick(rng, photo.bands) if photo.kind in ('fluxes', 'nmgy', 'mags') else photo.band,
              S.psf(rng, pick(rng, psf_kinds)), zoo.sky(rng, W, H, 'null'), W, H)
    mg = 4 if im.psf.zoo_kind in S.GAUSS else -3
    x, y = float(rng.uniform(-mg, W - 1 + mg)), float(rng.uniform(-mg, H - 1 + mg))
    if im.psf.zoo_kind not in S.GAUSS:
        x, y = [float(np.floor(v)) + float(pick(rng, [rng.uniform(-0.4, 0.4), 0.])) for v in (x, y)]
    src = make_source(rng, astro, photo, kind, x, y)
    if kind == 'moving':
        from tractor.tractortime import TAITime
        im.img.time = TAITime(None, mjd=57000. + float(rng.uniform(-400, 400)))
    return kind, im, src, x, y


def compare(m, im, src, derivs, ref, ok_pos, ok, names, kind, what, xy):
    for j, (A, tol, sc) in enumerate(ref):
        g = np.zeros((im.H, im.W))
        d = derivs[j]
        if d is not None:
            d.addTo(g)
            m.check(np.all(np.isfinite(d.patch)), 'finite', 'derivative %s not finite' % names[j])
        else:
            m.event('absent')
        good = ok_pos if 'pos' in names[j] else ok
        if what == 'unmasked':
            yy, xx = np.mgrid[0:im.H, 0:im.W]
            near = np.maximum(abs(xx - xy[0]), abs(yy - xy[1])) < 5
            good = good & (near if d is None else near | interior(im, d.getExtent(), 2))
            # nominal extents (and FFT boxes) differ between the steps
            if im.psf.zoo_kind not in S.GAUSS and ('shape' in names[j] or 'index' in names[j]):
                if kind not in ('exp', 'gauss'):
                    # (the wings wrap around FFT boxes of different sizes)
                    continue
                tol = tol + 1.5 * sc
            else:
                tol = tol + (0.6 if 'index' in names[j] else 0.04) * sc
        bad = good & ~(np.abs(g - A) <= tol)
        m.oracles += 1
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(bad, np.abs(g - A) / tol, 0)), g.shape)
            m.fail('derivative', 'derivative of %s (%s) with respect to %s at pixel %s: got %r, true value %r, tolerance %r'
                   % (kind, what, names[j], i[::-1], g[i], A[i], tol[i]), nbad=int(bad.sum()), npix=int(good.sum()),
                   params=src.getParams(), psf=im.psf.zoo_kind, absent=d is None)
        m.event('derivative')
        if what == 'masked':
            m.event('masked derivative')


def sources(kinds, psf_kinds):
    def f(m, rng):
        try:
            g(m, rng)
        except RuntimeError as e:
            # (galaxies with a purely pixelized PSF must be centred on the image)
            if 'sourceOut' not in str(e):
                raise
            raise Skip('sourceOut')

    def g(m, rng):
        kind, im, src, x, y = setup(rng, kinds, psf_kinds)
        freeze(rng, src)
        n = src.numberOfParams()
        if chance(rng, 0.1):
            # zero or negative flux
            z = pick(rng, [0., -1.])
            for b in src.getBrightnesses() if hasattr(src, 'getBrightnesses') else [src.brightness]:
                if im.photo.kind != 'mags':
                    b.setParams([z * v for v in b.getParams()])
            m.event('zero flux' if z == 0 else 'negative flux')
        if chance(rng, 0.25):
            # steps are the user's to choose, in either direction
            for b in src.getBrightnesses() if hasattr(src, 'getBrightnesses') else [src.brightness]:
                st = b.getStepSizes()
                if b.numberOfParams() == len(b.getAllParams()):
                    b.setStepSizes([-v for v in st])
                    m.event('reversed step')
        names = src.getParamNames()
        fullmask = full(im)
        before = (snapshot(src), src.getParams(), snapshot(im.img))
        m.op(kind, src, im.psf.zoo_kind, names)
        ref = truth(m, src, im, fullmask)
        m.equal((snapshot(src), src.getParams(), snapshot(im.img)), before, 'harness', 'harness left parameters alone')
        # whole-image mask: same footprint as the reference
        px = x, y
        masked = chance(rng, 0.5)
        if masked:
            if chance(rng, 0.4):
                mm = fullmask
            else:
                a, b = max(0, int(x) - int(rng.integers(3, 12))), max(0, int(y) - int(rng.integers(3, 12)))
                w, h = int(rng.integers(8, 24)), int(rng.integers(8, 24))
                w, h = min(w, im.W - a), min(h, im.H - b)
                if w < 4 or h < 4:
                    mm = fullmask
                else:
                    mm = ModelMask(a, b, w, h)
            if im.psf.zoo_kind not in S.GAUSS and not (mm.x0 + 2 <= x < mm.x0 + mm.w - 3 and mm.y0 + 2 <= y < mm.y0 + mm.h - 3):
                mm = fullmask
            ext = (mm.x0, mm.x0 + mm.w, mm.y0, mm.y0 + mm.h)
            if mm is not fullmask:
                ref = truth(m, src, im, mm)
        else:
            mm = None
            p = src.getModelPatch(im.img)
            ext = p.getExtent() if p is not None else None
        kw = {}
        if kind == 'pt' and chance(rng, 0.4):
            # positions stepped instead of the PSF's own derivatives
            kw = dict(fastPosDerivs=False)
            src.pos.symmetric_derivs = chance(rng, 0.5)
            m.event('stepped position')
        derivs = src.getParamDerivatives(im.img, modelMask=mm, **kw)
        m.equal(len(derivs), n, 'count', 'number of derivatives vs thawed parameters')
        m.equal((snapshot(src), src.getParams(), snapshot(im.img)), before, 'side-effect', 'computing derivatives changed a parameter')
        for d in derivs:
            if d is not None and masked:
                e = d.getExtent()
                m.check(e[0] >= ext[0] and e[1] <= ext[1] and e[2] >= ext[2] and e[3] <= ext[3], 'mask-extent', 'derivative leaves the mask')
        if ext is not None:
            ok_pos = interior(im, ext, 3)
            ok = interior(im, ext, 0 if masked else 2)
            if not masked:
                # nominal extents differ between components and steps: stay well inside
                yy, xx = np.mgrid[0:im.H, 0:im.W]
                ok &= ok_pos | (np.maximum(abs(xx - x), abs(yy - y)) < 5)
            compare(m, im, src, derivs, ref, ok_pos, ok, names, kind, 'masked' if masked else 'unmasked', (x, y))
        # asking again gives the same answer
        d2 = src.getParamDerivatives(im.img, modelMask=mm, **kw)
        for a, b in zip(derivs, d2):
            m.check((a is None) == (b is None) and (a is None or (a.getExtent() == b.getExtent() and np.array_equal(a.patch, b.patch))),
                    'repeat', 'a second evaluation differs')
        m.state(kind, im.psf.zoo_kind, im.astro.kind, im.photo.kind, tuple(names), masked)
    return f


def floor(m, rng):
    """With a minimum surface brightness, derivatives may lose pixels fainter than it, and no others."""
    kind, im, src, x, y = setup(rng, ['pt', 'exp', 'dev', 'gauss'], S.GAUSS)
    if im.photo.kind == 'mags':
        raise Skip('not linear')
    counts = im.img.getPhotoCal().brightnessToCounts(src.brightness)
    if not 1e-3 < counts < 1e8:
        raise Skip('flux')
    fullmask = full(im)
    names = src.getParamNames()
    im.img.modelMinval = 0.
    A = src.getParamDerivatives(im.img, modelMask=fullmask)
    sb = loguni(rng, 1e-5, 1e-2) * max(np.abs(src.getModelPatch(im.img, modelMask=fullmask).patch).max(), 1e-9)
    im.img.modelMinval = sb
    D = src.getParamDerivatives(im.img)
    m.equal(len(D), len(names), 'count', 'number of derivatives')
    for nm, a, d in zip(names, A, D):
        if 'brightness' not in nm or a is None:
            continue
        g, t = np.zeros((im.H, im.W)), np.zeros((im.H, im.W))
        a.addTo(t)
        if d is not None:
            d.addTo(g)
        # (counts per unit of the parameter times the floor in units of the profile; several Gaussians each)
        lim = sb * np.abs(t).max() / max(np.abs(src.getModelPatch(im.img, modelMask=fullmask).patch).max(), 1e-30)
        yy, xx = np.mgrid[0:im.H, 0:im.W]
        near = np.maximum(abs(xx - x), abs(yy - y)) < 5
        m.check(np.all(np.abs(g - t)[near] <= 12 * lim + 1e-5 * np.abs(t).max()), 'floor', 'flux derivative (%s) with a surface brightness floor' % nm,
                worst=float(np.max(np.abs(g - t)[near])), floor=lim, kind=kind, counts=counts)
        m.event('floored derivative')
    im.img.modelMinval = 0.
    m.state('floor', kind, im.psf.zoo_kind)


def far(m, rng):
    """Sources that do not reach the image (or the mask) have no derivatives, and say so per parameter."""
    kind, im, src, x, y = setup(rng, ['pt', 'exp', 'comp', 'fcomp', 'moving', 'sersic', 'sercore'],
                                ['pix', 'npix'] if chance(rng, 0.5) else S.GAUSS)
    freeze(rng, src)
    mm = None
    if chance(rng, 0.5) and im.psf.zoo_kind not in S.GAUSS and kind in ('pt', 'moving'):
        mm = ModelMask(int(x) + 40, int(y), 5, 6)
    else:
        d = 300.
        src.pos.setAllParams(im.astro.pos(x + d, y - d).getAllParams())
    if kind not in ('pt', 'moving') and im.psf.zoo_kind not in S.GAUSS:
        raise Skip('sourceOut')
    derivs = src.getParamDerivatives(im.img, modelMask=mm)
    m.equal(len(derivs), src.numberOfParams(), 'count', 'number of derivatives of an out-of-reach source')
    z = np.zeros((im.H, im.W))
    for d in derivs:
        if d is not None:
            d.addTo(z)
    m.check(np.abs(z).max() < 1e-3, 'far', 'derivative of an out-of-reach source')
    m.event('absent')
    m.state('far', kind, im.psf.zoo_kind, mm is None)


def tractors(m, rng):
    try:
        tractors_(m, rng)
    except RuntimeError as e:
        # (galaxies with a purely pixelized PSF must be centred on the image)
        if 'sourceOut' not in str(e):
            raise
        raise Skip('sourceOut')


def tractors_(m, rng):
    """Tractor.getDerivs: one entry per thawed parameter of images and sources, in order, attached to the right image."""
    tr, ims, srcs = S.scene(rng, nsrc=int(rng.integers(1, 4)), psf_kinds=list(S.GAUSS) + ['pix'], sky_kinds=['null', 'const', 'spline'],
                            size=(18, 30), margin=-3, rmax=1.5)
    tr.modtype = np.float64
    for im in ims:
        for nm in ('psf', 'photocal', 'sky', 'wcs'):
            if nm in im.img.getNamedParams() and chance(rng, 0.5):
                im.img.freezeParam(nm)
    for i in range(len(ims)):
        if chance(rng, 0.25):
            tr.images.freezeParam(i)
    r = rng.random()
    if r < 0.15:
        tr.freezeParam('images')
    elif r < 0.25:
        tr.freezeParam('catalog')
    for s in srcs:
        freeze(rng, s)
        if chance(rng, 0.2):
            tr.catalog.freezeParam(srcs.index(s))
    n = tr.numberOfParams()
    if n == 0:
        return
    use_masks = chance(rng, 0.4)
    if use_masks:
        masks = []
        for im in ims:
            d = {}
            for s in srcs:
                if chance(rng, 0.85):
                    d[s] = full(im)
            masks.append(d)
        tr.setModelMasks(masks)
    p0 = tr.getParams()
    st = (snapshot(tr.images), snapshot(tr.catalog), list(p0))
    dd = tr.getDerivs()
    m.equal((snapshot(tr.images), snapshot(tr.catalog), tr.getParams()), st, 'side-effect', 'getDerivs changed a parameter')
    m.equal(len(dd), n, 'count', 'entries of getDerivs vs thawed parameters')
    names = tr.getParamNames()
    steps = tr.getStepSizes()
    imgs = [im.img for im in ims]
    J = sorted(set(int(j) for j in rng.integers(0, n, 8)))
    for j in J:
        seen = []
        for d, img in dd[j]:
            m.check(any(img is i for i in imgs), 'image', 'derivative attached to an unknown image')
            seen.append([k for k, i in enumerate(imgs) if i is img][0])
        m.equal(len(seen), len(set(seen)), 'image-once', 'an image appears twice for one parameter')
        isimg = names[j].startswith('images')
        if not isimg:
            continue
        h = steps[j]
        for k, im in enumerate(ims):
            def M(dlt):
                q = list(p0)
                q[j] += dlt
                tr.setParams(q)
                mod = tr.getModelImage(im.img)
                tr.setParams(p0)
                return mod.astype(float)
            hs = 0.2 * abs(h)
            A = (M(hs) - M(-hs)) / (2 * hs)
            F0 = M(0.)
            V = np.maximum(abs((M(h) - F0) / h - A), abs((F0 - M(-h)) / h - A))
            sc = abs(A).max()
            g = np.zeros(A.shape)
            for d, img in dd[j]:
                if img is im.img and d is not None and d is not False:
                    d.addTo(g)
            tol = 2 * V + 0.05 * V.max() + 0.01 * sc + 3e-6 * abs(F0).max() / hs
            m.check(np.all(np.abs(g - A) <= tol), 'image-derivative', 'derivative of image %d with respect to %s' % (k, names[j]),
                    worst=float(np.max(np.abs(g - A) - tol)), scale=sc, name=names[j])
            m.event('image derivative')
    # source parameters: the same patches as asking the source itself
    base = tr.numberOfParams() - (0 if tr.isParamFrozen('catalog') else tr.catalog.numberOfParams())
    if not tr.isParamFrozen('catalog'):
        j = base
        for s in tr.catalog.getThawedSources():
            own = []
            for k, im in enumerate(ims):
                mk = masks[k].get(s) if use_masks else None
                if use_masks and mk is None:
                    own.append([None] * s.numberOfParams())
                else:
                    own.append(s.getParamDerivatives(im.img, modelMask=mk))
            for q in range(s.numberOfParams()):
                for k, im in enumerate(ims):
                    got = [d for d, img in dd[j + q] if img is im.img]
                    want = own[k][q]
                    m.check(len(got) == (0 if want is None else 1) or (want is None and got == [None]), 'entry',
                            'entries for %s in image %d' % (names[j + q], k))
                    if want is not None:
                        m.check(got[0].getExtent() == want.getExtent() and np.array_equal(got[0].patch, want.patch), 'order',
                                'derivative of %s is filed under another parameter' % names[j + q])
                        m.event('derivative')
            j += s.numberOfParams()
        m.equal(j, n, 'count', 'source parameters')
    m.state('tractor', tuple(sorted(set(x.split('.')[-1] for x in names))), len(ims), use_masks)


SCENARIOS = {
    'gaussian PSF': (sources(KINDS, S.GAUSS), 260, 6000),
    'pixelized PSF': (sources(['pt', 'pt', 'exp', 'dev', 'fcomp', 'comp', 'gauss', 'sersic'], ['pix', 'npix', 'hybrid']), 140, 3000),
    'out of reach': (far, 80, 800),
    'floor': (floor, 60, 1500),
    'tractors': (tractors, 120, 2500),
}
QUICK = 5
