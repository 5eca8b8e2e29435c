"""C20: cutting an image up does not change its model, residuals or likelihood."""
import numpy as np

import scene as S
import zoo
from zoo import pick, chance, loguni
from monitor import Skip
from checks.c12_priors import freeze_some
from tractor import Tractor, Image, TanWcs, ShiftedWcs, PointSource, PixPos, Flux
from tractor.tractortime import TAITime

RULE = 'random scenes and cuts (nested, at edges, source in or out of the cut); distinct by (psf, sky, cut, sources)'
NEED = {'cut': 150, 'nested': 40, 'tiling': 30, 'source outside': 40, 'spline sky': 20, 'derivative': 200, 'edit': 60, 'pixelized': 30, 'galaxy': 60, 'moving': 40}


def build(m, rng):
    kw = {}
    if chance(rng, 0.35):
        kw['src_kinds'] = ['pt']
    else:
        kw['psf_kinds'] = ['gm', 'nc', 'gme', 'hybrid']
    tr, ims, srcs = S.scene(rng, size=(22, 50), nim=int(rng.integers(1, 3)), linear=False, margin=4, **kw)
    for im in ims:
        mod = np.array(tr.getModelImage(im.img), float)
        im.img.data[:] = (mod + rng.normal(size=mod.shape)).astype(np.float32)
        if im.psf.zoo_kind not in S.GAUSS:
            m.event('pixelized')
        if type(im.img.sky).__name__ == 'SplineSky':
            m.event('spline sky')
    if any(s.zoo_kind != 'pt' for s in srcs):
        m.event('galaxy')
    return tr, ims, srcs


def cut(rng, W, H, smallest=5):
    x0 = int(rng.integers(0, W - smallest))
    y0 = int(rng.integers(0, H - smallest))
    x1 = int(rng.integers(x0 + smallest, W + 1))
    y1 = int(rng.integers(y0 + smallest, H + 1))
    if chance(rng, 0.2):
        x0, y0 = 0, 0
    if chance(rng, 0.2):
        x1, y1 = W, H
    return x0, x1, y0, y1


def quality(im, srcs):
    """Tolerance of a rendering relative to its peak: analytic PSFs are exact, Fourier ones wrap their tails around."""
    if im.psf.zoo_kind in S.GAUSS:
        return 3e-6
    if all(s.zoo_kind == 'pt' for s in srcs):
        return 1e-5
    return 3e-3


def amp(im, srcs):
    return sum(abs(im.counts(b)) for s in srcs for b in s.getBrightnesses()) + 1e-3


def render(tr, img, *a, **k):
    try:
        return np.array(tr.getModelImage(img, *a, **k), float)
    except RuntimeError as e:
        if 'sourceOut' in str(e):
            raise Skip
        raise


def outside_tol(im, srcs, H, W, key):
    """Beyond the nominal extent of a source a model may stop anywhere."""
    tol = np.zeros((H, W))
    for s in srcs:
        for r, t in im.models(s):
            tol += 2 * t
    return tol


def sc_cut(m, rng):
    tr, ims, srcs = build(m, rng)
    k = int(rng.integers(len(ims)))
    im = ims[k]
    img = im.img
    if chance(rng, 0.4):
        freeze_some(rng, tr, 0.3)
    img.name = 'parent'
    img.time = TAITime(None, mjd=float(rng.uniform(50000, 60000)))
    img.modelMinval = pick(rng, [0., 0., 1e-6])
    full = render(tr, img)
    chi = np.array(tr.getChiImage(img=img), float)
    q = quality(im, srcs) * amp(im, srcs)
    tol = outside_tol(im, srcs, im.H, im.W, k) + q + 1e-6 * np.abs(full)
    x0, x1, y0, y1 = cut(rng, im.W, im.H)
    slc = (slice(y0, y1), slice(x0, x1))
    state = list(img.getParamStateRecursive())
    if x1 == im.W and y1 == im.H and chance(rng, 0.4):
        # a region that reaches over the edge has the pixels there are
        sub = img.subimage(x0, x1 + int(rng.integers(0, 30)), y0, y1 + int(rng.integers(0, 30)))
        m.event('over the edge')
    else:
        sub = img.subimage(x0, x1, y0, y1)
    m.event('cut')
    m.op('subimage', x0, x1, y0, y1)
    ox, oy = x0, y0
    if chance(rng, 0.4) and x1 - x0 > 8 and y1 - y0 > 8:
        a0, a1, b0, b1 = cut(rng, x1 - x0, y1 - y0, 4)
        sub = sub.subimage(a0, a1, b0, b1)
        slc = (slice(y0 + b0, y0 + b1), slice(x0 + a0, x0 + a1))
        ox, oy = x0 + a0, y0 + b0
        m.event('nested')
        m.op('subimage', a0, a1, b0, b1)
    h, w = slc[0].stop - slc[0].start, slc[1].stop - slc[1].start
    m.equal(tuple(sub.shape), (h, w), 'c20.shape', 'size of a cut')
    m.check(np.array_equal(sub.data, img.data[slc]) and np.array_equal(sub.inverr, img.inverr[slc]), 'c20.data', 'a cut has the pixels of its region')
    m.equal((sub.name, sub.modelMinval), (img.name, img.modelMinval), 'c20.attrs', 'a cut keeps name and approximation level')
    m.check(sub.getTime() is not None and sub.getTime().getValue() == img.time.getValue(), 'c20.attrs', 'a cut keeps the time of the image', got=repr(sub.getTime()))
    m.equal(list(sub.getParamStateRecursive()), state, 'c20.freeze', 'a cut keeps what is frozen')
    m.close(sub.getAllParams(), img.getAllParams(), 'c20.params', 'a cut keeps calibration parameters', rtol=1e-9, atol=1e-11)
    m.equal(list(img.getParamStateRecursive()), state, 'c20.freeze', 'cutting does not change the parent')
    # same positions
    for s in srcs:
        px, py = img.wcs.positionToPixel(s.getPosition(), s)
        qx, qy = sub.wcs.positionToPixel(s.getPosition(), s)
        m.close([qx + ox, qy + oy], [px, py], 'c20.wcs', 'pixel positions move by the origin of the cut', rtol=0, atol=1e-6)
        if not (0 <= qx < w and 0 <= qy < h):
            m.event('source outside')
    # (a source whose centre is outside the parent frame is rendered only if near; the same holds for the cut,
    #  so compare through a tractor over the cut)
    ts = Tractor([sub], srcs)
    mod = render(ts, sub)
    ok = np.abs(mod - full[slc]) <= tol[slc]
    m.check(np.all(ok), 'c20.model', 'the model of a cut is the cut of the model',
            worst=float(np.max(np.abs(mod - full[slc]) - tol[slc])), at=str(np.argwhere(~ok)[:1].tolist()), psf=im.psf.zoo_kind,
            srcs=[s.zoo_kind for s in srcs], peak=float(np.abs(full).max()))
    sky = render(ts, sub, [], sky=True)
    sk = render(tr, img, [], sky=True)
    m.close(sky, sk[slc], 'c20.sky', 'the sky of a cut is the cut of the sky', rtol=1e-5, atol=1e-5 * (np.abs(sk).max() + 1e-9))
    c2 = np.array(ts.getChiImage(img=sub), float)
    m.check(np.all(np.abs(c2 - chi[slc]) <= tol[slc] * img.inverr[slc] + 1e-5 * (1 + np.abs(chi[slc]))), 'c20.chi', 'the residuals of a cut are the cut of the residuals')
    # derivatives
    src = pick(rng, srcs)
    if src.numberOfParams():
        try:
            d1 = src.getParamDerivatives(img)
            d2 = src.getParamDerivatives(sub)
        except RuntimeError as e:
            if 'sourceOut' in str(e):
                raise Skip
            raise
        m.equal(len(d2), len(d1), 'c20.deriv', 'number of derivatives')
        for j, (a, b) in enumerate(zip(d1, d2)):
            A, B = canvas(a, im.H, im.W)[slc], canvas(b, h, w)
            if im.psf.zoo_kind not in S.GAUSS and src.zoo_kind != 'pt':
                continue
            sc = np.abs(canvas(a, im.H, im.W)).max()
            # the last rows and columns of a rendered extent are one-sided
            if a is None or b is None:
                # a source too faint in the cut to be rendered at all
                alone = np.abs(render(tr, img, [src], sky=False))[slc].max(initial=0.)
                peak = np.abs(A).max(initial=0.) + np.abs(B).max(initial=0.)
                m.check(alone <= 1e-3 * amp(im, [src]) or peak <= 1e-2 * sc + 1e-9, 'c20.deriv', 'a derivative that vanishes in one vanishes in the other',
                        param=src.getParamNames()[j], model=alone, deriv=peak, scale=sc)
                continue
            inner = tol[slc] < 2 * q + 1e-5 * np.abs(full[slc])
            if src.zoo_kind != 'pt':
                # galaxy position derivatives are differences of the rendered extent:
                # its outermost pixels see zeros outside
                inner = inner.copy()
                e0, e1, f0, f1 = b.getExtent()
                keep = np.zeros_like(inner)
                keep[max(0, f0 + 2, 2):max(0, min(f1, h) - 2), max(0, e0 + 2, 2):max(0, min(e1, w) - 2)] = True
                inner &= keep
                e0, e1, f0, f1 = a.getExtent()
                keep = np.zeros((im.H, im.W), bool)
                keep[max(0, f0 + 2):max(0, f1 - 2), max(0, e0 + 2):max(0, e1 - 2)] = True
                inner &= keep[slc]
            bad = (np.abs(A - B) > 1e-2 * sc + 1e-12) & inner
            m.check(not bad.any(), 'c20.deriv', 'the derivative of a cut is the cut of the derivative', param=src.getParamNames()[j],
                    worst=float(np.max(np.abs(A - B)[inner], initial=0.)), scale=float(sc), kind=src.zoo_kind, psf=im.psf.zoo_kind)
            m.event('derivative')
    # independent freeze states
    was = [img.isParamThawed(nm) for nm in ('psf', 'wcs', 'photocal', 'sky')]
    for nm in ('psf', 'wcs', 'photocal', 'sky'):
        (sub.freezeParam if sub.isParamThawed(nm) else sub.thawParam)(nm)
    m.equal([img.isParamThawed(nm) for nm in ('psf', 'wcs', 'photocal', 'sky')], was, 'c20.alias', 'freezing parts of a cut leaves the parent alone')
    for nm in ('psf', 'wcs', 'photocal', 'sky'):
        (sub.freezeParam if sub.isParamThawed(nm) else sub.thawParam)(nm)
    # independent pixels
    before = img.data.copy(), img.inverr.copy()
    sub.data[:] += 1.
    sub.inverr[:] *= 2.
    m.check(np.array_equal(img.data, before[0]) and np.array_equal(img.inverr, before[1]), 'c20.alias', 'changing the pixels of a cut leaves the parent alone')
    # independent calibration where it is position dependent
    for nm in ('sky', 'wcs', 'photocal'):
        a, b = getattr(sub, nm), getattr(img, nm)
        if a.numberOfParams():
            v = list(b.getAllParams())
            a.setParam(0, a.getParams()[0] * 1.01 + 0.01)
            m.equal(list(b.getAllParams()), v, 'c20.alias', 'changing the calibration of a cut leaves the parent alone', what=nm)
            m.event('edit')
    m.state(im.psf.zoo_kind, type(img.sky).__name__, (ox, oy, w, h), tuple(s.zoo_kind for s in srcs))


def canvas(p, H, W):
    a = np.zeros((H, W))
    if p is not None and p.patch is not None:
        c = p.copy()
        c.clipTo(W, H)
        if c.patch is not None and c.patch.size:
            a[c.getSlice()] = np.asarray(c.patch, float)
    return a


def sc_tiling(m, rng):
    """The log-likelihood of an image is the sum over its tiles."""
    tr, ims, srcs = build(m, rng)
    im = ims[0]
    img = im.img
    render(tr, img)
    xs = sorted(set([0, im.W] + [int(v) for v in rng.integers(4, im.W - 3, int(rng.integers(1, 3)))]))
    ys = sorted(set([0, im.H] + [int(v) for v in rng.integers(4, im.H - 3, int(rng.integers(1, 3)))]))
    subs = [img.subimage(a, b, c, d) for a, b in zip(xs, xs[1:]) for c, d in zip(ys, ys[1:])]
    one = Tractor([img], srcs)
    many = Tractor(subs, srcs)
    try:
        L1, L2 = one.getLogLikelihood(), many.getLogLikelihood()
    except RuntimeError as e:
        if 'sourceOut' in str(e):
            raise Skip
        raise
    # differences beyond nominal extents, weighted by the residuals
    chi = np.array(one.getChiImage(img=img), float)
    t = (outside_tol(im, srcs, im.H, im.W, 0) + quality(im, srcs) * amp(im, srcs)) * img.inverr
    slack = float(np.sum(np.abs(chi) * t + t**2)) + 1e-5 * abs(L1) + 1e-3
    m.check(abs(L1 - L2) <= slack, 'c20.tiling', 'the log-likelihood is the sum over tiles', whole=L1, tiles=L2, slack=slack)
    m.equal(sum(s.numberOfPixels() for s in subs), img.numberOfPixels(), 'c20.tiling', 'tiles cover the image')
    m.event('tiling')
    m.state('tiling', len(subs), im.psf.zoo_kind)


def sc_moving(m, rng):
    """A source that moves is where it should be in a cut of an image taken at some time."""
    from tractor.motion import MovingPointSource, PMRaDec
    W, H = int(rng.integers(25, 50)), int(rng.integers(25, 50))
    astro = zoo.Astro(rng, W, H, kind='tan')
    photo = zoo.Photo(rng, 'nmgy')
    psf = S.psf(rng, pick(rng, ['gm', 'nc', 'gme', 'pix', 'hybrid']))
    im = S.Im(rng, astro, photo, photo.band, psf, zoo.sky(rng, W, H, 'const'), W, H)
    img = im.img
    t0 = float(rng.uniform(50000, 60000))
    dt = float(rng.uniform(-8, 8))
    img.time = TAITime(None, mjd=t0 + dt * 365.25)
    ps = astro.pixscale / 3600.
    pm = PMRaDec(*[float(v) * ps / max(abs(dt), 0.5) for v in rng.uniform(-5, 5, 2)])
    src = MovingPointSource(astro.pos(float(rng.uniform(6, W - 6)), float(rng.uniform(6, H - 6))), photo.brightness(rng), pm,
                            float(rng.uniform(0., 3. * ps * 3600.)), epoch=TAITime(None, mjd=t0))
    img.modelMinval = 0.
    tr = Tractor([img], [src])
    full = np.array(tr.getModelImage(0, sky=False), float)
    x0, x1, y0, y1 = cut(rng, W, H)
    sub = img.subimage(x0, x1, y0, y1)
    mod = np.array(Tractor([sub], [src]).getModelImage(0, sky=False), float)
    a = np.abs(full).max(initial=0.) + abs(photo.counts(src.getBrightness())) * 1e-3
    # (a rendered extent differs by a pixel of a faint wing)
    m.close(mod, full[y0:y1, x0:x1], 'c20.moving', 'a moving source in a cut is the cut of the moving source', rtol=0, atol=3e-5 * a)
    m.event('moving')
    m.state('moving', psf.zoo_kind, dt > 0, (x0, x1, y0, y1))


SCENARIOS = {
    'moving': (sc_moving, 40, 800),
    'cut': (sc_cut, 1400, 20000),
    'tiling': (sc_tiling, 300, 4000),
}
QUICK = 2
