"""C05: rendering through model masks equals the unmasked model on the mask's pixels."""
import numpy as np
import scene
import zoo
from zoo import pick, chance, loguni
from tractor import Tractor, ModelMask

RULE = ('random scenes x random model masks (rectangles and boolean masks, also off-centre, one pixel wide, '
        'touching the frame); distinct by (psf, source kind, mask kind, mask shape class)')
NEED = {'masked patch': 300, 'boolean mask': 100, 'tractor masks': 60, 'source without mask': 20,
        'wide, centre outside the mask': 200, 'wide, centre in the mask': 100, 'wide, out of reach': 20}


def rand_mask(rng, im, x, y, contain):
    """-> (x0,x1,y0,y1), bool array or None"""
    W, H = im.W, im.H
    if contain:
        # the mask contains the source centre (with a pixel to spare)
        cx, cy = int(np.floor(x)), int(np.floor(y))
        x0 = int(rng.integers(max(0, cx - 14), cx + 1))
        x1 = int(rng.integers(min(W, cx + 2), min(W, cx + 16) + 1))
        y0 = int(rng.integers(max(0, cy - 14), cy + 1))
        y1 = int(rng.integers(min(H, cy + 2), min(H, cy + 16) + 1))
    else:
        x0, x1 = sorted(int(v) for v in rng.choice(W + 1, 2, replace=False))
        y0, y1 = sorted(int(v) for v in rng.choice(H + 1, 2, replace=False))
        if chance(rng, 0.15):
            x1 = x0 + 1
        if chance(rng, 0.15):
            y1 = y0 + 1
        if chance(rng, 0.1):
            x0, x1, y0, y1 = 0, W, 0, H
    M = None
    if chance(rng, 0.5):
        M = rng.random((y1 - y0, x1 - x0)) < rng.uniform(0.2, 1.)
        M.flat[int(rng.integers(M.size))] = True
    return (x0, x1, y0, y1), M


def needs_centre(im, s):
    return s.zoo_kind != 'pt' and im.psf.zoo_kind not in scene.GAUSS


def mk(ext, M):
    x0, x1, y0, y1 = ext
    if M is None:
        return ModelMask.fromExtent(x0, x1, y0, y1) if (x0 + y0) % 2 else ModelMask(x0, y0, x1 - x0, y1 - y0)
    return ModelMask(x0, y0, M)


def expect(im, s, ext, M):
    """(reference, tolerance, how much may be missing at pixels the mask leaves out)"""
    r = np.zeros((im.H, im.W))
    ab = np.zeros((im.H, im.W))
    t = np.zeros((im.H, im.W))
    for a, b in im.models(s, mask=ext):
        r = r + a
        t = t + b
        ab = ab + np.abs(a)
    free = np.zeros(r.shape)
    if M is not None:
        x0, x1, y0, y1 = ext
        free[y0:y1, x0:x1] = np.where(M, 0., ab[y0:y1, x0:x1])
    return r, t, free


def inframe(im, s):
    x, y = im.frame.xy(s.getPosition())
    return 0 <= x < im.W - 1.001 and 0 <= y < im.H - 1.001


def patches(m, rng):
    tr, ims, srcs = scene.scene(rng, nim=1, nsrc=int(rng.integers(1, 4)), linear=False, signed=0.1, margin=3, rmax=2.5)
    im = ims[0]
    floor = 0.
    if chance(rng, 0.3):        # a floor below which a model need not be rendered
        floor = im.img.modelMinval = loguni(rng, 1e-4, 1.)
        m.event('floor')
    for s in srcs:
        x, y = im.frame.xy(s.getPosition())
        for k in range(4):
            nc = needs_centre(im, s)
            if nc and not inframe(im, s):
                continue
            ext, M = rand_mask(rng, im, x, y, nc)
            m.op('mask', ext, M is not None, s.zoo_kind, im.psf.zoo_kind)
            mask = mk(ext, M)
            M0 = None if M is None else M.copy()
            p = s.getModelPatch(im.img, modelMask=mask)
            if M is not None:
                m.check(np.array_equal(M, M0), 'mask changed', 'rendering modified the mask')
                m.event('boolean mask')
            r, t, free = expect(im, s, ext, M)
            t = t + 1.01 * floor * (2 if s.zoo_kind == 'comp' else 1)
            z = np.zeros((im.H, im.W))
            if p is not None:
                m.equal(tuple(int(v) for v in p.getExtent()), tuple(ext), 'extent', 'patch extent = mask extent',
                        psf=im.psf.zoo_kind, src=s.zoo_kind)
                m.equal(tuple(p.patch.shape), (ext[3] - ext[2], ext[1] - ext[0]), 'shape', 'patch shape')
                p.addTo(z)
                m.event('masked patch')
            ok = np.abs(z - r) <= t + free
            m.check(ok.all(), 'value', 'masked rendering differs from the unmasked model',
                    n=int((~ok).sum()), worst=float(np.max(np.abs(z - r) / np.maximum(t, 1e-30))),
                    psf=im.psf.zoo_kind, src=s.zoo_kind, ext=ext, hasmask=M is not None,
                    peak=float(np.abs(r).max()), none=p is None)
            m.state(im.psf.zoo_kind, s.zoo_kind, M is not None, ext[1] - ext[0] == 1, ext[3] - ext[2] == 1,
                    (ext[0] == 0, ext[1] == im.W, ext[2] == 0, ext[3] == im.H), im.astro.kind)


def unit_patches(m, rng):
    """The unit-flux patch used by forced photometry sums and obeys the same mask."""
    tr, ims, srcs = scene.scene(rng, nim=1, nsrc=1, src_kinds=['pt', 'exp', 'dev', 'gauss', 'fcomp'], margin=-3, rmax=2.,
                                photo_kind='flux')
    im, s = ims[0], srcs[0]
    if not inframe(im, s):
        return
    x, y = im.frame.xy(s.getPosition())
    ext, M = rand_mask(rng, im, x, y, needs_centre(im, s))
    mask = mk(ext, M)
    u = s.getUnitFluxModelPatch(im.img, modelMask=mask)
    us = s.getUnitFluxModelPatches(im.img, modelMask=mask)
    m.equal(len(us), 1, 'unit patches', 'one unit-flux patch')
    p = s.getModelPatch(im.img, modelMask=mask)
    c = im.counts(s.getBrightness())
    if u is None:
        m.check(p is None and us[0] is None, 'unit none', 'unit-flux and model patch agree on existence')
        return
    sc = np.max(np.abs(u.patch), initial=1e-30)
    m.equal(tuple(int(v) for v in u.getExtent()), tuple(ext), 'extent', 'unit patch extent')
    m.scaled_close(us[0].patch, u.patch, 'unit patches', 'getUnitFluxModelPatches', tol=1e-6, scale=sc)
    m.scaled_close(p.patch / c, u.patch, 'unit scale', 'model = counts x unit-flux model', tol=1e-5, scale=sc)
    m.event('masked patch')


def tractor_masks(m, rng):
    tr, ims, srcs = scene.scene(rng, nim=int(rng.integers(1, 3)), nsrc=int(rng.integers(2, 5)), linear=False,
                                margin=0, rmax=2.)
    tr.modtype = np.float64
    before = [tr.getModelImage(i) for i in range(len(ims))]
    masks, info = [], []
    for im in ims:
        d, e = {}, {}
        for s in srcs:
            if chance(rng, 0.25):
                continue
            nc = needs_centre(im, s)
            if nc and not inframe(im, s):
                continue
            x, y = im.frame.xy(s.getPosition())
            e[s] = rand_mask(rng, im, x, y, nc)
            d[s] = mk(*e[s])
        masks.append(d)
        info.append(e)
    assume = chance(rng, 0.6)
    tr.setModelMasks(masks, assumeMasks=assume)
    for i, im in enumerate(ims):
        mod = tr.getModelImage(i)
        r = im.sky_model()
        t = 1e-6 * np.abs(r) + 1e-9
        slack = np.zeros(r.shape)
        for s in srcs:
            if s in info[i]:
                a, b, free = expect(im, s, *info[i][s])
                r = r + a
                t = t + b
                slack = slack + free
            else:
                m.event('source without mask')
                if assume:
                    m.check(tr.getModelPatch(im.img, s) is None, 'assumed outside',
                            'a source without a mask is taken not to touch the image')
                else:
                    for a, b in im.models(s):
                        r = r + a
                        t = t + b
        t = t + 1e-6 * np.max(np.abs(r))
        ok = np.abs(mod - r) <= t + slack
        m.check(ok.all(), 'tractor', 'model image with model masks', n=int((~ok).sum()), assume=assume,
                psf=im.psf.zoo_kind, worst=float(np.max(np.abs(mod - r) / (t + slack))))
        # pixels in no mask show bare sky
        if assume:
            touched = np.zeros(r.shape, bool)
            for s in info[i]:
                x0, x1, y0, y1 = info[i][s][0]
                touched[y0:y1, x0:x1] = True
            sk = im.sky_model()
            m.close(mod[~touched], sk[~touched], 'leak', 'nothing is rendered outside the masks', rtol=1e-6,
                    atol=1e-6 * np.max(np.abs(sk), initial=1e-3))
        der = getattr(tr, '_getSourceDerivatives', None) or (lambda s, i: s.getParamDerivatives(i, modelMask=tr.getModelMaskFor(i, s)))
        for s in srcs:
            for D in (der(s, im.img) if s in info[i] or assume else []):
                if D is None or D.patch is None:
                    continue
                if s in info[i]:
                    x0, x1, y0, y1 = info[i][s][0]
                    X0, X1, Y0, Y1 = D.getExtent()
                    m.check(X0 >= x0 and X1 <= x1 and Y0 >= y0 and Y1 <= y1, 'derivative extent',
                            'derivative reaches outside the model mask')
                elif assume:
                    m.fail('derivative without mask', 'source without mask has derivatives')
        m.event('tractor masks')
        m.state(assume, im.psf.zoo_kind, len(info[i]), tuple(s.zoo_kind for s in srcs))
    tr.setModelMasks(None)
    for i in range(len(ims)):
        m.scaled_close(tr.getModelImage(i), before[i], 'reset', 'clearing the masks restores the model', tol=1e-9)


def wide(m, rng):
    """Galaxies comparable to or larger than the image, on masks that need not contain them."""
    tr, ims, srcs = scene.scene(rng, nim=1, nsrc=2, margin=10, rmin=0.6, rmax=40., size=(16, 40),
                                psf_kinds=['hybrid', 'hybrid', 'gm'], src_kinds=['exp', 'dev', 'gauss', 'fcomp', 'comp'])
    im = ims[0]
    for s in srcs:
        x, y = im.frame.xy(s.getPosition())
        for k in range(3):
            ext, M = rand_mask(rng, im, x, y, chance(rng, 0.5) and inframe(im, s))
            M = None
            m.op('wide', ext, s.zoo_kind, im.psf.zoo_kind)
            p = s.getModelPatch(im.img, modelMask=mk(ext, M))
            r, t, near, nres = scene.wide_model(im, s, ext)
            z = np.zeros((im.H, im.W))
            if p is not None:
                p.addTo(z)
            ok = np.abs(z - r) <= t
            m.check(ok.all(), 'wide value', 'masked rendering of a wide galaxy differs from the reference',
                    n=int((~ok).sum()), worst=float(np.max(np.abs(z - r) / np.maximum(t, 1e-30))), none=p is None,
                    psf=im.psf.zoo_kind, src=s.zoo_kind, ext=ext, near=near, nres=nres, peak=float(np.abs(r).max()))
            m.event('wide, centre outside the mask' if near > 0 else 'wide, centre in the mask')
            if p is None:
                m.event('wide, out of reach')
            m.state('wide', im.psf.zoo_kind, s.zoo_kind, near > 0, p is None, im.astro.kind, int(np.log2(max(nres))))


SCENARIOS = {
    'wide galaxies': (wide, 100, 2000),
    'patches': (patches, 300, 5000),
    'unit patches': (unit_patches, 200, 3000),
    'tractor masks': (tractor_masks, 130, 2000),
}
QUICK = 2
