"""C08: PSF models: flux, centroid, translation, extent options, Fourier transform, oversampling, derived PSFs."""
import numpy as np

import ref
import zoo
from zoo import pick, chance, loguni
from tractor import (PixelizedPSF, GaussianMixturePSF, NCircularGaussianPSF, HybridPixelizedPSF, ModelMask)
from tractor.psf import NormalizedPixelizedPsf

RULE = ('random PSFs of every kind, positions (also negative, integer and half-integer), radius/minval/clip options; '
        'distinct by (kind, option, geometry class)')
NEED = {'gauss patch': 150, 'pix patch': 150, 'fourier': 150, 'oversampled': 60, 'clip empty': 5, 'derived': 60, 'radius': 100,
        'masked': 60}


def position(rng):
    def one():
        v = float(rng.uniform(-60, 60))
        r = rng.random()
        if r < 0.15:
            v = float(np.round(v))
        elif r < 0.25:
            v = float(np.round(v)) + 0.5
        return v
    return one(), one()


def canvas(patch, x0, x1, y0, y1):
    z = np.zeros((y1 - y0, x1 - x0))
    if patch is None or patch.patch is None:
        return z
    a = patch.patch
    for j in range(a.shape[0]):
        for_y = patch.y0 + j - y0
        if 0 <= for_y < z.shape[0]:
            xs = np.arange(a.shape[1]) + patch.x0 - x0
            ok = (xs >= 0) & (xs < z.shape[1])
            z[for_y, xs[ok]] += a[j, ok]
    return z


def gaussian(m, rng):
    kind = pick(rng, ['gm', 'nc', 'gme'])
    p = zoo.gm_psf(rng, mean=True) if kind == 'gm' else zoo.psf(rng, kind)
    if kind == 'gm' and chance(rng, 0.4):
        p.radius = pick(rng, [5, 12, 40, 17.3])
    unlimited = False
    px, py = position(rng)
    mix = ref.psf_mix(p)
    opt = pick(rng, ['plain', 'radius', 'minval', 'clip', 'minradius', 'minvalnone'])
    kw = {}
    if opt == 'radius' or chance(rng, 0.2):
        kw['radius'] = int(rng.integers(1, 30))
        m.event('radius')
    if opt == 'minval':
        kw['minval'] = loguni(rng, 1e-8, 1e-3)
    if opt == 'minvalnone':
        kw['minval'] = None
    if opt == 'minradius':
        kw['minval'] = loguni(rng, 1e-8, 1e-3)
        kw['minradius'] = int(rng.integers(1, 8))
    if opt == 'clip':
        if chance(rng, 0.25):
            # out of reach: nothing to render
            d = 150
            kw['clipExtent'] = [int(px) + d, int(px) + d + 10, int(py) - 5, int(py) + 5]
        else:
            a, b = int(px + rng.integers(-12, 8)), int(py + rng.integers(-12, 8))
            kw['clipExtent'] = [a, a + int(rng.integers(1, 40)), b, b + int(rng.integers(1, 40))]
            if chance(rng, 0.5):
                # a small patch that need not reach every side of the window
                kw['radius'] = int(rng.integers(2, 9))
                kw['clipExtent'] = [int(px + rng.integers(-12, 3)), int(px + rng.integers(4, 12)), int(py + rng.integers(-12, 3)), int(py + rng.integers(4, 12))]
    if opt == 'minval' and 'radius' not in kw and kind == 'gm' and chance(rng, 0.5):
        # no radius at all: the floor alone decides the extent
        p.radius = None
        unlimited = True
        m.event('no radius')
    m.op(kind, p.getAllParams(), px, py, kw)
    p0 = list(p.getAllParams())
    pat = p.getPointSourcePatch(px, py, **kw)
    m.equal(list(p.getAllParams()), p0, 'psf-unchanged', 'rendering changed the PSF parameters')
    B = [int(px) - 70, int(px) + 71, int(py) - 70, int(py) + 71]
    full = ref.gauss(mix, *B, px, py)
    got = canvas(pat, *B)
    rad = 1e9 if unlimited else kw.get('radius', p.getRadius())
    yy, xx = np.mgrid[B[2]:B[3], B[0]:B[1]]
    dist = np.maximum(abs(xx - px), abs(yy - py))
    inside = dist <= rad - 0.5
    outside = dist > rad + 2
    if 'clipExtent' in kw:
        xl, xh, yl, yh = kw['clipExtent']
        c = (xx >= xl) & (xx < xh) & (yy >= yl) & (yy < yh)
        inside &= c
        if pat is None or pat.patch is None or pat.patch.size == 0:
            m.event('clip empty')
        else:
            e = pat.getExtent()
            m.check(e[0] >= xl and e[1] <= xh and e[2] >= yl and e[3] <= yh, 'clip', 'patch leaves the clip extent', got=e, clip=kw['clipExtent'])
        outside |= ~c
    mv = kw.get('minval') or 0.
    sc = full.max()
    tol = 5e-6 * sc + 1.01 * mv
    m.check(np.all(np.abs(got - full)[inside] <= tol), 'gauss-value', 'PSF patch differs from the analytic mixture',
            worst=float(np.max(np.abs(got - full)[inside], initial=0.)), scale=sc, kind=kind, kw=kw)
    m.check(not np.any(got[outside]), 'gauss-extent', 'flux outside the requested radius', kw=kw)
    m.check(np.all(got[~outside] <= full[~outside] + 5e-6 * sc), 'gauss-exceeds', 'patch exceeds the PSF')
    if opt == 'minradius' and 'radius' not in kw:
        near = dist <= kw['minradius'] - 1
        m.check(np.all(np.abs(got - full)[near & inside] <= 5e-6 * sc + 1.01 * mv), 'minradius', 'inside the minimum radius')
    if opt in ('plain', 'minvalnone') and not kw.get('radius') and rad >= 12 and max(V[i, i] for a, u, V in mix for i in (0, 1)) < 9.:
        # flux and centroid over the whole patch
        A = sum(a for a, u, V in mix)
        # (a narrow profile sampled at the pixel centres has a slightly different centroid)
        und = 3. * max(np.exp(-2 * np.pi ** 2 * np.linalg.eigvalsh(V)[0]) * (1 + np.sqrt(np.trace(V))) for a, u, V in mix)
        mux = sum(a * u[0] for a, u, V in mix) / A
        muy = sum(a * u[1] for a, u, V in mix) / A
        F = got.sum()
        lost = und + abs(full.sum() - full[dist <= rad - 0.5].sum()) + 1e-5 + abs(full.sum() - A)
        m.check(abs(F - A) <= 2 * lost, 'flux', 'flux of a unit point source', got=F, want=A)
        m.check(abs((got * (xx - px)).sum() / F - mux) < 100 * lost + 3e-4 and abs((got * (yy - py)).sum() / F - muy) < 100 * lost + 3e-4,
                'centroid', 'centroid of a point source', got=((got * (xx - px)).sum() / F, (got * (yy - py)).sum() / F), want=(mux, muy), lost=lost, F=F, A=A, kind=kind, kw=kw, rad=rad, mix=mix)
        m.event('flux')
    # whole-pixel translation
    ix, iy = int(rng.integers(-30, 30)), int(rng.integers(-30, 30))
    if 'clipExtent' not in kw:
        q = p.getPointSourcePatch(px + ix, py + iy, **kw)
        g2 = canvas(q, B[0] + ix, B[1] + ix, B[2] + iy, B[3] + iy)
        m.scaled_close(g2[inside], got[inside], 'translate', 'moving by whole pixels', tol=1e-5, atol=3 * mv, scale=sc)
    m.event('gauss patch')
    m.state(kind, opt, len(mix), px == np.round(px), kw.get('radius') is None)


def deriv(m, rng):
    """The derivative patches of Gaussian-mixture PSFs are the derivatives with respect to the centre."""
    kind = pick(rng, ['gm', 'gme'])
    p = zoo.gm_psf(rng, mean=True) if kind == 'gm' else zoo.psf(rng, kind)
    px, py = position(rng)
    mix = ref.psf_mix(p)
    how = pick(rng, ['minval', 'mask'])
    if how == 'minval':
        mv = loguni(rng, 1e-12, 1e-7)
        r = p.getPointSourcePatch(px, py, minval=mv, derivs=True)
    else:
        mv = 0.
        w, h = int(rng.integers(1, 30)), int(rng.integers(1, 30))
        mask = rng.random((h, w)) < 0.7
        mm = ModelMask(int(px) - int(rng.integers(0, w)), int(py) - int(rng.integers(0, h)), mask)
        r = p.getPointSourcePatch(px, py, modelMask=mm, derivs=True)
    m.equal(len(r), 3, 'derivs-tuple', 'patch, d/dx, d/dy')
    pat, dx, dy = r
    x0, x1, y0, y1 = pat.getExtent()
    gx, gy = ref.dgauss(mix, x0, x1, y0, y1, px, py)
    f = ref.gauss(mix, x0, x1, y0, y1, px, py)
    ok = np.ones(f.shape, bool)
    if how == 'mask':
        ok = mask
    sc = ref.gauss(mix, int(px) - 5, int(px) + 6, int(py) - 5, int(py) + 6, px, py).max()
    for nm, g, e in (('value', pat, f), ('dx', dx, gx), ('dy', dy, gy)):
        m.equal(tuple(g.getExtent()), (x0, x1, y0, y1), 'derivs-extent', nm)
        m.scaled_close(g.patch[ok], e[ok], 'derivs-' + nm, 'derivative patch (%s)' % how, tol=2e-5, atol=100 * mv, scale=sc)
    m.event('derivs')
    m.state('deriv', kind, how, len(mix))


def stamp(rng):
    h = int(rng.integers(0, 14)) if chance(rng, 0.2) else int(rng.integers(5, 14))
    w = h if chance(rng, 0.5) else int(rng.integers(5, 14))
    st = zoo.gauss_stamp(rng, half=max(h, 4), half2=w, sig=2.2)
    if chance(rng, 0.3):
        st = st + rng.uniform(0, 0.2 * st.max(), st.shape).astype(np.float32)
    if h < 4:
        c = st.shape[0] // 2
        st = st[c - h:c + h + 1]
    return np.ascontiguousarray(st)


def pixelized(m, rng):
    st = stamp(rng)
    norm = chance(rng, 0.4)
    if norm:
        f = pick(rng, [1., 0.03, 12.])
        p = NormalizedPixelizedPsf(st * np.float32(f))
        ref_st = st.astype(float) / st.sum(dtype=float)
    else:
        p = PixelizedPSF(st)
        ref_st = st.astype(float)
    if chance(rng, 0.3):
        p = HybridPixelizedPSF(p, gauss=zoo.gm_psf(rng, K=1))
    h, w = st.shape
    px, py = position(rng)
    for rep in range(2):        # the second rendering sees whatever the first left behind
        kw = {}
        s2 = ref_st
        if chance(rng, 0.4):
            R = pick(rng, [int(rng.integers(0, 20)), float(rng.uniform(0, 15))])
            kw['radius'] = R
            m.event('radius')
            r = int(np.ceil(R))
            cy, cx = h // 2, w // 2
            s2 = ref_st[max(cy - r, 0):cy + r + 1, max(cx - r, 0):cx + r + 1]
        if chance(rng, 0.2):
            kw['minval'] = 1e-3
        pat = p.getPointSourcePatch(px, py, **kw)
        hh, ww = s2.shape
        m.equal(pat.patch.shape, (hh, ww), 'pix-shape', 'patch shape')
        x0, x1, y0, y1 = pat.getExtent()
        ix, iy = (x0 + ww // 2), (y0 + hh // 2)
        m.check(abs(ix - px) <= 0.5 and abs(iy - py) <= 0.5, 'pix-centre', 'stamp not centred on the nearest pixel', got=(ix, iy), want=(px, py))
        can = np.zeros((hh + 8, ww + 8))
        can[4:-4, 4:-4] = s2
        e = ref.lanczos_shift(can, px - ix, py - iy)[4:-4, 4:-4]
        m.scaled_close(pat.patch, e, 'pix-value', 'shifted stamp', tol=5e-6, scale=ref_st.max())
        m.event('pix patch')
        if norm and not kw.get('radius'):
            m.check(abs(pat.patch.sum() - e.sum()) < 1e-4, 'normalized', 'normalized PSF flux')
        # masked
        mw, mh = int(rng.integers(1, 30)), int(rng.integers(1, 30))
        mm = ModelMask(ix - int(rng.integers(-8, mw + 8)), iy - int(rng.integers(-8, mh + 8)), mw, mh)
        if 'radius' not in kw:
            q = p.getPointSourcePatch(px, py, modelMask=mm)
            lo = (mm.x0 - x0, mm.y0 - y0)
            if q is None:
                m.check(mm.x0 >= x1 or mm.x0 + mw <= x0 or mm.y0 >= y1 or mm.y0 + mh <= y0, 'mask-none',
                        'nothing rendered for an overlapping mask')
            else:
                m.equal(tuple(q.getExtent()), (mm.x0, mm.x0 + mw, mm.y0, mm.y0 + mh), 'mask-extent', '')
                g = canvas(q, x0, x1, y0, y1)
                ins = np.zeros(g.shape, bool)
                ins[max(0, lo[1]):max(0, lo[1] + mh), max(0, lo[0]):max(0, lo[0] + mw)] = True
                m.scaled_close(g[ins], e[ins], 'mask-value', 'masked point source', tol=5e-6, scale=ref_st.max())
            m.event('masked')
    im = p.getImage(px, py)
    m.scaled_close(im, ref_st, 'getImage', 'PSF image', tol=2e-6)
    m.equal(tuple(p.shape), st.shape, 'shape', 'PSF shape')
    m.state('pix', h, w, norm, px == np.round(px))


def fourier(m, rng):
    st = stamp(rng)
    norm = chance(rng, 0.4)
    p = (NormalizedPixelizedPsf if norm else PixelizedPSF)(st * np.float32(3.))
    h, w = st.shape
    want = (st / st.sum(dtype=float)) if norm else 3. * st.astype(float)
    radii = [float(pick(rng, [1., 2., 3., 4., 5., 8., 12.5, 16., 17., 30., 64., rng.uniform(1, 50)])) for i in range(4)]
    for R in radii + radii:
        px, py = position(rng)
        P, (cx, cy), (ph, pw), (v, ww) = p.getFourierTransform(px, py, R)
        m.check(ph >= 2 * R and pw >= 2 * R, 'ft-size', 'transform box smaller than the diameter', got=(ph, pw), R=R)
        m.close(v, np.arange(pw // 2 + 1) / pw, 'ft-freq', 'x frequencies')
        fy = np.arange(ph) / ph
        m.close(ww, np.where(fy >= 0.5, fy - 1, fy), 'ft-freq', 'y frequencies')
        m.equal(P.shape, (ph, pw // 2 + 1), 'ft-shape', '')
        im = np.fft.irfft2(P, (ph, pw))
        # the stamp, centred at cx,cy (trimmed if the box is smaller)
        m.check(cx == int(cx) and cy == int(cy), 'ft-centre', 'integer centre')
        cx, cy = int(cx), int(cy)
        e = np.zeros((ph, pw))
        Y, X = np.mgrid[0:ph, 0:pw]
        sy, sx = Y - cy + h // 2, X - cx + w // 2
        ok = (sy >= 0) & (sy < h) & (sx >= 0) & (sx < w)
        e[ok] = want[sy[ok], sx[ok]]
        if norm and (ph < h or pw < w):
            e /= e.sum()
        m.scaled_close(im, e, 'ft-value', 'inverse transform is not the PSF stamp centred where reported', tol=5e-6, scale=e.max() * 4)
        if ph >= h and pw >= w:
            m.check(cx >= w // 2 and cx + w // 2 < pw and cy >= h // 2 and cy + h // 2 < ph, 'ft-fit', 'stamp leaves the box')
        m.event('fourier')
        if chance(rng, 0.2):
            p.getPointSourcePatch(px, py)
    m.scaled_close(p.img, 3. * st, 'stamp-unchanged', 'the PSF stamp was modified', tol=1e-6)
    m.state('ft', h, w, norm, tuple(sorted(set(radii))))


def oversampled(m, rng):
    """sampling != 1: native pixels sample the finely sampled stamp at (pixel - centre)/sampling."""
    s = pick(rng, [0.5, 0.4, 0.75, 1. / 3, 0.25, 1.25, 1.5])
    V = zoo.rand_cov(rng, 1.4, 2.2)      # native pixels^2, well sampled on both grids
    if s > 1:
        V = V * s * s * 1.3
    half = halfx = halfy = int(np.ceil(5. * np.sqrt(max(V[0, 0], V[1, 1])) / s)) + 1
    if chance(rng, 0.5):        # stamps need not be square
        halfx += int(rng.integers(0, 25))
        halfy += int(rng.integers(0, 25))
        half = max(halfx, halfy)
        m.event('oversampled, not square')
    st = ref.gauss([(1., np.zeros(2), V / s**2)], -halfx, halfx + 1, -halfy, halfy + 1, 0, 0) / s**2
    norm = chance(rng, 0.4)
    p = (NormalizedPixelizedPsf if norm else PixelizedPSF)((st * (5. if norm else 1.)).astype(np.float32), sampling=s)
    px, py = position(rng)
    if chance(rng, 0.5):
        R = int(rng.integers(2, 12))
        pat = p.getPointSourcePatch(px, py, radius=R)
        x0, x1, y0, y1 = pat.getExtent()
        m.check(abs((x0 + x1 - 1) / 2. - px) <= 1.01 and x1 - x0 <= 2 * R + 1 and y1 - y0 <= 2 * R + 1, 'over-radius', 'radius not honoured',
                ext=(x0, x1, y0, y1), px=px, R=R)
        m.check(abs((y0 + y1 - 1) / 2. - py) <= 1.01, 'over-radius', 'radius not honoured')
        m.event('radius')
    else:
        pat = p.getPointSourcePatch(px, py)
        x0, x1, y0, y1 = pat.getExtent()
        n = p.nativeW
        m.check(x1 - x0 >= int(st.shape[1] * s) - 1 and y1 - y0 >= int(st.shape[0] * s) - 1, 'over-size', 'native patch smaller than the PSF')
        m.check(abs(pat.patch.sum(dtype=float) - 1.) < 5e-3, 'over-flux', 'flux of a unit point source', got=float(pat.patch.sum()))
        Y, X = np.mgrid[y0:y1, x0:x1]
        T = pat.patch.sum(dtype=float)
        m.check(abs((pat.patch * (X - px)).sum(dtype=float) / T) < 0.02 and abs((pat.patch * (Y - py)).sum(dtype=float) / T) < 0.02,
                'over-centroid', 'centroid')
    e = ref.gauss([(1., np.zeros(2), V)], x0, x1, y0, y1, px, py)
    pk = 1. / (2 * np.pi * np.sqrt(np.linalg.det(V)))
    m.scaled_close(pat.patch, e, 'over-value', 'resampled PSF', tol=1e-2, scale=pk, sampling=s)
    # through a mask: the same values
    mw, mh = int(rng.integers(1, 20)), int(rng.integers(1, 20))
    mm = ModelMask(int(px) - int(rng.integers(-2, mw + 2)), int(py) - int(rng.integers(-2, mh + 2)), mw, mh)
    q = p.getPointSourcePatch(px, py, modelMask=mm)
    e = ref.gauss([(1., np.zeros(2), V)], mm.x0, mm.x0 + mw, mm.y0, mm.y0 + mh, px, py)
    if q is not None:
        m.equal(tuple(q.getExtent()), (mm.x0, mm.x0 + mw, mm.y0, mm.y0 + mh), 'over-mask-extent', '')
        m.scaled_close(q.patch, e, 'over-mask', 'resampled PSF through a mask', tol=1e-2, scale=pk)
        m.event('masked')
    # Fourier transform: the native PSF at the reported (sub-pixel) centre
    R = float(rng.uniform(half * s, half * s + 20))
    radii = [R, R, float(rng.uniform(half * s, half * s + 60)), R]
    places = [(px, py), (px + float(rng.uniform(-0.3, 0.3)), py), (px, py + float(rng.uniform(-0.3, 0.3)))]
    for R in radii:
        fx, fy = pick(rng, places)
        P, (cx, cy), (ph, pw), (v, w) = p.getFourierTransform(fx, fy, R)
        m.check(ph >= 2 * R and pw >= 2 * R, 'over-ft-size', 'transform box smaller than the diameter', got=(ph, pw), R=R)
        m.equal(P.shape, (ph, pw // 2 + 1), 'over-ft-size', 'shape of the transform')
        im = np.fft.irfft2(P, (ph, pw))
        e = ref.gauss([(1., np.zeros(2), V)], 0, pw, 0, ph, cx, cy)
        m.scaled_close(im, e, 'over-ft', 'transform of the resampled PSF vs reported centre', tol=8e-3, scale=pk, sampling=s)
        m.event('fourier')
    m.event('oversampled')
    m.state('over', s, norm, half)


def derived(m, rng):
    """PSFs derived from a PSF: scaled, shifted, evaluated elsewhere."""
    px, py = float(rng.uniform(10, 20)), float(rng.uniform(10, 20))
    B = (-10, 40, -10, 40)
    g = zoo.gm_psf(rng, mean=True)
    mix = ref.psf_mix(g)
    f = loguni(rng, 0.5, 2.)
    sc = g.scaleBy(f)
    e = ref.gauss([(a, u * f, V * f * f) for a, u, V in mix], *B, px, py)
    got = canvas(sc.getPointSourcePatch(px, py, radius=60), *B)
    m.scaled_close(got, e, 'scaleBy', 'PSF scaled by %g' % f, tol=3e-6)
    m.scaled_close(canvas(g.getPointSourcePatch(px, py, radius=60), *B), ref.gauss(mix, *B, px, py), 'scaleBy-orig', 'the original', tol=3e-6)
    dx, dy = float(rng.uniform(-3, 3)), float(rng.uniform(-3, 3))
    g.shiftBy(dx, dy)
    m.scaled_close(canvas(g.getPointSourcePatch(px, py, radius=60), *B), ref.gauss(mix, *B, px + dx, py + dy), 'shiftBy', '', tol=3e-6)
    n = zoo.nc_psf(rng)
    mix = ref.psf_mix(n)
    n2 = n.scale(f)
    m.scaled_close(canvas(n2.getPointSourcePatch(px, py, radius=60), *B),
                   ref.gauss([(a, u * f, V * f * f) for a, u, V in mix], *B, px, py), 'scale', '', tol=3e-6)
    m.scaled_close(canvas(n.getPointSourcePatch(px, py, radius=60), *B), ref.gauss(mix, *B, px, py), 'scale-orig', '', tol=3e-6)
    # radius of a circular-mixture PSF covers all but a negligible fraction
    m.check(n.getRadius() >= 4. * max(np.sqrt(V[0, 0]) for a, u, V in mix), 'nc-radius', 'radius too small', got=n.getRadius())
    n.minradius = 40.
    m.check(n.getRadius() >= 40., 'nc-minradius', 'minimum radius ignored')
    gr = zoo.gm_psf(rng).computeRadius()
    m.check(gr > 3., 'computeRadius', 'radius', got=gr)
    # applyTo: convolution by the PSF
    img = np.zeros((61, 61))
    img[30, 30] = 7.
    n = zoo.nc_psf(rng)
    mix = ref.psf_mix(n)
    out = n.applyTo(img)
    m.scaled_close(out, 7. * ref.gauss(mix, 0, 61, 0, 61, 30, 30), 'applyTo', 'convolving an impulse', tol=0.06)
    m.check(abs(out.sum() - 7.) < 0.01, 'applyTo-flux', 'flux after convolution')
    # not spatially varying: the PSF "at" or "shifted to" any place renders the same
    for kind in ('gm', 'nc', 'gme', 'pix', 'npix', 'hybrid'):
        p = zoo.psf(rng, kind)
        r0 = canvas(p.getPointSourcePatch(px, py), *B)
        x, y = float(rng.uniform(-100, 100)), float(rng.uniform(-100, 100))
        for nm, q in (('getShifted', p.getShifted(int(x), int(y))), ('constantPsfAt', p.constantPsfAt(x, y))):
            m.scaled_close(canvas(q.getPointSourcePatch(px, py), *B), r0, nm, kind, tol=3e-6)
            if hasattr(p, 'getMixtureOfGaussians'):
                g0, g1 = [v.getMixtureOfGaussians(px=px, py=py).evaluate_grid(B[0], B[1], B[2], B[3], px, py).patch for v in (p, q)]
                m.scaled_close(g1, g0, nm, 'mixture of ' + kind, tol=3e-6)
    # a mixture PSF reports the mixture it renders
    for kind in ('gm', 'nc', 'gme', 'hybrid'):
        p = zoo.psf(rng, kind)
        mog = p.getMixtureOfGaussians(px=px, py=py)
        mix = ref.psf_mix(p.gauss if kind == 'hybrid' else p)
        e = ref.gauss(mix, *B, px, py)
        got = mog.evaluate_grid(B[0], B[1], B[2], B[3], px, py).patch
        m.scaled_close(got, e, 'mog', kind, tol=3e-6)
    m.event('derived')
    m.state('derived', int(f * 10))


SCENARIOS = {
    'gaussian': (gaussian, 400, 8000),
    'derivs': (deriv, 120, 2500),
    'pixelized': (pixelized, 200, 5000),
    'fourier': (fourier, 120, 2500),
    'oversampled': (oversampled, 150, 3000),
    'derived': (derived, 80, 1500),
}
QUICK = 3
