"""C16: forced photometry is the weighted linear least-squares solution, with the errors and fit statistics it claims."""
import contextlib
import io

import numpy as np

import scene as S
import zoo
from zoo import pick, chance, loguni
from monitor import Skip
from tractor import Tractor, NullSky
from tractor.lsqr_optimizer import LsqrOptimizer
from tractor.ceres_optimizer import CeresOptimizer

RULE = 'random scenes, optimizers, regions, sky fitting, frozen sources and signs; distinct by (optimizer, options, fluxes)'
NEED = {'floor': 60, 'nothing accepted': 60, 'frozen images': 200, 'left': 300, 'lsqr': 60, 'priors': 10, 'ceres': 60, 'sky': 25, 'rois': 25, 'frozen source': 20, 'variance': 60, 'sky variance': 10, 'fit statistics': 40, 'nonneg': 15,
        'nonneg active': 5, 'minflux': 10, 'off image': 10, 'composite': 10, 'several images': 40, 'source nowhere': 5}
CASE_LIMIT = 60


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def build(m, rng, margin=4):
    tr0, ims, srcs = S.scene(rng, size=(14, 34), margin=margin, photo_kind=pick(rng, ['linflux', 'nmgy']),
                             psf_kinds=['gm', 'nc', 'gme', 'hybrid'], src_kinds=['pt', 'pt', 'exp', 'dev', 'gauss', 'comp', 'fcomp'],
                             sky_kinds=['const', 'const', 'null'], nsrc=int(rng.integers(1, 5)))
    photo = ims[0].photo
    for im in ims:
        im.band = photo.band
        cal = photo.cal(photo.band)
        if chance(rng, 0.5):
            # images of different depth
            cal.setParams([loguni(rng, 0.05, 20.)])
        im.scale = float(cal.getScale())
        im.img.photocal = cal
    tr = Tractor([im.img for im in ims], srcs)
    for im in ims:
        mod = np.array(tr.getModelImage(im.img), float)
        im.img.data[:] = (mod + rng.normal(size=mod.shape)).astype(np.float32)
    for s in srcs:
        s.freezeAllBut(*[n for n in s.namedparams if 'brightness' in n])
        for b in s.getBrightnesses():
            if photo.kind == 'nmgy':
                b.freezeAllBut(photo.band)
    if any(type(s).__name__ == 'CompositeGalaxy' for s in srcs):
        m.event('composite')
    if len(ims) > 1:
        m.event('several images')
    return tr, ims, srcs, photo


def freeze(rng, tr, srcs):
    frozen = [s for s in srcs if chance(rng, 0.25)]
    if len(frozen) == len(srcs):
        frozen = frozen[1:]
    for i, s in enumerate(srcs):
        if any(s is f for f in frozen):
            tr.catalog.freezeParam(i)
    return frozen


def render(src, img, H, W):
    """Unit-flux images of the components of a source."""
    out = []
    for um in src.getUnitFluxModelPatches(img, minval=0.):
        a = np.zeros((H, W))
        if um is not None and um.patch is not None:
            c = um.copy()
            c.clipTo(W, H)
            if c.patch is not None and c.patch.size:
                a[c.getSlice()] = np.asarray(c.patch, float)
        out.append(a)
    return out


def cols(src):
    return len(src.getBrightnesses())


def nnls(A, b, free):
    """min |Ax-b| with x>=0 except for the free columns."""
    from scipy.optimize import lsq_linear
    lo = np.where(free, -np.inf, 0.)
    return lsq_linear(A, b, bounds=(lo, np.full(A.shape[1], np.inf)), tol=1e-12, max_iter=500).x


def sc_forced(m, rng):
    tr, ims, srcs, photo = build(m, rng)
    frozen = freeze(rng, tr, srcs)
    lost = [s for s in srcs if type(s).__name__ == 'PointSource' and not any(s is f for f in frozen)]
    if chance(rng, 0.12) and lost and len(srcs) > 1:
        # a source that is in none of the images
        pos = pick(rng, lost).getPosition()
        far = ims[0].img.wcs.pixelToPosition(-float(rng.uniform(300., 900.)), -float(rng.uniform(300., 900.)))
        pos.setAllParams(far.getAllParams())
    live = [s for s in srcs if not any(s is f for f in frozen)]
    if frozen:
        m.event('frozen source')
    sky = chance(rng, 0.4) and all(im.img.sky.numberOfParams() == 1 for im in ims)
    if sky:
        for im in ims:
            im.img.freezeAllBut('sky')
    elif chance(rng, 0.3):
        # (nothing free in any image, though the images as a group are)
        for im in ims:
            im.img.freezeAllParams()
            if chance(rng, 0.5):
                im.img.freezeAllRecursive()
        if chance(rng, 0.5):
            for k in range(len(ims)):
                tr.images.freezeParam(k)
        m.event('frozen images')
    else:
        tr.freezeParam('images')
    ceres = chance(rng, 0.5)
    rois = None
    if chance(rng, 0.35):
        rois = []
        for im in ims:
            x0, y0 = int(rng.integers(0, im.W - 8)), int(rng.integers(0, im.H - 8))
            rois.append((slice(y0, int(rng.integers(y0 + 7, im.H + 1))), slice(x0, int(rng.integers(x0 + 7, im.W + 1)))))
        m.event('rois')
    if chance(rng, 0.25) and len(live) > 1:
        # every pixel that one source touches is masked
        s = pick(rng, live[:-1])
        im = pick(rng, ims)
        touched = sum([abs(u) for u in render(s, im.img, im.H, im.W)]) > 0
        ie = np.array(im.img.inverr)
        if touched.any() and (ie[~touched] > 0).sum() > 40:
            ie[touched] = 0.
            im.img.inverr = ie
            m.event('wholly masked source')
    # the linear problem, in float64, straight from unit-flux renderings
    nsky = len(ims) if sky else 0
    ncol = nsky + sum(cols(s) for s in live)
    blocks, rhs, base, units, slcs = [], [], [], [], []
    for k, im in enumerate(ims):
        slc = rois[k] if rois else (slice(0, im.H), slice(0, im.W))
        slcs.append(slc)
        ie = np.asarray(im.img.inverr, float)[slc]
        mod = np.zeros((im.H, im.W))
        for f in frozen:
            for u, b in zip(render(f, im.img, im.H, im.W), f.getBrightnesses()):
                mod += u * im.scale * photo.counts(b) / photo.scale
        skyval = float(im.img.sky.getAllParams()[0]) if im.img.sky.getAllParams() else 0.
        if not sky:
            mod += skyval
        A = np.zeros(ie.shape + (ncol,))
        us = []
        if sky:
            A[:, :, k] = 1.
        j = nsky
        for s in live:
            su = [u[slc] for u in render(s, im.img, im.H, im.W)]
            us.append(su)
            for u in su:
                A[:, :, j] = u * im.scale
                j += 1
        units.append(us)
        blocks.append((A * ie[:, :, None]).reshape(-1, ncol))
        rhs.append(((np.asarray(im.img.data, float)[slc] - mod[slc]) * ie).ravel())
        base.append(mod[slc])
    A = np.vstack(blocks)
    b = np.concatenate(rhs)
    norm = np.sqrt((A**2).sum(axis=0))
    on = norm > 1e-3 * (norm.max() if ncol else 0.)
    dead = norm == 0
    if not np.all(on | dead) or not on.any() or norm[on].min() < 1e-2:
        raise Skip
    # Ceres works in float32 and stops at a relative change of the cost
    sv = np.linalg.svd((A / np.where(on, norm, 1.))[:, on], compute_uv=False)
    cond = sv[0] / max(sv[-1], 1e-300)
    svu = np.linalg.svd(A[:, on], compute_uv=False)
    if cond > 15 or (not ceres and svu[0] / max(svu[-1], 1e-300) > 60):
        raise Skip
    if dead.any():
        m.event('source nowhere')
    p0 = np.array(tr.getParams(), float)
    # start elsewhere (fluxes stay positive, so that the rendered extents do not depend on the start)
    for i in range(len(p0)):
        p0[i] *= loguni(rng, 0.3, 3.) if i >= nsky else 1.
        p0[i] += 0. if i >= nsky else float(rng.normal())
    tr.setParams(p0)
    nonneg = ceres and chance(rng, 0.3)
    if nonneg:
        # data that want a negative flux
        j = int(rng.integers(nsky, ncol))
        if not on[j]:
            raise Skip
        for k, im in enumerate(ims):
            u = [x for us in units[k] for x in us][j - nsky]
            amp = loguni(rng, 5., 50.) / max(norm[j], 1e-12) + 1e-12
            d = np.array(im.img.data)
            d[slcs[k]] -= ((p0[j] * 3 + amp) * im.scale * u).astype(np.float32)
            im.img.data = d
            ie = np.asarray(im.img.inverr, float)[slcs[k]]
            rhs[k] = ((np.asarray(im.img.data, float)[slcs[k]] - base[k]) * ie).ravel()
        b = np.concatenate(rhs)
        m.event('nonneg')
    priors = not ceres and chance(rng, 0.4)
    A1, b1 = A, b
    if priors:
        # Gaussian priors on some fluxes: they act as additional data
        rows, rhs1, j = [], [], nsky
        for s in live:
            for br in s.getBrightnesses():
                if on[j] and hasattr(br, 'addGaussianPrior') and chance(rng, 0.7):
                    sig = loguni(rng, 0.3, 5.) / norm[j]
                    mu = float(p0[j] * rng.uniform(0.5, 1.5) + rng.normal() * 3. * sig)
                    br.addGaussianPrior(br.getParamNames()[0], mu, sig)
                    row = np.zeros(ncol)
                    row[j] = 1. / sig
                    rows.append(row)
                    rhs1.append(mu / sig)
                j += 1
        if rows:
            A1, b1 = np.vstack([A, rows]), np.append(b, rhs1)
            m.event('priors')
    As = A1[:, on] / norm[on]
    best = np.zeros(ncol)
    if nonneg:
        # every parameter of the fit is kept nonnegative, sky included
        if sky:
            raise Skip
        best[on] = nnls(As, b, np.zeros(on.sum(), bool)) / norm[on]
        if (best[on] * norm[on] < 1e-6).any():
            m.event('nonneg active')
    else:
        best[on] = np.linalg.lstsq(As, b1, rcond=None)[0] / norm[on]
    kw = dict(variance=chance(rng, 0.7), fitstats=chance(rng, 0.6), shared_params=chance(rng, 0.5))
    if sky:
        kw['sky'] = True
        kw['skyvariance'] = chance(rng, 0.7)
        m.event('sky')
    if rois:
        kw['rois'] = rois
    if nonneg:
        kw['nonneg'] = True
    if priors:
        kw['priors'] = True
    extras = [rng.normal(size=a.shape) for a in base]
    if kw['fitstats'] and chance(rng, 0.5):
        kw['fitstat_extras'] = [('extra', extras)]
    if ceres:
        kk = {}
        if chance(rng, 0.5):
            kk = dict(BW=int(rng.integers(3, 40)), BH=int(rng.integers(3, 40)))
        if chance(rng, 0.3):
            kk['threads'] = int(rng.integers(1, 4))
        opt = CeresOptimizer(**kk)
    else:
        opt = LsqrOptimizer()
    m.event('ceres' if ceres else 'lsqr')
    tr.optimizer = opt
    data0 = [(im.img.data.tobytes(), im.img.inverr.tobytes()) for im in ims]
    frz0 = [list(f.getAllParams()) for f in frozen]
    state0 = list(tr.getParamStateRecursive())
    R = quiet(lambda: tr.optimize_forced_photometry(**kw))
    m.equal(dict(tr.model_kwargs), {}, 'options', 'options given to one photometry run stick to the tractor')
    p1 = np.array(tr.getParams(), float)
    m.op(type(opt).__name__, sorted(kw), ncol)
    dev = np.abs(p1 - best) * norm
    chi_best = float(np.sum((A1 @ best - b1)**2))
    chi_1 = float(np.sum((A1 @ np.where(dead, 0., p1) - b1)**2))
    slack = 1e-2 + 1e-5 * chi_best + 1e-6 * float(np.sum(b1**2))
    if nonneg:
        # Ceres fits the logarithms of the fluxes: it approaches the constrained minimum but stops short of it
        slack += 0.05 * max(0., float(np.sum(b**2)) - chi_best, float(np.sum((A @ np.where(dead, 0., p0) - b)**2)) - chi_best)
    m.check(chi_1 <= chi_best + slack, 'c16.chisq', 'forced photometry reaches the least-squares minimum',
            reached=chi_1, best=chi_best, start=float(np.sum((A @ np.where(dead, 0., p0) - b)**2)))
    m.check(np.all(dev[on] <= 3 * np.sqrt(slack) * cond), 'c16.flux', 'fluxes are the least-squares ones (in sigmas)', deviation=dev, found=p1, want=best)
    if nonneg:
        m.check(np.all(p1 >= -1e-9), 'c16.nonneg', 'nonnegative fluxes were asked for', p=p1)
    for j in np.flatnonzero(dead):
        # (nonnegative fits pass through the logarithm)
        m.check(abs(p1[j] - p0[j]) <= 1e-9 * abs(p0[j]) or p1[j] == 0., 'c16.nowhere', 'a source that touches no pixel keeps its flux or gets zero', p=p1[j], start=p0[j])
    m.check(data0 == [(im.img.data.tobytes(), im.img.inverr.tobytes()) for im in ims], 'c16.data', 'the images are not modified')
    m.equal(frz0, [list(f.getAllParams()) for f in frozen], 'c16.frozen', 'frozen sources keep their parameters')
    m.equal(state0, list(tr.getParamStateRecursive()), 'c16.frozen', 'freeze states are kept')
    m.check(all(a is im.img for a, im in zip(tr.images, ims)) and len(tr.images) == len(ims), 'c16.images', 'the images are still there')
    # result images: data, model, error, chi
    pend = np.where(dead, 0., p1)
    for nm, pv in (('ims0', p0), ('ims1', p1)):
        L = getattr(R, nm, None)
        if nm == 'ims0' and sky:
            # (the sky level in the first set is that of the start for some optimizers only)
            pass
        if L is None:
            continue
        m.equal(len(L), len(ims), 'c16.ims', 'one result per image')
        for k, (im, (d, mod, ie, chi, roi)) in enumerate(zip(ims, L)):
            slc = slcs[k]
            Ak = blocks[k].reshape(base[k].shape + (ncol,))
            ier = np.asarray(im.img.inverr, float)[slc]
            pred = base[k] + sum([pv[nsky + i] * im.scale * u for i, u in enumerate([x for us in units[k] for x in us])])
            if sky:
                pred = pred + pv[k]
            m.check(np.array_equal(np.asarray(d), im.img.data[slc]), 'c16.ims', 'result data')
            m.check(np.array_equal(np.asarray(ie), im.img.inverr[slc]), 'c16.ims', 'result errors')
            sc = np.abs(pred).max() + 1.
            if rois:
                # (frozen sources are rendered within the region: the faint ends of their extents differ)
                sc += 50 * sum(abs(photo.counts(x)) / photo.scale * im.scale for f in frozen for x in f.getBrightnesses())
            m.close(mod, pred, 'c16.ims', 'result model image is that of the %s parameters' % ('initial' if nm == 'ims0' else 'final'), rtol=0, atol=2e-5 * sc, which=nm, image=k)
            m.close(chi, (np.asarray(im.img.data, float)[slc] - pred) * ier, 'c16.ims', 'result chi image', rtol=1e-6, atol=4e-5 * sc * (ier.max() + 1e-9))
    if kw['variance']:
        want = (A**2).sum(axis=0)
        if not kw.get('skyvariance'):
            want = want[nsky:]
        else:
            m.event('sky variance')
        m.equal(len(R.IV), len(want), 'c16.iv', 'number of inverse variances')
        m.close(R.IV, want, 'c16.iv', 'flux inverse variances', rtol=2e-5, atol=1e-12 + 1e-7 * want.max())
        m.event('variance')
    if kw['fitstats'] and getattr(R, 'ims1', None) is not None:
        check_stats(m, R, ims, live, units, base, blocks, p1, nsky, sky, slcs, extras if 'fitstat_extras' in kw else None)
    if any(not (0 <= im.frame.xy(s.getPosition())[0] < im.W and 0 <= im.frame.xy(s.getPosition())[1] < im.H) for im in ims for s in live):
        m.event('off image')
    m.state(type(opt).__name__, sky, bool(rois), nonneg, ncol, len(ims), round(float(p1[-1]), 3))
    m.sample(opt=type(opt).__name__, ncol=ncol, chi_start=float(np.sum((A @ p0 - b)**2)), chi_end=chi_1, chi_best=chi_best, cond=float(cond))


def check_stats(m, R, ims, live, units, base, blocks, p1, nsky, sky, slcs, extras):
    fs = R.fitstats
    n = len(live)
    W = dict((k, np.zeros(n)) for k in ('prochi2', 'pronpix', 'promasked', 'proflux', 'npix', 'bright', 'extra', 'fn', 'fd', 'in', 'nim', 'ferr'))
    W['peak'] = np.ones(n)
    imchi, imnpix, skies = [], [], []
    for k, im in enumerate(ims):
        ie = np.asarray(im.img.inverr, float)[slcs[k]]
        flat = [x for us in units[k] for x in us]
        sv = float(im.img.sky.getAllParams()[0]) if im.img.sky.getAllParams() else 0.
        srcs_only = base[k] - (0. if sky else sv) + sum([p1[nsky + i] * im.scale * u for i, u in enumerate(flat)])
        chi = (np.asarray(im.img.data, float)[slcs[k]] - srcs_only - sv) * ie
        imchi.append((chi**2).sum())
        imnpix.append((ie > 0).sum())
        skies.append(sv)
        j = nsky
        for si, s in enumerate(live):
            cc = [p1[j + i] * im.scale for i in range(cols(s))]
            us = units[k][si]
            j += cols(s)
            tot = sum(cc)
            if tot == 0:
                continue
            prof = sum([c * u for c, u in zip(cc, us)]) / tot
            nz = (np.abs(prof) > 0) & (ie > 0)
            if not nz.any():
                continue
            a = np.abs(prof)
            W['prochi2'][si] += (a * chi**2)[nz].sum()
            W['pronpix'][si] += a[nz].sum()
            W['promasked'][si] += a[ie == 0].sum()
            oth = np.abs(srcs_only - prof * tot)
            W['proflux'][si] += (oth / im.scale * a)[nz].sum()
            W['npix'][si] += nz.sum()
            W['bright'][si] += ((a > 1e-15 * a.max()) & nz).sum()
            W['fn'][si] += (oth / abs(tot) * a)[nz].sum() / (a**2)[nz].sum()
            W['fd'][si] += a[nz].sum() / abs(tot)
            # (single-precision model images that include the sky)
            W['ferr'][si] += 1e-6 * (np.abs(srcs_only).max() + abs(sv)) * a[nz].sum() / (abs(tot) * (a**2)[nz].sum())
            W['in'][si] += a.sum()
            W['nim'][si] += 1
            W['peak'][si] = min(W['peak'][si], a[nz].max())
            if extras:
                W['extra'][si] += (a * extras[k])[nz].sum()
    m.event('fit statistics')
    m.close(fs.imchisq, imchi, 'c16.stats', 'chi-squared of each image', rtol=1e-3, atol=1e-3)
    m.equal([int(x) for x in fs.imnpix], [int(x) for x in imnpix], 'c16.stats', 'unmasked pixels of each image')
    m.close(fs.sky, skies, 'c16.stats', 'sky levels', rtol=1e-9, atol=1e-12)
    # mixtures of near-cancelling components are ill-defined
    ok = np.ones(n, bool)
    j = nsky
    for si, s in enumerate(live):
        c = np.array([p1[j + i] for i in range(cols(s))])
        j += cols(s)
        ok[si] = abs(c.sum()) > 0.05 * np.abs(c).sum() and abs(c.sum()) > 0 and W['nim'][si] > 0
        # (nor are statistics of profiles whose squares underflow in single precision)
        if abs(c.sum()) * min(im.scale for im in ims) < 0.3 or W['peak'][si] < 1e-12:
            ok[si] = False
    for k, msg in (('prochi2', 'profile-weighted chi-squared'), ('pronpix', 'profile-weighted number of pixels'),
                   ('promasked', 'profile-weighted masked fraction'), ('proflux', 'profile-weighted flux of other sources')):
        m.close(getattr(fs, k)[ok], W[k][ok], 'c16.stats', msg, rtol=2e-3, atol=2e-3, name=k)
    # (single precision loses the faintest pixels of an extent; each image counts)
    m.check(np.all(fs.npix[ok] <= W['npix'][ok]) and np.all(fs.npix[ok] >= W['bright'][ok]), 'c16.stats', 'number of pixels of a source', got=list(fs.npix), most=list(W['npix']), least=list(W['bright']))
    m.close(fs.fracin[ok], (W['in'] / np.maximum(1, W['nim']))[ok], 'c16.stats', 'fraction of the flux within the images', rtol=1e-3, atol=1e-4)
    m.close(fs.profracflux[ok], (W['fn'] / np.maximum(1, W['fd']))[ok], 'c16.stats', 'profile-weighted fraction of other sources\' flux', rtol=5e-3, atol=5e-3 + W['ferr'][ok])
    if extras:
        m.close(fs.extra[ok], W['extra'][ok], 'c16.stats', 'profile-weighted extra image', rtol=2e-3, atol=2e-3)


def sc_minflux(m, rng):
    tr, ims, srcs, photo = build(m, rng, margin=-3)
    tr.freezeParam('images')
    # data wanting one negative flux
    s = srcs[0]
    for im in ims:
        d = np.array(im.img.data)
        for u in render(s, im.img, im.H, im.W):
            d -= (u * im.scale * loguni(rng, 1., 3.) * abs(photo.counts(s.getBrightnesses()[0]) / photo.scale)).astype(np.float32)
        im.img.data = d
    tr.optimizer = LsqrOptimizer()
    p0 = np.array(tr.getParams(), float)
    lnp0 = quiet(tr.getLogLikelihood)
    mf = 0.
    quiet(lambda: tr.optimize_forced_photometry(minFlux=mf))
    p1 = np.array(tr.getParams(), float)
    lnp1 = quiet(tr.getLogLikelihood)
    m.check(np.all(p1 >= mf), 'c16.minflux', 'fluxes are at least the minimum asked for', p=p1, start=p0)
    m.check(lnp1 >= lnp0 - 1e-3 - 1e-5 * abs(lnp0), 'c16.worse', 'forced photometry does not make the fit worse', before=lnp0, after=lnp1)
    m.event('minflux')
    m.state('minflux', len(p0), round(float(p1[-1]), 3))


def sc_limits(m, rng):
    """Minimum fluxes, priors that forbid a flux, sky levels and early stops: what is left is what was evaluated."""
    tr, ims, srcs, photo = build(m, rng, margin=-3)
    apart = chance(rng, 0.5)
    if apart:
        srcs = srcs[:1]
        tr = Tractor([im.img for im in ims], srcs)
        if cols(srcs[0]) > 1:
            apart = False
    sky = chance(rng, 0.5) and all(im.img.sky.numberOfParams() == 1 for im in ims)
    if sky:
        for im in ims:
            im.img.freezeAllBut('sky')
        m.event('sky')
    else:
        tr.freezeParam('images')
    nsky = len(ims) if sky else 0
    # data wanting negative fluxes of some sources
    for s in srcs:
        if chance(rng, 0.6):
            for im in ims:
                d = np.array(im.img.data)
                for u, b in zip(render(s, im.img, im.H, im.W), s.getBrightnesses()):
                    d -= (u * im.scale * loguni(rng, 1., 3.) * abs(photo.counts(b) / photo.scale)).astype(np.float32)
                im.img.data = d
    tr.optimizer = LsqrOptimizer()
    kw = dict(priors=chance(rng, 0.6))
    mf = None
    if chance(rng, 0.7):
        mf = kw['minFlux'] = pick(rng, [0., 0., float(rng.normal())])
        m.event('minflux')
    if sky:
        kw['sky'] = True
    if chance(rng, 0.3):
        kw['alphas'] = sorted(float(a) for a in np.unique(np.exp(rng.uniform(-3, 1, int(rng.integers(1, 6))))))
    p0 = np.array(tr.getParams(), float)
    if mf is not None:
        p0[nsky:] = np.maximum(p0[nsky:], mf)
    tr.setParams(p0)

    if kw['priors'] and chance(rng, 0.5):
        # fluxes that are forbidden altogether
        for s in srcs:
            for b in s.getBrightnesses():
                if chance(rng, 0.7):
                    v = b.getParams()[0]
                    if mf is not None and not v > mf:
                        continue
                    lim = mf if mf is not None and chance(rng, 0.5) else v - abs(v) * float(rng.uniform(0.01, 1.2))

                    def lp(b=b, lim=lim, old=b.getLogPrior):
                        return old() if b.getParams()[0] >= lim else -np.inf
                    b.getLogPrior = lp
                    m.event('forbidden')

    def value():
        v = quiet(tr.getLogLikelihood)
        return v + (quiet(tr.getLogPrior) if kw['priors'] else 0.)
    v0 = value()
    if not np.isfinite(v0):
        raise Skip
    pstart = p0
    for again in range(2):
        if again:
            # once more, from where the first run ended (fluxes that are not positive have coarser unit models)
            if not np.all(p1[nsky:] > 0):
                break
            v0, p0 = v1, p1
        R = quiet(lambda: tr.optimize_forced_photometry(**kw))
        p1 = np.array(tr.getParams(), float)
        v1 = value()
        m.op(kw, p0, p1)
        m.check(np.isfinite(v1) and v1 >= v0 - 1e-3 - 2e-5 * abs(v0), 'c16.worse', 'forced photometry does not make the fit worse', before=v0, after=v1, p=p1, start=p0, **kw)
        if mf is not None:
            m.check(np.all(p1[nsky:] >= mf), 'c16.minflux', 'fluxes are at least the minimum asked for', p=p1, start=p0)
        if getattr(R, 'ims1', None) is not None:
            for im, (d, mod, ie, chi, roi) in zip(ims, R.ims1):
                want = np.array(quiet(lambda: tr.getModelImage(im.img)), float)
                sc = np.abs(want).max() + 1. + np.abs(p1[nsky:]).max() * im.scale
                m.close(mod, want, 'c16.left', 'the model image reported is that of the parameters left behind', rtol=0, atol=1e-3 * sc, **kw)
                m.event('left')
        else:
            m.check(np.allclose(p1, p0, rtol=1e-12, atol=1e-12), 'c16.left', 'nothing was accepted: the parameters are what they were', p=p1, start=p0)
            m.event('nothing accepted')
        if np.array_equal(p0, p1):
            m.event('stays')
    if apart and 'alphas' not in kw and not sky and not kw['priors']:
        # one source: the constrained optimum is the clipped unconstrained one
        num = den = 0.
        for im in ims:
            u = render(srcs[0], im.img, im.H, im.W)[0] * im.scale
            ie = np.asarray(im.img.inverr, float)
            sv = float(im.img.sky.getAllParams()[0]) if im.img.sky.getAllParams() else 0.
            num += ((np.asarray(im.img.data, float) - sv) * u * ie**2).sum()
            den += (u**2 * ie**2).sum()
        if den > 1e-4:
            f = num / den
            if mf is not None:
                f = max(f, mf)
            m.check(abs(p1[0] - f) * np.sqrt(den) < 0.05 + 1e-4 * abs(f) * np.sqrt(den), 'c16.single', 'the flux of a single source is the clipped least-squares one', got=p1[0], want=f, sigma=den**-0.5, start=p0[0], **kw)
            m.event('single')
    m.state('limits', len(p0), sky, mf is None, kw['priors'], round(float(p1[-1]), 3))


def sc_floor(m, rng):
    """A surface-brightness floor leaves out no more than itself."""
    tr, ims, srcs, photo = build(m, rng, margin=-3)
    tr.freezeParam('images')
    tr.optimizer = pick(rng, [LsqrOptimizer, CeresOptimizer])()
    # (the sources' counts set the floor of their unit-flux models)
    counts = [photo.counts(b) / photo.scale * im.scale for im in ims for s in srcs for b in s.getBrightnesses()]
    if min(counts) <= 0:
        raise Skip
    floor = loguni(rng, 1e-4, 3e-2) * min(counts)
    exact, ncomp = [], sum(cols(s) for s in srcs)
    for im in ims:
        sv = float(im.img.sky.getAllParams()[0]) if im.img.sky.getAllParams() else 0.
        exact.append(sv + sum([u * im.scale * photo.counts(b) / photo.scale for s in srcs
                               for u, b in zip(render(s, im.img, im.H, im.W), s.getBrightnesses())]))
    R = quiet(lambda: tr.optimize_forced_photometry(minsb=floor))
    L = getattr(R, 'ims0', None)
    if L is None:
        raise Skip
    for im, e, (d, mod, ie, chi, roi) in zip(ims, exact, L):
        m.check(np.all(np.abs(np.asarray(mod, float) - e) <= 1.05 * floor * ncomp + 3e-5 * (np.abs(e).max() + 1.)), 'c16.floor',
                'a surface-brightness floor leaves out no more than itself', worst=float(np.abs(np.asarray(mod, float) - e).max()), floor=floor, components=ncomp)
    m.event('floor')
    m.state('floor', type(tr.optimizer).__name__, len(srcs), round(np.log10(floor), 2))


SCENARIOS = {
    'limits': (sc_limits, 300, 5000),
    'floor': (sc_floor, 60, 1000),
    'forced': (sc_forced, 1800, 20000),
    'minflux': (sc_minflux, 80, 1000),
}
QUICK = 3
