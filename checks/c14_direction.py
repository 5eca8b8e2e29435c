"""C14: the update direction solves the weighted linear least-squares problem, whichever optimizer computes it."""
import contextlib
import io

import numpy as np

import scene as S
import zoo
from zoo import pick, chance, loguni
from monitor import Skip
from checks.c12_priors import dense as prior_dense, leaves, freeze_some
from tractor import Tractor, ModelMask, PointSource, Flux, PixPos, ConstantSky
from tractor.lsqr_optimizer import LsqrOptimizer
from tractor.constrained_optimizer import ConstrainedOptimizer
from tractor.dense_optimizer import ConstrainedDenseOptimizer
from tractor.smarter_dense_optimizer import SmarterDenseOptimizer
from tractor.splinesky import SplineSky
from tractor.patch import Patch

RULE = 'random scenes, freeze patterns, priors, damping and parameter sharing; distinct by (optimizer, sizes, options)'
NEED = {'few pixels': 30, 'lsqr': 100, 'dense': 60, 'smarter': 50, 'variance': 60, 'priors': 60, 'no derivatives': 10, 'shared': 15, 'damped': 20, 'units': 50, 'chi images': 30, 'empty derivative': 20, 'covariance': 15}


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def system(tr, allderivs, priors, ie=None, chis=None):
    """Dense float64 least-squares system: rows pixels of every image, then prior terms."""
    n = len(allderivs)
    rows, b = [], []
    for k, img in enumerate(tr.images):
        A = np.zeros((img.shape[0], img.shape[1], n))
        H, W = img.shape
        for j, dd in enumerate(allderivs):
            for d, im in dd:
                if im is not img or d is None or d.patch is None:
                    continue
                P = np.asarray(d.patch, float)
                h, w = P.shape
                y0, y1, x0, x1 = max(0, d.y0), min(H, d.y0 + h), max(0, d.x0), min(W, d.x0 + w)
                if y1 > y0 and x1 > x0:
                    A[y0:y1, x0:x1, j] += P[y0 - d.y0:y1 - d.y0, x0 - d.x0:x1 - d.x0]
        A *= np.asarray(img.getInvError(), float)[:, :, None]
        rows.append(A.reshape(-1, n))
        b.append(np.asarray(tr.getChiImage(img=img) if chis is None else chis[k], float).ravel())
    if priors:
        pA, pb = prior_dense(tr.getLogPriorDerivatives(), n)
        rows.append(pA)
        b.append(pb)
    return np.vstack(rows), np.concatenate(b)


def solve(A, b, damp=0., scaled=True):
    """Minimum-norm solution in column-scaled units; returns X, column norms, condition number."""
    cs = np.sqrt(np.sum(A * A, axis=0))
    live = cs > 0
    s = np.where(live, cs, 1.)
    As = (A / s)[:, live]
    if damp:
        sc = np.ones(live.sum()) if scaled else 1. / s[live]
        As2 = np.vstack([As, damp * np.diag(sc)])
        b2 = np.concatenate([b, np.zeros(live.sum())])
    else:
        As2, b2 = As, b
    X = np.zeros(A.shape[1])
    if live.any():
        u, sv, vt = np.linalg.svd(As2, full_matrices=False)
        cond = sv[0] / max(sv[-1], 1e-300)
        X[live] = (vt.T @ ((u.T @ b2) / sv)) / s[live]
    else:
        cond = 1.
    return X, cs, cond


def add_priors(m, rng, tr, nmax=5):
    ls = [l for l in leaves(tr, [])]
    if not ls:
        return
    for k in range(int(rng.integers(1, nmax))):
        p = pick(rng, ls)
        nm = pick(rng, sorted(p.namedparams))
        v = p.getAllParams()[p.namedparams[nm]]
        sg = abs(v) * loguni(rng, 1e-3, 1.) + 1e-4
        p.addGaussianPrior(nm, v + sg * float(rng.normal()), sg)


def build(m, rng, **kw):
    # (galaxies with a purely pixelized PSF cannot be rendered off the image)
    if chance(rng, 0.25):
        kw.setdefault('src_kinds', ['pt'])
    else:
        kw.setdefault('psf_kinds', ['gm', 'nc', 'gme', 'hybrid'])
    kw.setdefault('src_kinds', zoo.SRC)
    kw.setdefault('margin', 2)
    tr, ims, srcs = S.scene(rng, size=(14, 26), **kw)
    for im in ims:
        mod = np.array(tr.getModelImage(im.img), float)
        im.img.data[:] = (mod * rng.uniform(0.9, 1.1) + rng.normal(size=mod.shape)).astype(im.img.data.dtype)
        for k in ('wcs',):
            im.img.freezeParam(k)
        for k in ('psf', 'photocal', 'sky'):
            sub = getattr(im.img, k)
            if chance(rng, 0.8) or k == 'psf' or sub.numberOfParams() == 0:
                im.img.freezeParam(k)
    if chance(rng, 0.2):
        # images in very different units: errors far from one count
        for im in ims:
            s = loguni(rng, 1e-9, 1e3)
            im.img.inverr = im.img.inverr * np.float32(s)
            mod = np.array(tr.getModelImage(im.img), float)
            im.img.data = (mod + rng.normal(size=mod.shape) / s).astype(np.float32)
        m.event('units')
    if chance(rng, 0.4):
        tr.freezeParam('images')
    if chance(rng, 0.4):
        freeze_some(rng, tr.catalog, 0.25)
    if chance(rng, 0.1) and hasattr(srcs[0], 'brightness'):
        # one brightness, one or two pixels
        tr.catalog.freezeAllRecursive()
        tr.catalog.thawParam(0)
        srcs[0].thawParam('brightness')
        if hasattr(srcs[0].brightness, 'thawAllParams'):
            srcs[0].brightness.thawAllParams()
        for im in ims:
            mod = np.abs(np.array(tr.getModelImage(im.img, srcs=[srcs[0]], sky=False), float)) * (np.array(im.img.getInvError()) > 0)
            best = np.argsort(mod.ravel())[::-1][:int(rng.integers(1, 3))]
            k = np.zeros(mod.size, bool)
            k[best] = True
            im.img.inverr = np.where(k.reshape(mod.shape), im.img.inverr, 0).astype(np.float32)
        m.event('few pixels')
    if tr.numberOfParams() == 0:
        raise Skip
    return tr, ims, srcs


def compare(m, key, X, Xref, cs, A, b, cond, what, eps):
    """X against the reference in units in which every column has norm one."""
    X = np.asarray(X, float)
    m.equal(X.shape, Xref.shape, key, 'one update per thawed parameter')
    m.check(np.all(np.isfinite(X)), key, 'finite update')
    m.check(np.all(np.abs(X[cs == 0]) < 1e-6 * max(1., np.abs(X).max())), key, 'parameters without derivatives stay put', X=X, cs=cs)
    r = np.linalg.norm(b)
    d = (X - Xref) * cs
    tol = eps * cond * cond * r + 1e-9
    m.check(np.all(np.abs(d) <= tol), key, '%s: update direction is the weighted least-squares solution' % what,
            worst=float(np.max(np.abs(d))), tol=tol, condition=cond, X=X, ref=Xref)
    # the linearised objective really drops by what the optimum promises
    f0, f1, fm = b @ b, np.sum((b - A @ X)**2), np.sum((b - A @ Xref)**2)
    m.check(f1 <= fm + (eps * cond * r)**2 * 10 + 1e-6 * f0, key, '%s: linearised chi-squared at its minimum' % what, f0=f0, f1=f1, fmin=fm)


def usable(cond):
    if not cond < 40:
        raise Skip


def sc_lsqr(m, rng):
    tr, ims, srcs = build(m, rng)
    priors = chance(rng, 0.6)
    if priors and chance(rng, 0.7):
        add_priors(m, rng, tr)
        m.event('priors')
    ders = quiet(tr.getDerivs)
    A, b = system(tr, ders, priors)
    damp = pick(rng, [0., 0., 0., loguni(rng, 1e-2, 10.)])
    sc = chance(rng, 0.7)
    Xref, cs, cond = solve(A, b, damp, sc)
    usable(cond)
    if not sc:
        live = cs > 0
        c2 = np.linalg.cond(A[:, live]) if live.any() else 1.
        if c2 > 40:
            sc = True
            Xref, cs, cond = solve(A, b, damp, sc)
            usable(cond)
        else:
            cond = max(cond, c2)
    cls = pick(rng, [LsqrOptimizer, ConstrainedOptimizer])
    p0 = list(tr.getParams())
    got = quiet(lambda: cls().getLinearUpdateDirection(tr, damp=damp, priors=priors, scale_columns=sc, shared_params=chance(rng, 0.5)))
    m.equal(list(tr.getParams()), p0, 'c14.lsqr', 'computing a direction changes no parameter')
    m.event('lsqr')
    if damp:
        m.event('damped')
    if not (cs > 0).any():
        m.check(got is None or len(got) == 0 or not np.any(got), 'c14.lsqr', 'nothing to fit')
        m.event('no derivatives')
        return
    if np.any(cs == 0):
        m.event('no derivatives')
    eps = 5e-6
    compare(m, 'c14.lsqr', got, Xref, cs, A, b, cond, cls.__name__, eps)
    # variances
    v = quiet(lambda: LsqrOptimizer().getLinearUpdateDirection(tr, damp=damp, priors=priors, scale_columns=sc, variance=True))
    m.equal(len(v), 2, 'c14.variance', 'update and variance')
    compare(m, 'c14.lsqr', v[0], Xref, cs, A, b, cond, 'with variance', eps)
    with np.errstate(divide='ignore'):
        m.close(v[1], 1. / cs**2, 'c14.variance', 'inverse of the summed squared weighted derivative', rtol=1e-5)
    cc = LsqrOptimizer().getUpdateDirection(tr, quiet(tr.getDerivs), priors=priors, scales_only=True)
    m.close(cc, cs, 'c14.scales', 'column scales', rtol=1e-5)
    # explicit chi images are used instead of the current residuals
    chis = [rng.normal(size=im.img.shape).astype(np.float32) for im in ims]
    A2, b2 = system(tr, ders, False, chis=chis)
    X2, cs2, cond2 = solve(A2, b2)
    if cond2 < 40 and (cs2 > 0).any():
        dd2 = quiet(tr.getDerivs)
        if chance(rng, 0.5):
            for dd in dd2:
                if chance(rng, 0.5):
                    dd.insert(int(rng.integers(len(dd) + 1)), (Patch(0, 0, None), pick(rng, ims).img))
        got = quiet(lambda: cls().getUpdateDirection(tr, dd2, priors=False, chiImages=chis))
        compare(m, 'c14.chis', got, X2, cs2, A2, b2, cond2, 'given chi images', 3e-6)
    p0 = list(tr.getParams())
    jv = quiet(lambda: tr.optimize(damp=damp, priors=priors, scale_columns=sc, just_variance=True))
    m.check(isinstance(jv, np.ndarray) and jv.ndim == 1 and len(jv) == len(v[1]), 'c14.variance', 'asking for just the variance returns the variance', got=repr(type(jv)))
    m.close(jv, v[1], 'c14.variance', 'just the variance is the variance reported with the update', rtol=1e-9)
    m.check(list(tr.getParams()) == p0, 'c14.variance', 'asking for just the variance moves no parameter')
    m.event('variance')
    m.state(cls.__name__, A.shape, damp > 0, sc, priors)
    m.sample(shape=A.shape, cond=cond, damp=damp, X=Xref)


def sc_dense(m, rng):
    tr, ims, srcs = build(m, rng)
    priors = chance(rng, 0.6)
    if priors and chance(rng, 0.7):
        add_priors(m, rng, tr)
        m.event('priors')
    ders = quiet(tr.getDerivs)
    A, b = system(tr, ders, priors)
    sc = chance(rng, 0.7)
    Xref, cs, cond = solve(A, b)
    usable(cond)
    if not sc and (cs > 0).any():
        if cs.max() / cs[cs > 0].min() * cond > 1e3:
            sc = True
    opt = ConstrainedDenseOptimizer()
    p0 = list(tr.getParams())
    got = quiet(lambda: opt.getLinearUpdateDirection(tr, priors=priors, scale_columns=sc, shared_params=False))
    m.equal(list(tr.getParams()), p0, 'c14.dense', 'computing a direction changes no parameter')
    m.event('dense')
    m.state('dense', A.shape, sc, priors)
    if not (cs > 0).any():
        m.check(got is None or len(got) == 0 or not np.any(got), 'c14.dense', 'nothing to fit')
        m.event('no derivatives')
        return
    compare(m, 'c14.dense', got, Xref, cs, A, b, cond, 'dense', 3e-5 if sc else 3e-4)
    # explicit chi images are used instead of the current residuals; empty patches stand for no derivative
    chis = [rng.normal(size=im.img.shape).astype(np.float32) for im in ims]
    ders = quiet(tr.getDerivs)
    if chance(rng, 0.5):
        for dd in ders:
            if chance(rng, 0.5):
                dd.insert(int(rng.integers(len(dd) + 1)), (Patch(0, 0, None), pick(rng, ims).img))
                m.event('empty derivative')
    A2, b2 = system(tr, ders, False, chis=chis)
    X2, cs2, cond2 = solve(A2, b2)
    if cond2 < 40 and (cs2 > 0).any():
        got = quiet(lambda: opt.getUpdateDirection(tr, ders, priors=False, chiImages=chis, shared_params=False))
        compare(m, 'c14.chis', got, X2, cs2, A2, b2, cond2, 'dense, given chi images', 3e-5)
        m.event('chi images')


def sc_smarter(m, rng):
    """Restricted to scenes in which all sources of an image share one model-mask rectangle."""
    tr, ims, srcs = build(m, rng, nsrc=int(rng.integers(1, 3)), psf_kinds=['gm', 'nc', 'gme'], margin=-2)
    tr.freezeParam('images')
    if tr.numberOfParams() == 0:
        raise Skip
    masks = []
    for im in ims:
        x0, y0 = int(rng.integers(0, im.W // 3)), int(rng.integers(0, im.H // 3))
        w, h = int(rng.integers(im.W // 2, im.W - x0 + 1)), int(rng.integers(im.H // 2, im.H - y0 + 1))
        mm = {}
        for s in srcs:
            if chance(rng, 0.9):
                mm[s] = ModelMask(x0, y0, w, h)
        masks.append(mm)
    tr.setModelMasks(masks)
    priors = chance(rng, 0.6)
    if priors and chance(rng, 0.7):
        add_priors(m, rng, tr)
        m.event('priors')
    ders = quiet(tr.getDerivs)
    A, b = system(tr, ders, priors)
    # pixels outside the union of the masks cannot matter
    Xref, cs, cond = solve(A, b)
    usable(cond)
    sc = chance(rng, 0.7)
    if not sc and (cs > 0).any() and cs.max() / cs[cs > 0].min() * cond > 1e3:
        sc = True
    opt = SmarterDenseOptimizer()
    live = [len(d) > 0 for d in ders]
    got = quiet(lambda: opt.getLinearUpdateDirection(tr, priors=priors, scale_columns=sc, shared_params=False))
    m.event('smarter')
    m.state('smarter', A.shape, sc, priors)
    if not (cs > 0).any():
        m.check(got is None or len(got) == 0 or not np.any(got), 'c14.smarter', 'nothing to fit')
        m.event('no derivatives')
        return
    compare(m, 'c14.smarter', got, Xref, cs, A, b, cond, 'smarter dense', 3e-5 if sc else 3e-4)
    if chance(rng, 0.5):
        R = quiet(lambda: opt.getUpdateDirection(tr, quiet(tr.getDerivs), priors=priors, scale_columns=True, shared_params=False, get_cov=True))
        X, ic, cols = R
        full = np.zeros(len(ders))
        full[cols] = X
        compare(m, 'c14.smarter', full, Xref, cs, A, b, cond, 'smarter dense (covariance)', 3e-5)
        ref = (A.T @ A)[np.ix_(cols, cols)]
        sd = np.sqrt(np.maximum(np.diag(ref), 1e-300))
        m.check(np.all(np.abs(ic - ref) <= 3e-5 * np.outer(sd, sd) + 1e-30), 'c14.cov', 'inverse covariance is A^T A')
        m.check(set(np.flatnonzero(cs > 0)) <= set(int(c) for c in cols), 'c14.cov', 'every parameter with derivatives is reported')
        m.event('covariance')


def sc_shared(m, rng):
    """Parameters shared between sources get one common update."""
    tr, ims, srcs = build(m, rng, psf_kinds=['gm', 'nc'], src_kinds=['pt', 'exp', 'gauss'], nsrc=int(rng.integers(2, 5)), margin=-3)
    tr.thawAllRecursive()
    tr.freezeParam('images')
    names = ['brightness'] if chance(rng, 0.6) else ['brightness', 'shape']
    did = False
    for k in range(1, len(srcs)):
        for nm in names:
            j = int(rng.integers(k))
            if nm in srcs[k].namedparams and nm in srcs[j].namedparams and type(getattr(srcs[k], nm)) is type(getattr(srcs[j], nm)) and chance(rng, 0.6):
                setattr(srcs[k], nm, getattr(srcs[j], nm))
                did = True
    if not did:
        raise Skip
    for s in srcs:
        if chance(rng, 0.5):
            s.freezeParam('pos')
    p0 = list(tr.getParams())
    n = len(p0)
    # which entries of the vector are one and the same parameter
    ident = []

    def visit(p):
        if hasattr(p, 'subs'):
            for s, l in zip(p.subs, p.liquid):
                if l and s is not None:
                    visit(s)
        elif hasattr(p, 'liquid'):
            ident.extend((id(p), i) for i, l in enumerate(p.liquid) if l)
        else:
            ident.extend((id(p), i) for i in range(p.numberOfParams()))
    visit(tr)
    m.equal(len(ident), n, 'c14.shared', 'harness sees every parameter')
    u = sorted(set(ident), key=ident.index)
    mp = np.array([u.index(i) for i in ident])
    if len(u) == n:
        raise Skip
    ders = quiet(tr.getDerivs)
    A, b = system(tr, ders, False)
    B = np.zeros((len(b), len(u)))
    for j in range(n):
        B[:, mp[j]] += A[:, j]
    Xref, cs, cond = solve(B, b)
    usable(cond)
    if not (cs > 0).all():
        raise Skip
    sc = chance(rng, 0.6)
    if not sc:
        c2 = np.linalg.cond(B)
        sc = c2 > 40
        if not sc:
            cond = max(cond, c2)
    got = np.asarray(quiet(lambda: LsqrOptimizer().getLinearUpdateDirection(tr, priors=False, scale_columns=sc, shared_params=True)))
    m.equal(list(tr.getParams()), p0, 'c14.shared', 'computing a direction changes no parameter')
    m.equal(len(got), n, 'c14.shared', 'one entry per parameter')
    for k in range(len(u)):
        v = got[mp == k]
        m.close(v, np.full(len(v), v[0]), 'c14.shared', 'entries of a shared parameter get the same update', rtol=1e-9)
    first = [int(np.flatnonzero(mp == k)[0]) for k in range(len(u))]
    compare(m, 'c14.shared', got[first], Xref, cs, B, b, cond, 'shared parameters', 1e-5)
    m.event('shared')
    m.state('shared', n, len(u), sc)


def sc_spline(m, rng):
    """Spline sky with smoothness prior: rows touching two parameters."""
    tr, ims, srcs = S.scene(rng, nim=1, nsrc=int(rng.integers(0, 2)), size=(24, 40), src_kinds=['pt'], psf_kinds=['gm'], astro_kind='null')
    im = ims[0]
    X, Y = np.linspace(0, im.W, int(rng.integers(4, 6))), np.linspace(0, im.H, int(rng.integers(4, 6)))
    sky = SplineSky(X, Y, rng.normal(0, 1, (len(Y), len(X))))
    if chance(rng, 0.8):
        sky.setPriorSmoothness(loguni(rng, 0.01, 3.))
    im.img.sky = sky
    for k in ('psf', 'wcs', 'photocal'):
        im.img.freezeParam(k)
    tr.freezeParam('catalog') if chance(rng, 0.5) else None
    ders = quiet(tr.getDerivs)
    A, b = system(tr, ders, True)
    Xref, cs, cond = solve(A, b)
    usable(cond)
    for cls in (LsqrOptimizer, ConstrainedDenseOptimizer):
        got = quiet(lambda: cls().getLinearUpdateDirection(tr, priors=True, shared_params=False))
        compare(m, 'c14.spline', got, Xref, cs, A, b, cond, cls.__name__, 3e-5)
    m.event('priors')
    m.state('spline', A.shape, round(cond))


SCENARIOS = {
    'lsqr': (sc_lsqr, 200, 2500),
    'dense': (sc_dense, 120, 1500),
    'smarter': (sc_smarter, 100, 1500),
    'shared': (sc_shared, 70, 1000),
    'spline': (sc_spline, 20, 300),
}
QUICK = 5
