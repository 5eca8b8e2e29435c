"""C23: expectation-maximization fits of Gaussian mixtures: conservation, ascent, recovery, clean failure."""
import sys

import numpy as np

import zoo
import ref
from zoo import pick, chance, loguni
from monitor import Skip
from tractor import emfit
from tractor.fitpsf import em_init_params
from tractor.psf import GaussianMixturePSF, GaussianMixtureEllipsePSF, HybridPixelizedPSF, PixelizedPSF
from tractor.ellipses import EllipseESoft

RULE = 'random images or samples drawn from mixtures of 1-4 Gaussians and random starting points, run step by step; distinct by (routine, K, layout, convergence class)'
QUICK = 3
NEED = {'sky single step': 200, '1d step': 400, '2d step': 400, 'sky step': 300, 'ascent': 600, 'conserved': 900, 'recovered': 60, 'stamp': 60, 'refused': 60, 'layout': 60, 'optimized stamp': 50}


def gauss2(xy, mu, V):
    d = xy - mu
    I = np.linalg.inv(V)
    return np.exp(-0.5 * np.sum(d * (d @ I), axis=1)) / (2 * np.pi * np.sqrt(np.linalg.det(V)))


def truth(rng, K):
    amp = rng.uniform(0.3, 1., K)
    amp /= amp.sum()
    mean = rng.uniform(-3, 3, (K, 2))
    var = np.array([zoo.rand_cov(rng, 1.0, 3.) for k in range(K)])
    return amp, mean, var


def start(rng, K):
    amp = rng.dirichlet(np.ones(K) * 3)
    mean = rng.uniform(-3, 3, (K, 2))
    var = np.array([zoo.rand_cov(rng, 1.5, 4.) for k in range(K)])
    return amp, mean, var


def picture(rng):
    H, W = int(rng.integers(15, 30)), int(rng.integers(15, 30))
    x0, y0 = -(W // 2) + int(rng.integers(-2, 3)), -(H // 2) + int(rng.integers(-2, 3))
    ta, tm, tv = truth(rng, int(rng.integers(1, 4)))
    yy, xx = np.mgrid[y0:y0 + H, x0:x0 + W]
    xy = np.c_[xx.ravel(), yy.ravel()].astype(float)
    im = sum(a * gauss2(xy, u, V) for a, u, V in zip(ta, tm, tv))
    im = im + 1e-3 * rng.uniform(0, 1, im.shape) * im.max()
    return im.reshape(H, W), xy, x0, y0


def step2(img, xy, amp, mean, var, alpha):
    """One textbook EM step for a weighted sample (inverse-Wishart prior of strength alpha)."""
    K = len(amp)
    Z = np.array([a * gauss2(xy, u, V) for a, u, V in zip(amp, mean, var)])
    Z = Z / Z.sum(axis=0)
    w = Z * img.ravel()
    A = w.sum(axis=1)
    M = (w @ xy) / A[:, None]
    V = np.array([((w[k][:, None] * (xy - M[k])).T @ (xy - M[k]) + alpha * np.eye(2)) / (A[k] + alpha) for k in range(K)])
    return A, M, V


def loglike2(img, xy, amp, mean, var, sky=0.):
    p = sum(a * gauss2(xy, u, V) for a, u, V in zip(amp, mean, var)) + sky
    return np.sum(img.ravel() * np.log(p))


def ok2(xy, mean, var):
    """Everything within ten sigma of every component, so that nothing is cut off."""
    for u, V in zip(mean, var):
        d = xy - u
        if np.max(np.sum(d * (d @ np.linalg.inv(V)), axis=1)) > 95. or np.linalg.eigvalsh(V)[0] < 0.15:
            return False
    return True


def moments(m, img, xy, amp, mean, var, sc):
    w = img.ravel()
    m.close(amp.sum(), w.sum(), 'c23.flux', 'the amplitudes add up to the flux', rtol=1e-9)
    m.close(amp @ mean, w @ xy, 'c23.mean', 'the mixture has the first moments of the data', rtol=0, atol=1e-8 * sc * w.sum())
    S = sum(a * (V + np.outer(u, u)) for a, u, V in zip(amp, mean, var))
    m.close(S, (xy * w[:, None]).T @ xy, 'c23.cov', 'the mixture has the second moments of the data', rtol=0, atol=1e-8 * sc ** 2 * w.sum())
    m.event('conserved')


def sc_2d(m, rng):
    img, xy, x0, y0 = picture(rng)
    flux = pick(rng, [1., 1., 100., 1e-2])
    img = img / img.sum() * flux
    K = int(rng.integers(1, 5))
    amp, mean, var = start(rng, K)
    amp *= flux
    alpha = pick(rng, [0., 0., float(loguni(rng, 1e-3, 1.))]) * flux
    img0 = img.copy()
    last = None
    sc = np.abs(xy).max()
    for step in range(12):
        if not ok2(xy, mean, var):
            break
        pa, pm, pv = amp.copy(), mean.copy(), var.copy()
        wa, wm, wv = step2(img, xy, amp, mean, var, alpha)
        r = emfit.em_fit_2d_reg(img, x0, y0, amp, mean, var, float(alpha), 1)
        m.equal(r, 0, 'c23.ret', 'return value')
        m.close(amp, wa, 'c23.step.amp', 'amplitudes after one step', rtol=1e-7, atol=1e-9 * flux, alpha=alpha)
        m.close(mean, wm, 'c23.step.mean', 'means after one step', rtol=0, atol=1e-7 * sc)
        m.close(var, wv, 'c23.step.var', 'covariances after one step', rtol=0, atol=1e-7 * sc ** 2)
        m.event('2d step')
        if alpha == 0:
            moments(m, img, xy, amp, mean, var, sc)
            L = loglike2(img, xy, amp, mean, var)
            if last is not None:
                m.check(L >= last - 1e-9 * abs(last) - 1e-9 * flux, 'c23.ascent', 'a step does not decrease the likelihood', before=last, after=L)
                m.event('ascent')
            last = L
    m.check(np.array_equal(img, img0), 'c23.input', 'the image is left alone')
    # many steps at once = one by one
    amp, mean, var = start(rng, K)
    amp *= flux
    a2, m2, v2 = amp.copy(), mean.copy(), var.copy()
    n = int(rng.integers(0, 6))
    emfit.em_fit_2d_reg(img, x0, y0, amp, mean, var, float(alpha), n)
    for i in range(n):
        emfit.em_fit_2d_reg(img, x0, y0, a2, m2, v2, float(alpha), 1)
    if np.all(np.isfinite(a2)):
        m.close(np.r_[amp, mean.ravel(), var.ravel()], np.r_[a2, m2.ravel(), v2.ravel()], 'c23.split', '%i steps at once' % n, rtol=1e-12, atol=0)
    m.state('2d', K, alpha > 0, flux, step)


def sc_sky(m, rng):
    """The fit with a sky component: all the flux is accounted for."""
    img, xy, x0, y0 = picture(rng)
    flux = pick(rng, [1., 50.])
    img = img / img.sum() * flux
    lvl = pick(rng, [0., 0.2, 1.]) * flux / img.size
    img = img + lvl
    neg = chance(rng, 0.3)
    if neg:
        img.flat[rng.integers(0, img.size, 10)] *= -0.1
    K = int(rng.integers(1, 4))
    amp, mean, var = start(rng, K)
    amp *= flux
    tot = np.abs(img).sum()
    last = None
    sky = 0.01 * img.sum() / img.size
    for n in range(1, 9):
        a, u, V = amp.copy(), mean.copy(), var.copy()
        r, psky = emfit.em_fit_2d_reg2(img, x0, y0, a, u, V, 0., n, 1e-30)
        m.equal(r, 0, 'c23.ret', 'return value')
        m.close(a.sum() + psky * img.size, tot, 'c23.sky', 'components and sky add up to the flux', rtol=1e-9)
        m.event('conserved')
        m.event('sky step')
        m.check(psky >= 0 and np.all(a >= 0), 'c23.sky', 'non-negative fluxes', psky=psky, amp=a)
        m.close(V[:, 0, 1], V[:, 1, 0], 'c23.sym', 'symmetric covariance', rtol=0, atol=0)
        if not neg:
            p = sum(aa * gauss2(xy, uu, VV) for aa, uu, VV in zip(a, u, V)) + psky
            L = np.sum(img.ravel() * np.log(p))
            # (the model is normalized over the plane, not over the stamp: a bounded correction)
            if last is not None:
                m.check(L >= last - 1e-7 * abs(last) - 1e-9 * flux, 'c23.ascent', 'a step does not decrease the likelihood', before=last, after=L, n=n)
                m.event('ascent')
            last = L
        if not ok2(xy, u, V):
            break
    m.state('sky', K, lvl > 0, neg, flux)


def skystep(img, xy, amp, mean, var, alpha, psky):
    """One EM step with a uniform background; what is not positive belongs to the background."""
    w = img.ravel()
    pos = w > 0
    Z = np.array([a * gauss2(xy, u, V) for a, u, V in zip(amp, mean, var)]) * pos
    tot = Z.sum(axis=0) + psky
    R = Z / tot * np.where(pos, w, 0.)
    A = R.sum(axis=1)
    sky = np.sum(np.where(pos, w * psky / tot, np.abs(w))) / w.size
    M = (R @ xy) / A[:, None]
    def spread(C):
        return np.array([((R[k][:, None] * (xy - C[k])).T @ (xy - C[k]) + alpha * np.eye(2)) / (A[k] + alpha) for k in range(len(amp))])
    return A, M, (spread(mean), spread(M)), sky


def sc_skystep(m, rng):
    """Single steps of the fit with sky against the textbook step, faint and bright components alike."""
    img, xy, x0, y0 = picture(rng)
    flux = pick(rng, [1., 50.])
    img = img / img.sum() * flux + pick(rng, [0., 0.2, 1.]) * flux / img.size
    if chance(rng, 0.3):
        img.flat[rng.integers(0, img.size, 10)] *= -0.1
    K = int(rng.integers(1, 5))
    amp, mean, var = start(rng, K)
    if chance(rng, 0.6):
        amp[0] *= loguni(rng, 1e-7, 1e-2)
        if chance(rng, 0.5):
            var[0] *= loguni(rng, 0.3, 6.)
        m.event('faint component')
    amp *= flux
    if not ok2(xy, mean, var):
        raise Skip('too narrow')
    alpha = pick(rng, [0., 0., float(loguni(rng, 1e-3, 1.)) * flux])
    A, M, VV, sky = skystep(img, xy, amp, mean, var, alpha, 0.01 * img.sum() / img.size)
    a, u, V = amp.copy(), mean.copy(), var.copy()
    r, psky = emfit.em_fit_2d_reg2(img, x0, y0, a, u, V, float(alpha), 1, 1e-30)
    sc = np.abs(xy).max()
    m.equal(r, 0, 'c23.ret', 'return value')
    m.close(a, A, 'c23.step.amp', 'amplitudes after one step with sky', rtol=1e-7, atol=0, alpha=alpha)
    m.close(u, M, 'c23.step.mean', 'means after one step with sky', rtol=0, atol=1e-7 * sc)
    # (spread about the previous or about the new mean)
    e = [np.max(np.abs(V - v)) for v in VV]
    m.check(min(e) <= 1e-7 * sc ** 2, 'c23.step.var', 'covariances after one step with sky', error=e)
    m.close(psky, sky, 'c23.step.sky', 'sky after one step', rtol=1e-8, atol=0)
    m.event('sky single step')
    m.state('skystep', K, alpha > 0, flux)


def sc_1d(m, rng):
    K = int(rng.integers(1, 5))
    N = int(rng.integers(30, 200))
    mu, sg = rng.uniform(-4, 4, K), rng.uniform(0.5, 2., K)
    z = rng.integers(0, K, N)
    x = mu[z] + sg[z] * rng.normal(size=N)
    amp, mean, var = rng.dirichlet(np.ones(K) * 3), rng.uniform(-4, 4, K), rng.uniform(1., 6., K)
    alpha = pick(rng, [0., 0., float(loguni(rng, 1e-2, 3.))])
    last = None
    x_ = x.copy()
    for step in range(12):
        if np.max((x[:, None] - mean) ** 2 / var) > 95. or var.min() < 0.05:
            break
        Z = amp * np.exp(-0.5 * (x[:, None] - mean) ** 2 / var) / np.sqrt(2 * np.pi * var)
        if last is None or alpha == 0:
            L = np.log(Z.sum(axis=1)).sum()
            if last is not None:
                m.check(L >= last - 1e-9 * abs(last), 'c23.ascent', 'a step does not decrease the likelihood', before=last, after=L)
                m.event('ascent')
            if abs(amp.sum() - 1) < 1e-9:
                last = L
        Z /= Z.sum(axis=1)[:, None]
        A = Z.sum(axis=0)
        M = (Z * x[:, None]).sum(axis=0) / A
        V = ((Z * (x[:, None] - M) ** 2).sum(axis=0) + alpha) / (A + alpha)
        if step % 2 or N > 150:
            emfit.em_fit_1d_samples_reg(x, amp, mean, var, alpha, 1)
        else:
            r = emfit.em_fit_1d_samples_reg(x, amp, mean, var, alpha, 1)
            m.equal(r, 0, 'c23.ret', 'return value')
        m.close(np.r_[amp, mean, var], np.r_[A / N, M, V], 'c23.1d', 'one step on samples', rtol=1e-7, atol=1e-9)
        m.event('1d step')
        m.close(amp.sum(), 1., 'c23.1dflux', 'weights add up to one', rtol=1e-9)
        if alpha == 0:
            m.close([(amp * mean).sum(), (amp * (var + mean ** 2)).sum()], [x.mean(), (x ** 2).mean()], 'c23.1dmom', 'moments of the samples', rtol=1e-8, atol=1e-8)
            m.event('conserved')
    m.check(np.array_equal(x, x_), 'c23.input', 'the samples are left alone')
    m.state('1d', K, alpha > 0, step)


def sc_recover(m, rng):
    """A stamp of a mixture is recovered from a reasonable start."""
    K = int(rng.integers(1, 3))
    s1 = float(rng.uniform(1.2, 1.8))
    tv = [zoo.rand_cov(rng, s1, s1 * 1.2)]
    ta = [1.]
    if K == 2:
        tv.append(zoo.rand_cov(rng, s1 * 2.2, s1 * 2.5))
        ta = [0.6, 0.4]
    half = int(np.ceil(5 * s1 * (2.5 if K == 2 else 1.2)))
    tm = np.zeros((K, 2)) + rng.uniform(-0.5, 0.5, 2)
    w, h = half + int(rng.integers(0, 3)), half + int(rng.integers(0, 3))
    st = ref.gauss([(a, u, V) for a, u, V in zip(ta, tm, tv)], -w, w + 1, -h, h + 1, 0., 0.)
    kind = pick(rng, ['plain', 'P0', 'xy0', 'v2', 'hybrid', 'list'])
    st0 = st.copy()
    kw = dict(N=K, emsteps=3000 if K == 2 else 300)
    off = np.zeros(2)
    m.op(kind, K)
    if kind == 'plain':
        p = GaussianMixturePSF.fromStamp(st * pick(rng, [1., 7.]), **kw)
    elif kind in ('P0', 'list'):
        P0 = (np.ones(K) / K, np.zeros((K, 2)), np.array([np.eye(2) * (1. + 3 * i) for i in range(K)]))
        if kind == 'list':
            P0 = list(GaussianMixturePSF(*P0).getParams())
        keep = [np.array(x).copy() for x in P0]
        p = GaussianMixturePSF.fromStamp(st, P0=P0, **kw)
        m.check(all(np.array_equal(a, b) for a, b in zip(P0, keep)), 'c23.P0', 'the starting point is left alone')
    elif kind == 'xy0':
        off = rng.integers(-20, 20, 2)
        p = GaussianMixturePSF.fromStamp(st, xy0=(-w + int(off[0]), -h + int(off[1])), P0=(np.ones(K) / K, np.zeros((K, 2)) + off, np.array([np.eye(2) * (1. + 3 * i) for i in range(K)])), **kw)
    elif kind == 'v2':
        p, sky = GaussianMixturePSF.fromStamp(st, v2=True, **kw)
        m.check(0 <= sky * st.size < 0.02, 'c23.v2sky', 'no sky in a stamp without', sky=sky * st.size)
    else:
        p = HybridPixelizedPSF(PixelizedPSF(st.astype(np.float32)), N=K).gauss
    m.check(np.array_equal(st, st0), 'c23.input', 'the stamp is left alone')
    got = ref.gauss([(a, u - off, V) for a, u, V in zip(p.mog.amp, p.mog.mean, p.mog.var)], -w, w + 1, -h, h + 1, 0., 0.)
    m.close(got, st, 'c23.recover', 'the fitted mixture reproduces the stamp', rtol=0, atol=(0.02 if K == 2 or kind == 'v2' else 2e-3) * st.max(), which=kind, K=K)
    m.close(p.mog.amp.sum(), 1., 'c23.recover', 'unit flux', rtol=0, atol=2e-3 if kind != 'v2' else 2e-2)
    m.event('recovered')
    m.event('stamp')
    m.state('recover', K, kind, int(s1 * 4))


def sc_refuse(m, rng):
    """Layouts are handled and ill-formed input refused without side effects."""
    img, xy, x0, y0 = picture(rng)
    img /= img.sum()
    K = int(rng.integers(1, 4))
    A, M, V = start(rng, K)
    if chance(rng, 0.5):
        # other layouts and types give the same fit, written back
        a, u, v = A.copy(), M.copy(), V.copy()
        f = pick(rng, ['float32', 'strided', 'fortran', 'img32', 'imgT'])
        im2 = img
        if f == 'float32':
            a2, u2, v2 = A.astype(np.float32), M.astype(np.float32), V.astype(np.float32)
            a, u, v = a2.astype(float), u2.astype(float), v2.astype(float)
        elif f == 'strided':
            a2, u2, v2 = np.zeros(2 * K)[::2], np.zeros((K, 4))[:, ::2], np.zeros((K, 2, 4))[:, :, 1::2]
            a2[...], u2[...], v2[...] = A, M, V
        elif f == 'fortran':
            a2, u2, v2 = A.copy(), np.asfortranarray(M), np.asfortranarray(V)
        else:
            a2, u2, v2 = A.copy(), M.copy(), V.copy()
            im2 = img.astype(np.float32) if f == 'img32' else np.ascontiguousarray(img.T).T
        which = chance(rng, 0.5)
        for (i, p, q, r) in ((img if f != 'img32' else im2.astype(float), a, u, v), (im2, a2, u2, v2)):
            if which:
                emfit.em_fit_2d_reg(i, x0, y0, p, q, r, 0.1, 3)
            else:
                emfit.em_fit_2d_reg2(i, x0, y0, p, q, r, 0.1, 3, 1e-30)
        m.close(np.r_[a2, u2.ravel(), v2.ravel()], np.r_[a, u.ravel(), v.ravel()], 'c23.layout', 'the fit does not depend on the memory layout of its arguments (%s)' % f,
                rtol=3e-6 if f == 'float32' else 1e-10, atol=1e-6 if f == 'float32' else 1e-12)
        m.event('layout')
        m.state('layout', f, K, which)
        return
    which = pick(rng, ['reg', 'reg2', '1d'])
    dt = pick(rng, [float, np.float32])
    a, u, v = A.astype(dt), M.astype(dt), V.astype(dt)
    if which == '1d':
        u, v = np.zeros(K, dt), np.ones(K, dt)
    bad = pick(rng, ['mean', 'var'])
    if bad == 'mean':
        u = np.zeros((K + 1,) + u.shape[1:], dt)
    else:
        v = np.ones((K + 1,) + v.shape[1:], dt)
    keep = [q.copy() for q in (a, u, v)]
    before = [sys.getrefcount(q) for q in (img, a, u, v)]
    for i in range(3):
        if which == 'reg':
            r = emfit.em_fit_2d_reg(img, x0, y0, a, u, v, 0.1, 2)
        elif which == 'reg2':
            r = emfit.em_fit_2d_reg2(img, x0, y0, a, u, v, 0.1, 2, 1e-10)[0]
        else:
            r = emfit.em_fit_1d_samples_reg(rng.normal(size=20), a, u, v, 0.1, 2)
        m.equal(r, -1, 'c23.refuse', 'mismatched shapes are refused')
    m.equal([sys.getrefcount(q) for q in (img, a, u, v)], before, 'c23.leak', 'a refused fit keeps no references to the arrays (%s)' % which)
    m.check(a.flags.writeable and u.flags.writeable and v.flags.writeable, 'c23.locked', 'a refused fit leaves the arrays writable')
    m.check(all(np.array_equal(p, q) for p, q in zip(keep, (a, u, v))), 'c23.refuse', 'a refused fit changes nothing')
    m.event('refused')
    m.state('refuse', which, bad, str(dt), K)


def sc_ellipse(m, rng):
    """A PSF of soft ellipses fitted by optimization: never worse than its starting point, exact for a single Gaussian,
    and the stamp and the starting parameters are left alone."""
    K = pick(rng, [1, 1, 2])
    amp = rng.uniform(0.4, 1., K)
    amp /= amp.sum()
    mean = rng.uniform(-0.4, 0.4, (K, 2))
    ell = [EllipseESoft(float(np.log(rng.uniform(1.2, 2.2) * (k + 1))), *map(float, rng.uniform(-0.3, 0.3, 2))) for k in range(K)]
    true = GaussianMixtureEllipsePSF(amp, mean, ell)
    S = int(rng.integers(12, 16))
    st = np.array(true.getPointSourcePatch(0., 0., radius=S).patch, float)
    keep = st.copy()
    P0 = None
    if chance(rng, 0.5):
        P0 = np.array(true.getAllParams()) + rng.normal(size=6 * K) * 0.03
        p = list(map(float, P0))
    else:
        p = list(np.ones(K) / K) + [0.] * (2 * K)
        for r in range(1, K + 1):
            p += [float(np.log(2. * r)), 0., 0.]
    begin = GaussianMixtureEllipsePSF(*p)
    err = lambda q: float(np.sum((np.array(q.getPointSourcePatch(0., 0., radius=S).patch, float) - st) ** 2))
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        fit = GaussianMixtureEllipsePSF.fromStamp(st, N=K, P0=(None if P0 is None else list(p)), approx=0.)
    m.check(np.array_equal(st, keep), 'ellipse', 'the stamp is left alone')
    e0, e1 = err(begin), err(fit)
    m.check(e1 <= e0 * (1 + 1e-6) + 1e-14, 'ellipse', 'an optimized PSF fit is no worse than its starting point', before=e0, after=e1, K=K)
    if K == 1:
        m.check(np.sqrt(e1) < 1e-4 * np.sqrt(np.sum(st ** 2)), 'ellipse', 'a single Gaussian is recovered by the PSF fit', residual=float(np.sqrt(e1)), start=p, truth=list(map(float, true.getAllParams())))
    m.event('optimized stamp')
    m.state(('ellipse', K, P0 is None, S))


SCENARIOS = {
    'ellipse': (sc_ellipse, 40, 600),
    '2d': (sc_2d, 300, 5000),
    'sky': (sc_sky, 200, 4000),
    'skystep': (sc_skystep, 150, 4000),
    '1d': (sc_1d, 200, 4000),
    'recover': (sc_recover, 120, 1500),
    'refuse': (sc_refuse, 250, 4000),
}
