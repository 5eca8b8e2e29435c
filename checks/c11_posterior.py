"""C11: the log-likelihood and log-posterior are the Gaussian ones, recomputed pixel by pixel."""
import contextlib
import io

import numpy as np

import scene as S
import zoo
from zoo import pick, chance, loguni
from monitor import Skip
from tractor import Image, Tractor, PointSource, PixPos, NanoMaggies
from tractor.utils import ParamList

RULE = 'random scenes (images, masks, weights, priors) and parameter changes; distinct by (kinds, sizes, prior layout)'
NEED = {'likelihood': 300, 'chi image': 200, 'masked pixels changed': 60, 'posterior': 200, 'illegal': 40, 'not finite': 20}
KINDS = zoo.SRC + ['sersic']


def build(rng, **kw):
    kw.setdefault('src_kinds', KINDS)
    kw.setdefault('maskfrac', pick(rng, [0., 0.1, 0.5, 1.]))
    tr, ims, srcs = S.scene(rng, **kw)
    for im in ims:
        if chance(rng, 0.4):
            # data that resembles the model plus noise, so chi is not dominated by the data
            mod = np.array(tr.getModelImage(im.img), float)
            im.img.data[:] = (mod + rng.normal(size=mod.shape)).astype(im.img.data.dtype)
        if chance(rng, 0.25):
            # exposures of very different depth within one image
            w = np.asarray(im.img.inverr)
            g = np.exp(rng.uniform(-14, 0, w.shape)) if chance(rng, 0.5) else np.where(np.arange(w.shape[1]) < w.shape[1] * rng.uniform(0.2, 0.9), loguni(rng, 1e-5, 1e-1), 1.)
            im.img.inverr = (w * g).astype(w.dtype)
            if chance(rng, 0.5):
                # residuals of about one sigma everywhere
                ok = im.img.inverr > 0
                im.img.data[ok] += (rng.normal(size=ok.sum()) / im.img.inverr[ok]).astype(im.img.data.dtype)
    return tr, ims, srcs


def f64(im):
    return np.asarray(im.img.getImage(), float), np.asarray(im.img.getInvError(), float)


def chi_ref(tr, im, mod=None, **kw):
    if mod is None:
        mod = np.array(tr.getModelImage(im.img, minsb=0., **kw), float)
    d, w = f64(im)
    return (d - mod) * w, (np.abs(d) + np.abs(mod)) * w


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def lnl_ref(tr, ims, **kw):
    tot, err = 0., 0.
    for im in ims:
        c, s = chi_ref(tr, im, **kw)
        tot += np.sum(c * c)
        err += np.sum(np.abs(c) * s) * 3e-7 + 1e-13 * np.sum(s * s)
    return -0.5 * tot, err + 1e-9 * abs(tot)


def sc_likelihood(m, rng):
    tr, ims, srcs = build(rng)
    for im in ims:
        if chance(rng, 0.3):
            im.img.data = im.img.data.astype(float)
            im.img.inverr = im.img.inverr.astype(float) * loguni(rng, 0.9, 1.1)
            m.event('double precision')
        if chance(rng, 0.05):
            # squares beyond the range of single precision
            im.img.data = im.img.data * im.img.data.dtype.type(1e24)
            m.event('huge residuals')
    for step in range(3):
        for i, im in enumerate(ims):
            c, s = chi_ref(tr, im)
            double = im.img.data.dtype == np.float64 and im.img.inverr.dtype == np.float64
            for got in (tr.getChiImage(i), tr.getChiImage(img=im.img)):
                m.check(got.shape == (im.H, im.W), 'c11.chi', 'shape of the chi image')
                d = np.abs(np.asarray(got, float) - c)
                m.check(np.all(d <= (1e-14 if double else 1e-6) * s + 1e-12), 'c11.chi', 'chi = (data - model) / sigma', worst=float(d.max()))
            m.event('chi image')
        allc = list(tr.getChiImages())
        m.equal(len(allc), len(ims), 'c11.chi', 'one chi image per image')
        for a, i in zip(allc, range(len(ims))):
            m.check(np.array_equal(a, tr.getChiImage(i)), 'c11.chi', 'chi images in image order')
        L, err = lnl_ref(tr, ims)
        got = tr.getLogLikelihood()
        m.close(got, -0.5 * sum(np.sum(np.asarray(a, float)**2) for a in allc), 'c11.lnl', 'log-likelihood is minus half the sum of the squares of the chi images', rtol=1e-11, atol=1e-12)
        m.close(got, L, 'c11.lnl', 'log-likelihood is minus half the chi-squared over all images', rtol=0, atol=err)
        m.close(tr.getLogProb(), L + tr.getLogPrior(), 'c11.lnp', 'posterior = likelihood + prior', rtol=1e-12, atol=err)
        m.event('likelihood')
        m.state(len(ims), len(srcs), step, round(got, 3))
        # leave-one-out additivity over images
        parts = [Tractor([im.img], srcs).getLogLikelihood() for im in ims]
        m.close(sum(parts), got, 'c11.lnl', 'log-likelihoods of the images add', rtol=1e-9, atol=1e-9 + err)
        # move on
        p = np.array(tr.getParams(), float)
        k = int(rng.integers(len(p)))
        ss = tr.getStepSizes()[k]
        tr.setParam(k, p[k] + ss * float(rng.uniform(-1, 1)))
        if tr.getLogPrior() == -np.inf:
            tr.setParam(k, p[k])
    m.sample(lnl=got, images=len(ims), kinds=[type(s).__name__ for s in srcs])


def sc_masked(m, rng):
    """Pixels of zero weight are irrelevant whatever they hold; weights act as 1/sigma."""
    tr, ims, srcs = build(rng, maskfrac=pick(rng, [0.1, 0.5, 0.9, 1.]))
    L0 = tr.getLogLikelihood()
    L, err = lnl_ref(tr, ims)
    m.close(L0, L, 'c11.lnl', 'log-likelihood', rtol=0, atol=err)
    for im in ims:
        z = im.img.inverr == 0
        n = int(z.sum())
        if n:
            v = pick(rng, [0., 1e6, -1e12, 1e30, 65535.])
            im.img.data[z] = np.where(rng.random(n) < 0.5, v, rng.normal(0, 1e3, n))
            m.event('masked pixels changed', n)
    m.equal(tr.getLogLikelihood(), L0, 'c11.masked', 'pixels of zero weight changed the likelihood')
    for im in ims:
        c = np.asarray(tr.getChiImage(img=im.img))
        m.check(np.all(c[im.img.inverr == 0] == 0), 'c11.masked', 'chi of a masked pixel')
    # masking further pixels takes away exactly their chi^2
    k = int(rng.integers(len(ims)))
    im = ims[k]
    c, s = chi_ref(tr, im)
    kill = rng.random(im.img.inverr.shape) < pick(rng, [0.02, 0.3, 1.])
    ie = im.img.inverr.copy()
    ie[kill] = 0
    gone = np.sum(np.where(kill, c, 0.)**2)
    old = im.img.inverr
    im.img.setInvError(ie)
    L1 = tr.getLogLikelihood()
    m.close(L1, L0 + 0.5 * gone, 'c11.masked', 'masking pixels removes their terms', rtol=1e-6, atol=2 * err + 1e-5 * abs(L0) * 1e-3)
    m.event('likelihood')
    # scaling all errors by f scales the likelihood by 1/f^2
    im.img.setInvError(old)
    f = loguni(rng, 0.1, 10.)
    for im in ims:
        im.img.setInvError((np.asarray(im.img.getInvError(), float) / f).astype(np.float32))
    m.close(tr.getLogLikelihood(), L0 / f**2, 'c11.weights', 'likelihood scales with the inverse variance', rtol=2e-6, atol=err)
    m.event('likelihood')
    m.state(len(ims), round(L0, 3))


def sc_invvar(m, rng):
    """Images given inverse variances, inverse errors, or both."""
    tr, ims, srcs = build(rng)
    im = ims[0]
    ie = np.asarray(im.img.getInvError(), np.float64)
    iv = ie**2
    kw = dict(data=im.img.data.copy(), psf=im.img.psf, wcs=im.img.wcs, sky=im.img.sky, photocal=im.img.photocal)
    one = Tractor([Image(inverr=ie.copy(), **kw)], srcs)
    want = one.getLogLikelihood()
    L, err = lnl_ref(one, [type('X', (), dict(img=one.images[0]))])
    m.close(want, L, 'c11.invvar', 'likelihood with inverse errors', rtol=0, atol=err)
    two = Tractor([Image(invvar=iv.copy(), **kw)], srcs)
    m.close(two.getLogLikelihood(), want, 'c11.invvar', 'inverse variance versus inverse error', rtol=1e-7, atol=1e-9)
    three = Tractor([Image(inverr=ie.copy(), invvar=rng.random(ie.shape), **kw)], srcs)
    m.equal(three.getLogLikelihood(), want, 'c11.invvar', 'inverse error takes precedence')
    i2 = two.images[0]
    m.close(i2.getInvvar(), iv, 'c11.invvar', 'getInvvar', rtol=1e-12)
    m.close(i2.invvar, iv, 'c11.invvar', 'invvar', rtol=1e-12)
    m.close(i2.getInvError(), ie, 'c11.invvar', 'getInvError', rtol=1e-12)
    nv = rng.uniform(0, 2, iv.shape)
    i2.setInvvar(nv)
    m.close(i2.getInvError()**2, nv, 'c11.invvar', 'setInvvar', rtol=1e-12)
    d2 = rng.normal(size=iv.shape)
    i2.setImage(d2)
    L, err = lnl_ref(two, [type('X', (), dict(img=i2))])
    m.close(two.getLogLikelihood(), L, 'c11.invvar', 'new data and weights are used', rtol=0, atol=err)
    m.event('likelihood', 4)
    m.state(im.H, im.W, round(want, 3))


def sc_posterior(m, rng):
    """Prior + likelihood; illegal parameters have zero probability; the callable evaluates a vector."""
    tr, ims, srcs = build(rng, maskfrac=0.1)
    lists = []

    def visit(p):
        if isinstance(p, ParamList) and type(p).__name__ not in ('SplineSky',):
            if p.namedparams:
                lists.append(p)
        for s in getattr(p, 'subs', []):
            if s is not None:
                visit(s)
    for s in srcs:
        visit(s)
    expect = []
    for k in range(int(rng.integers(0, 6))):
        if not lists:
            break
        p = pick(rng, lists)
        nm = pick(rng, sorted(p.namedparams))
        i = p.getNamedParamIndex(nm)
        v = p.getAllParams()[i]
        sg = loguni(rng, 1e-4, 1e3)
        mu = v + sg * float(rng.normal()) * 2
        p.addGaussianPrior(nm, mu, sg)
        expect.append((p, i, mu, sg))
        m.op('prior', type(p).__name__, nm, mu, sg)
    X0 = list(tr.getParams())

    def prior():
        t = 0.
        for p, i, mu, sg in expect:
            t += -0.5 * ((p.getAllParams()[i] - mu) / sg)**2
        return t
    for step in range(3):
        pr = prior()
        m.close(tr.getLogPrior(), pr, 'c11.prior', 'log-prior is the sum of its Gaussian terms', rtol=1e-9, atol=1e-9)
        L, err = lnl_ref(tr, ims)
        got = tr.getLogProb()
        m.close(got, pr + L, 'c11.lnp', 'log-posterior', rtol=1e-9, atol=err)
        m.event('posterior')
        m.state(len(expect), len(srcs), round(got, 3))
        X = np.array(X0, float)
        ss = np.array(tr.getStepSizes())
        X = X + ss * rng.uniform(-0.3, 0.3, len(X)) * (rng.random(len(X)) < 0.3)
        tr.setParams(X)
        bad = tr.getLogPrior() == -np.inf
        if bad:
            X = np.array(X0, float)
        tr.setParams(X0)
        got = tr(list(X))
        m.check(np.array_equal(np.array(tr.getParams(), float), X), 'c11.call', 'calling a tractor sets the parameters')
        m.equal(got, tr.getLogProb(), 'c11.call', 'calling a tractor returns the posterior of those parameters')
        m.event('posterior')
    # illegal values
    ell = [p for p in lists if type(p).__name__ in ('EllipseE', 'GalaxyShape')]
    ill = [p for p in ell if type(p).__name__ == 'EllipseE']
    ser = [s.sersicindex for s in srcs if hasattr(s, 'sersicindex')]
    if ill or ser:
        q = pick(rng, ill + ser)
        isser = any(q is s for s in ser)
        if isser:
            old = q.getValue()
            q.setValue(pick(rng, [0.05, 0.28, 6.31, 20., -1.]))
        else:
            old = list(q.getAllParams())
            q.setAllParams(pick(rng, [[old[0], 0.9, 0.9], [-1., 0., 0.], [old[0], -1.01, 0.], [old[0], 0., 1.]]))
        m.equal(tr.getLogProb(), -np.inf, 'c11.illegal', 'illegal parameters have zero probability')
        m.event('illegal')
        if isser:
            q.setValue(old)
        else:
            q.setAllParams(old)
        m.check(np.isfinite(tr.getLogProb()), 'c11.illegal', 'legal again')
    # a frozen component does not contribute its prior, a frozen catalog leaves only the likelihood
    tr.freezeParam('catalog')
    m.close(tr.getLogProb(), tr.getLogLikelihood(), 'c11.frozen', 'frozen catalog: likelihood only', rtol=1e-12, atol=1e-9)
    tr.thawParam('catalog')
    # a parameter that is not a number, in a band that none of the images is taken in
    src = Tractor([], [PointSource(PixPos(-1e4, -1e4), NanoMaggies(zz=float('nan')))]).catalog[0]
    src.brightness.addGaussianPrior('zz', 1., 2.)
    src.freezeAllBut('brightness')
    two = Tractor([], [src])
    m.check(np.isnan(two.getLogPrior()), 'c11.harness', 'a prior that is not a number')
    m.equal(quiet(two.getLogProb), -np.inf, 'c11.nan', 'a prior that is not a number')
    # non-finite data: probability zero, never NaN
    im = pick(rng, ims)
    live = np.argwhere(im.img.inverr > 0)
    if len(live):
        y, x = live[int(rng.integers(len(live)))]
        im.img.data[y, x] = pick(rng, [np.nan, np.inf, -np.inf])
        got = quiet(tr.getLogProb)
        m.equal(got, -np.inf, 'c11.nan', 'non-finite data')
        m.event('not finite')


SCENARIOS = {
    'likelihood': (sc_likelihood, 60, 1500),
    'masked': (sc_masked, 60, 1500),
    'invvar': (sc_invvar, 40, 800),
    'posterior': (sc_posterior, 80, 2000),
}
QUICK = 5
