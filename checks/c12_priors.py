"""C12: priors - value, least-squares form and reported indices agree with each other for every freeze pattern."""
import numpy as np

import scene as S
import zoo
from zoo import pick, chance, loguni
from monitor import Skip
from tractor import Tractor, PointSource, PixPos, Flux
from tractor.utils import ParamList, MultiParams, _GaussianPriors
from tractor.splinesky import SplineSky

RULE = 'random parameter trees with Gaussian priors under random freeze patterns; distinct by (tree kinds, prior layout, freeze pattern)'
NEED = {'prior added': 400, 'prior form checked': 600, 'frozen prior': 100, 'smoothness prior': 40, 'illegal': 40}


def leaves(p, out):
    if isinstance(p, MultiParams):
        for s in p.subs:
            if s is not None:
                leaves(s, out)
    elif isinstance(p, ParamList) and not isinstance(p, SplineSky) and p.namedparams:
        out.append(p)
    return out


def dense(X, n):
    """Prior system as dense A, b (accepting one or several entries per term)."""
    if X is None:
        return np.zeros((0, n)), np.zeros(0)
    rA, cA, vA, pb, mub = X
    b = np.hstack([np.ravel(x) for x in pb]) if len(pb) else np.zeros(0)
    A = np.zeros((len(b), n))
    for r, c, v in zip(rA, cA, vA):
        r, c, v = np.broadcast_arrays(np.ravel(r), np.ravel(c), np.ravel(v))
        for ri, ci, vi in zip(r, c, v):
            A[int(ri), int(ci)] += vi
    return A, b


def prior_form(m, top, rng, key, linear=True):
    """-1/2 |b - A d|^2 changes exactly as the log-prior does, for every displacement d."""
    p0 = np.array(top.getParams(), float)
    n = len(p0)
    X = top.getLogPriorDerivatives()
    if X is not None:
        for c in X[1]:
            m.check(np.all(np.asarray(c) >= 0) and np.all(np.asarray(c) < n), key + '.column', 'prior column outside the parameter vector', c=c, n=n)
    A, b = dense(X, n)
    l0 = top.getLogPrior()
    if not np.isfinite(l0):
        raise Skip
    q0 = -0.5 * np.sum(b**2)
    for k in range(4):
        d = np.zeros(n)
        if n:
            J = rng.random(n) < (0.3 if k else 1.)
            d[J] = rng.normal(size=J.sum()) * 0.01 * (np.abs(p0[J]) + 0.01)
            if k == 1:
                d[:] = 0
                d[int(rng.integers(n))] = 1e-3
        top.setParams(p0 + d)
        l1 = top.getLogPrior()
        top.setParams(p0)
        if not np.isfinite(l1):
            continue
        d = (p0 + d) - p0
        q1 = -0.5 * np.sum((b - A @ d)**2)
        m.close(l1 - l0, q1 - q0, key + '.value', 'change of the log-prior for a displacement of the thawed parameters',
                rtol=1e-6, atol=1e-9 + 1e-10 * (abs(l0) + abs(q0) + abs(q1)))
    m.event('prior form checked')
    return A, b, l0


def add_priors(m, rng, ls, nmax=8):
    added = []
    for k in range(int(rng.integers(1, nmax))):
        p = pick(rng, ls)
        nm = pick(rng, sorted(p.namedparams))
        i = p.namedparams[nm]
        sg = loguni(rng, 1e-3, 1e3)
        mu = p.getAllParams()[i] + float(rng.normal()) * sg
        p.addGaussianPrior(nm, mu, sg)
        added.append((p, nm, i, mu, sg))
        m.op('prior', type(p).__name__, nm, mu, sg)
        m.event('prior added')
    return added


def active_leaves(top, out, active=True):
    if isinstance(top, MultiParams):
        for s, l in zip(top.subs, top.liquid):
            if s is not None:
                active_leaves(s, out, active and l)
    elif active:
        out.append(top)
    return out


def tree_index(top, base, out):
    """(leaf, own index) -> index in top.getParams(), for thawed parameters only."""
    if isinstance(top, MultiParams):
        for s, l in zip(top.subs, top.liquid):
            if s is None or not l:
                continue
            base = tree_index(s, base, out)
        return base
    if isinstance(top, ParamList):
        for i, l in enumerate(top.liquid):
            if l:
                out[(id(top), i)] = base
                base += 1
        return base
    return base + top.numberOfParams()


def verify(m, rng, top, added, key):
    A, b, l0 = prior_form(m, top, rng, key)
    live = set(id(x) for x in active_leaves(top, []))
    want = 0.
    for p, nm, i, mu, sg in added:
        if id(p) in live:
            want += -0.5 * ((p.getAllParams()[i] - mu) / sg)**2
    m.close(l0, want, key + '.sum', 'log-prior is the sum of the Gaussian terms of the active components', rtol=1e-9, atol=1e-9)
    idx = {}
    tree_index(top, 0, idx)
    exp = sorted((idx[(id(p), i)], mu, sg) for p, nm, i, mu, sg in added if (id(p), i) in idx)
    if len(exp) < len(added):
        m.event('frozen prior')
    gp = sorted((int(i), float(a), float(s)) for i, a, s in top.getGaussianPriors())
    m.equal(gp, exp, key + '.indices', 'reported (index, mean, sigma) of the priors')
    # least-squares rows: one row per thawed prior, 1/sigma at its column, weighted residual on the right
    p0 = np.array(top.getParams(), float)
    rows = sorted((int(np.flatnonzero(A[r])[0]), float(A[r].max()), float(b[r])) for r in range(len(b)) if A[r].any())
    m.equal(len(rows), len(b), key + '.rows', 'every prior row touches a parameter')
    er = sorted((i, 1. / s, -(p0[i] - mu) / s) for i, mu, s in exp)
    m.close(np.array(rows).reshape(-1, 3), np.array(er).reshape(-1, 3), key + '.rows', 'prior rows', rtol=1e-9, atol=1e-9)
    m.state(len(added), len(exp), len(p0), round(l0, 4))


def freeze_some(rng, p, prob):
    if hasattr(p, 'liquid'):
        for i in range(len(p.liquid)):
            if chance(rng, prob):
                p.liquid[i] = False
        for s in getattr(p, 'subs', []):
            if s is not None:
                freeze_some(rng, s, prob)


def sc_tractor(m, rng):
    tr, ims, srcs = S.scene(rng, src_kinds=zoo.SRC + ['sersic'], linear=False, sky_kinds=['const', 'null'])
    top = pick(rng, [tr, tr, tr.catalog, pick(rng, srcs)])
    ls = leaves(top, [])
    if not ls:
        raise Skip
    ls = [l for l in ls if type(l).__name__ != 'PixelizedPSF']
    if not ls:
        raise Skip
    added = add_priors(m, rng, ls)
    for k in range(3):
        verify(m, rng, top, added, 'c12.tractor')
        freeze_some(rng, top, pick(rng, [0.1, 0.3]))
        verify(m, rng, top, added, 'c12.tractor')
        if chance(rng, 0.5):
            top.thawAllRecursive()
            verify(m, rng, top, added, 'c12.tractor')
        if chance(rng, 0.5):
            added += add_priors(m, rng, ls, 3)
    m.sample(priors=[(type(p).__name__, nm) for p, nm, i, mu, sg in added], n=top.numberOfParams())


def sc_plain(m, rng):
    """Parameter lists on their own, and nested in bare MultiParams; repeated priors on one parameter."""
    class L(ParamList):
        pass
    ls = []
    for k in range(int(rng.integers(1, 5))):
        n = int(rng.integers(1, 6))
        l = L(*[float(v) for v in rng.normal(0, 3, n)])
        l.addNamedParams(**{('p%d_%d' % (k, i)): i for i in range(n)})
        ls.append(l)
    added = add_priors(m, rng, ls, 12)
    for l in ls:
        verify(m, rng, l, [a for a in added if a[0] is l], 'c12.list')
    tops = list(ls)
    while len(tops) > 1:
        a = tops.pop(0)
        b = tops.pop(0)
        tops.append(MultiParams(a, b) if chance(rng, 0.7) else MultiParams(a, None, b))
    top = tops[0]
    for k in range(4):
        verify(m, rng, top, added, 'c12.nested')
        freeze_some(rng, top, 0.25)
        for l in ls:
            verify(m, rng, l, [a for a in added if a[0] is l], 'c12.list')
    bad = pick(rng, ls)
    before = bad.getLogPrior()
    m.raises(KeyError, lambda: bad.addGaussianPrior('no such parameter', 0., 1.), 'c12.unknown', 'prior on an unknown parameter')
    m.equal(bad.getLogPrior(), before, 'c12.unknown', 'a refused prior has no effect')


def sc_smooth(m, rng):
    """Smoothness prior of the spline sky."""
    nx, ny = int(rng.integers(4, 8)), int(rng.integers(4, 8))
    W, H = 40, 50
    X, Y = np.linspace(0, W, nx), np.linspace(0, H, ny)
    sky = SplineSky(X, Y, rng.normal(0, 1, (ny, nx)))
    m.equal(sky.getLogPrior(), 0., 'c12.smooth', 'no smoothness prior by default')
    m.equal(sky.getLogPriorDerivatives(), None, 'c12.smooth', 'no smoothness prior by default')
    sg = loguni(rng, 0.01, 100.)
    sky.setPriorSmoothness(sg)
    g = np.array(sky.getParams(), float).reshape(nx, ny)
    want = -0.5 * (np.sum(np.diff(g, axis=0)**2) + np.sum(np.diff(g, axis=1)**2)) / sg**2
    m.close(sky.getLogPrior(), want, 'c12.smooth', 'sum of squared differences of neighbouring spline coefficients', rtol=1e-9)
    top = pick(rng, [sky, MultiParams(PixPos(1., 2.), sky), MultiParams(sky, PixPos(1., 2.))])
    if top is not sky:
        p = pick(rng, [s for s in top.subs if s is not sky])
        p.addGaussianPrior('x', 3., 2.)
    A, b, l0 = prior_form(m, top, rng, 'c12.smooth')
    m.close(-0.5 * np.sum(b**2), l0, 'c12.smooth', 'residuals give the log-prior', rtol=1e-9, atol=1e-12)
    m.event('smoothness prior')
    m.state(nx, ny, round(l0, 4))


def sc_illegal(m, rng):
    """Impossible values have probability zero wherever they sit, whatever Gaussian priors there are."""
    from tractor.ellipses import EllipseE, EllipseESoft
    from tractor.sersic import SersicIndex
    from tractor.motion import ParallaxWithPrior
    from tractor import GaussianMixturePSF
    e1, e2, re = float(rng.uniform(-1.3, 1.3)), float(rng.uniform(-1.3, 1.3)), float(rng.uniform(-1, 4))
    e = EllipseE(re, e1, e2)
    legal = (e1 * e1 + e2 * e2 < 1) and re >= 0
    g = 0.
    if chance(rng, 0.5):
        e.addGaussianPrior('e1', 0.1, 0.5)
        g = -0.5 * ((e1 - 0.1) / 0.5)**2
    m.close(e.getLogPrior(), g if legal else -np.inf, 'c12.illegal', 'EllipseE', rtol=1e-12, atol=1e-12)
    es = EllipseESoft(float(rng.normal(0, 5)), float(rng.normal(0, 5)), float(rng.normal(0, 5)))
    m.equal(es.getLogPrior(), 0., 'c12.illegal', 'softened ellipses are always legal')
    n = pick(rng, [0.289, 0.29, 0.3, 1., 4., 6.29, 6.3, 6.301, -1., 10., float(rng.uniform(0., 7.))])
    si = SersicIndex(n)
    ok = 0.29 <= n <= 6.3
    m.equal(si.getLogPrior(), 0. if ok else -np.inf, 'c12.illegal', 'Sersic index %g' % n)
    par = pick(rng, [-0.1, 1e-3, 0.5, float(rng.uniform(-1, 2))])
    pp = ParallaxWithPrior(par)
    m.close(pp.getLogPrior(), -np.inf if par < 0 else -4 * np.log(par), 'c12.illegal', 'parallax prior', rtol=1e-12)
    V = np.array([zoo.rand_cov(rng)])
    if chance(rng, 0.5):
        V[0, 0, 0] = pick(rng, [-1., V[0, 0, 0]])
        V[0, 1, 1] = pick(rng, [-1., V[0, 1, 1]])
    gm = GaussianMixturePSF(np.array([1.]), np.zeros((1, 2)), V)
    gleg = V[0, 0, 0] >= 0 and V[0, 1, 1] >= 0
    m.equal(gm.getLogPrior(), 0. if gleg else -np.inf, 'c12.illegal', 'mixture with negative variance')
    items = [(e, g if legal else -np.inf), (si, 0. if ok else -np.inf), (es, 0.), (pp, pp.getLogPrior())]
    o = rng.permutation(len(items))
    top = MultiParams(*[items[i][0] for i in o])
    tot = sum(i[1] for i in items)
    m.close(top.getLogPrior(), tot, 'c12.illegal', 'an illegal component makes the whole impossible', rtol=1e-12, atol=1e-12)
    # (even if nothing in it can be fitted)
    e.freezeAllParams()
    m.close(top.getLogPrior(), tot, 'c12.illegal', 'an active component counts although its parameters are frozen', rtol=1e-12, atol=1e-12)
    e.thawAllParams()
    k = int(rng.integers(len(o)))
    top.freezeParam(k)
    tot = sum(items[i][1] for j, i in enumerate(o) if j != k)
    m.close(top.getLogPrior(), tot, 'c12.illegal', 'frozen components do not contribute', rtol=1e-12, atol=1e-12)
    m.event('illegal')
    m.state(legal, ok, par < 0, gleg, round(re, 2))


SCENARIOS = {
    'tractor': (sc_tractor, 120, 3000),
    'plain': (sc_plain, 80, 2000),
    'smooth': (sc_smooth, 50, 800),
    'illegal': (sc_illegal, 100, 3000),
}
QUICK = 6
