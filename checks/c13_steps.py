"""C13: an optimization step never makes the posterior worse and reports exactly what it did."""
import contextlib
import io

import numpy as np

import scene as S
import zoo
from zoo import pick, chance, loguni
from monitor import Skip
from checks.c12_priors import leaves, freeze_some
from checks.c14_direction import add_priors, system, solve
from tractor import Tractor, PointSource, PixPos, Flux, Image, GaussianMixturePSF, NanoMaggies, LinearPhotoCal, ConstantSky
from tractor.lsqr_optimizer import LsqrOptimizer
from tractor.constrained_optimizer import ConstrainedOptimizer
from tractor.dense_optimizer import ConstrainedDenseOptimizer
from tractor.smarter_dense_optimizer import SmarterDenseOptimizer

RULE = 'random scenes, optimizers, step lists, freeze patterns and priors, several steps each; distinct by (optimizer, accepted step, parameters)'
NEED = {'step': 200, 'improved': 100, 'no step': 8, 'trial': 1500, 'rejected trial': 100, 'loop': 40, 'converged': 20, 'callback': 10}
CASE_LIMIT = 60


def sane(p):
    if hasattr(p, 'subs'):
        return all(sane(s) for s in p.subs if s is not None)
    n = type(p).__name__
    v = np.array(p.getAllParams(), float)
    if not np.all(np.isfinite(v)):
        return False
    if n == 'GalaxyShape':
        return 0.02 < v[0] < 30 and 0.05 < v[1] <= 1.
    if n == 'EllipseE':
        return 0.02 < v[0] < 30 and np.hypot(v[1], v[2]) < 0.95
    if n == 'EllipseESoft':
        return -4 < v[0] < 3.4 and np.hypot(v[1], v[2]) < 3
    if 'Mag' in n:
        return bool(np.all(v > -40))
    return bool(np.all(np.abs(v) < 1e9))


class Traced(Tractor):
    """Records every parameter vector whose posterior is evaluated."""
    trace = None

    def getLogPrior(self):
        # steps beyond what can be rendered at all have zero probability
        if not sane(self.catalog):
            return -np.inf
        return super(Traced, self).getLogPrior()

    def getLogProb(self, **kw):
        v = super(Traced, self).getLogProb(**kw)
        if self.trace is not None:
            self.trace.append((np.array(self.getParams(), float), float(v)))
        return v


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def frozen_view(tr):
    """Everything a step must not touch: frozen values, states, image data."""
    tr_all = []

    def visit(p, thawed):
        if hasattr(p, 'subs'):
            for s, l in zip(p.subs, p.liquid):
                if s is not None:
                    visit(s, thawed and l)
        elif hasattr(p, 'liquid') and hasattr(p, 'getAllParams'):
            tr_all.extend(float(v) for v, l in zip(p.getAllParams(), p.liquid) if not (thawed and l))
        elif not thawed:
            tr_all.extend(float(v) for v in p.getAllParams())
    visit(tr, True)
    return (tr_all, list(tr.getParamStateRecursive()), [(im.data.tobytes(), im.inverr.tobytes()) for im in tr.images])


def build(m, rng, **kw):
    if chance(rng, 0.25):
        kw.setdefault('src_kinds', ['pt'])
    else:
        kw.setdefault('psf_kinds', ['gm', 'nc', 'gme', 'hybrid'])
    kw.setdefault('src_kinds', zoo.SRC + ['sersic'])
    kw.setdefault('margin', 1)
    kw.setdefault('linear', False)
    tr0, ims, srcs = S.scene(rng, size=(14, 24), nim=int(rng.integers(1, 3)), nsrc=int(rng.integers(1, 4)), **kw)
    tr = Traced([im.img for im in ims], srcs)
    for im in ims:
        mod = np.array(tr.getModelImage(im.img), float)
        if chance(rng, 0.8):
            im.img.data[:] = (mod + rng.normal(size=mod.shape)).astype(np.float32)
        for k in ('psf', 'wcs', 'photocal'):
            im.img.freezeParam(k)
        if im.img.sky.numberOfParams() == 0 or im.img.sky.numberOfParams() > 4 or chance(rng, 0.5):
            im.img.freezeParam('sky')
    if chance(rng, 0.4):
        freeze_some(rng, tr.catalog, 0.2)
    if tr.numberOfParams() == 0:
        raise Skip
    # start away from the optimum
    p = np.array(tr.getParams(), float)
    ss = np.array(tr.getStepSizes(), float)
    k = pick(rng, [0., 0.5, 3., 10.])
    for i in range(len(p)):
        if chance(rng, 0.7):
            old = tr.setParam(i, p[i] + k * ss[i] * float(rng.normal()))
            if not np.isfinite(tr.getLogPrior()):
                tr.setParam(i, old)
    return tr, ims, srcs


def optimizer(rng):
    c = pick(rng, [LsqrOptimizer, ConstrainedOptimizer, ConstrainedDenseOptimizer])
    kw = {}
    if c is ConstrainedDenseOptimizer:
        kw['shared_params'] = False
    return c(), kw


def run(m, f):
    try:
        return quiet(f)
    except RuntimeError as e:
        if 'sourceOut' in str(e):
            raise Skip
        raise
    except OverflowError:
        # a trial step beyond what floating point can render
        raise Skip


def sc_step(m, rng):
    tr, ims, srcs = build(m, rng)
    if chance(rng, 0.4):
        add_priors(m, rng, tr)
    opt, kw = optimizer(rng)
    tr.optimizer = opt
    for k in range(4):
        before = frozen_view(tr)
        p0 = np.array(tr.getParams(), float)
        lnp0 = quiet(tr.getLogProb)
        if not np.isfinite(lnp0):
            raise Skip
        alphas = None
        if chance(rng, 0.5):
            alphas = sorted(float(a) for a in np.exp(rng.uniform(-8, 1, int(rng.integers(1, 6)))))
        if chance(rng, 0.1):
            alphas = [3., 5.]
        kk = dict(kw)
        if chance(rng, 0.3) and isinstance(opt, LsqrOptimizer) and not isinstance(opt, ConstrainedDenseOptimizer):
            kk['damp'] = loguni(rng, 0.01, 10.)
        var = chance(rng, 0.3) and not isinstance(opt, ConstrainedDenseOptimizer)
        tr.trace = []
        R = run(m, lambda: tr.optimize(alphas=alphas, variance=var, **kk))
        trace, tr.trace = tr.trace, None
        m.equal(len(R), 4 if var else 3, 'c13.result', 'length of the result')
        dlnp, X, alpha = R[:3]
        m.equal(dict(tr.model_kwargs), {}, 'c13.options', 'options given to one optimization stick to the tractor')
        p1 = np.array(tr.getParams(), float)
        lnp1 = quiet(tr.getLogProb)
        m.event('step')
        m.event('trial', len(trace))
        m.op(type(opt).__name__, dlnp, alpha)
        m.check(lnp1 >= lnp0, 'c13.worse', 'a step made the posterior worse', before=lnp0, after=lnp1, alpha=alpha)
        m.close(dlnp, lnp1 - lnp0, 'c13.dlnp', 'reported improvement', rtol=1e-9, atol=1e-9 * abs(lnp0) + 1e-9)
        m.check(not any(v > lnp1 + 1e-9 * abs(lnp1) for q, v in trace), 'c13.best', 'a better trial step was thrown away',
                kept=lnp1, best=max([v for q, v in trace], default=None))
        m.check(frozen_view(tr) == before, 'c13.frozen', 'a step changed frozen parameters, freeze states or image data')
        if dlnp == 0:
            m.equal(p1.tolist(), p0.tolist(), 'c13.restore', 'parameters are restored exactly when no step is taken')
            m.equal(float(alpha), 0., 'c13.restore', 'alpha of no step')
            m.event('no step')
        else:
            m.check(dlnp > 0 and alpha > 0, 'c13.alpha', 'an improvement has a positive step', dlnp=dlnp, alpha=alpha)
            m.event('improved')
            if type(opt) is LsqrOptimizer:
                al = alphas if alphas is not None else list(2.**np.arange(-10, 1)) + [np.sqrt(2.), 2.]
                m.check(any(abs(alpha - a) <= 1e-12 * a for a in al), 'c13.alpha', 'the step length is one of those asked for', alpha=alpha, alphas=al)
            lim = any(v is not None for v in list(tr.getLowerBounds()) + list(tr.getUpperBounds()) + list(tr.getMaxStep()))
            if not lim:
                want = p0 + alpha * np.asarray(X, float)
                m.close(p1, want, 'c13.along', 'the accepted parameters are the start plus alpha times the direction', rtol=1e-9, atol=1e-12)
        m.event('rejected trial', sum(1 for q, v in trace if v < lnp1))
        m.state(type(opt).__name__, round(float(alpha), 6), len(p0), round(lnp1, 3))
        if dlnp == 0:
            break
    m.sample(opt=type(opt).__name__, lnp0=lnp0, lnp1=lnp1, alpha=alpha, n=len(p0))


def sc_try(m, rng):
    """Any direction whatever: good, bad, into illegal territory, not finite."""
    tr, ims, srcs = build(m, rng, margin=-2)
    opt, kw = optimizer(rng)
    p0 = np.array(tr.getParams(), float)
    lnp0 = quiet(tr.getLogProb)
    if not np.isfinite(lnp0):
        raise Skip
    ss = np.abs(np.array(tr.getStepSizes(), float))
    X = ss * rng.normal(size=len(p0)) * pick(rng, [0.1, 1., 30.])
    if chance(rng, 0.1):
        X[:] = 0.
    before = frozen_view(tr)
    tr.trace = []
    d, alpha = run(m, lambda: opt.tryUpdates(tr, X))
    trace, tr.trace = tr.trace, None
    p1 = np.array(tr.getParams(), float)
    lnp1 = quiet(tr.getLogProb)
    m.event('step')
    m.event('trial', len(trace))
    m.check(lnp1 >= lnp0, 'c13.worse', 'a step made the posterior worse', before=lnp0, after=lnp1, alpha=alpha)
    m.close(d, lnp1 - lnp0, 'c13.dlnp', 'reported improvement', rtol=1e-9, atol=1e-9 * abs(lnp0) + 1e-9)
    m.check(not any(v > lnp1 + 1e-9 * abs(lnp1) for q, v in trace), 'c13.best', 'a better trial step was thrown away')
    m.check(frozen_view(tr) == before, 'c13.frozen', 'a step changed frozen parameters, freeze states or image data')
    if d == 0:
        m.equal(p1.tolist(), p0.tolist(), 'c13.restore', 'parameters are restored exactly when no step is taken')
        m.event('no step')
    else:
        m.event('improved')
    m.event('rejected trial', sum(1 for q, v in trace if v < lnp1))
    m.state('try', type(opt).__name__, round(float(alpha), 6), round(lnp1, 3))


def sc_loop(m, rng):
    tr, ims, srcs = build(m, rng)
    opt, kw = optimizer(rng)
    tr.optimizer = opt
    before = frozen_view(tr)
    lnp0 = quiet(tr.getLogProb)
    if not np.isfinite(lnp0):
        raise Skip
    n = int(rng.integers(1, 8))
    seen = []
    if isinstance(opt, ConstrainedOptimizer) and chance(rng, 0.5):
        stop = int(rng.integers(1, 4))

        def cb(optimizer=None, tractor=None, dlnp=None, X=None, alpha=None, **k):
            seen.append((tractor.getLogProb(), dlnp))
            return len(seen) < stop
        kw['check_step'] = cb
    R = run(m, lambda: tr.optimize_loop(steps=n, **kw))
    m.equal(dict(tr.model_kwargs), {}, 'c13.options', 'options given to one optimization stick to the tractor')
    lnp1 = quiet(tr.getLogProb)
    m.check(lnp1 >= lnp0, 'c13.loop', 'an optimization loop made the posterior worse', before=lnp0, after=lnp1)
    m.check(0 <= R['steps'] < n, 'c13.loop', 'reported number of steps', steps=R['steps'], n=n)
    m.check(frozen_view(tr) == before, 'c13.frozen', 'an optimization loop changed frozen parameters, freeze states or image data')
    if 'check_step' in kw:
        m.check(1 <= len(seen) <= stop, 'c13.callback', 'the loop stops when the callback says so', calls=len(seen), stop=stop)
        m.equal(R['steps'], len(seen) - 1, 'c13.callback', 'called once per step')
        last = lnp0
        for v, d in seen:
            m.check(v >= last, 'c13.callback', 'the posterior climbs from step to step')
            m.close(d, v - last, 'c13.callback', 'reported improvement', rtol=1e-9, atol=1e-9 * abs(v) + 1e-9)
            last = v
        m.event('callback')
    m.event('loop')
    m.state('loop', type(opt).__name__, n, R['steps'], round(lnp1, 3))


def sc_linear(m, rng):
    """Only linear parameters thawed (fluxes, sky levels): one step lands on the optimum."""
    tr0, ims, srcs = S.scene(rng, size=(16, 30), margin=-3, linear=True, psf_kinds=['gm', 'nc', 'gme', 'hybrid'],
                             src_kinds=['pt', 'exp', 'dev', 'gauss', 'comp'], sky_kinds=['const', 'null'])
    tr = Traced([im.img for im in ims], srcs)
    for im in ims:
        mod = np.array(tr.getModelImage(im.img), float)
        im.img.data[:] = (mod + rng.normal(size=mod.shape)).astype(np.float32)
        for k in ('psf', 'wcs', 'photocal'):
            im.img.freezeParam(k)
        if im.img.sky.numberOfParams() == 0:
            im.img.freezeParam('sky')
    for s in srcs:
        s.freezeAllBut(*[n for n in s.namedparams if 'brightness' in n])
    ders = quiet(tr.getDerivs)
    A, b = system(tr, ders, False)
    Xref, cs, cond = solve(A, b)
    if not cond < 20 or not (cs > 0).all():
        raise Skip
    p0 = np.array(tr.getParams(), float)
    best = p0 + Xref
    start = p0 + rng.normal(size=len(p0)) * 30 / cs
    tr.setParams(best)
    ok = np.isfinite(quiet(tr.getLogProb))
    tr.setParams(start)
    if not (ok and np.isfinite(quiet(tr.getLogProb))):
        # (galaxies refuse negative fluxes through their prior)
        raise Skip
    opt, kw = optimizer(rng)
    tr.optimizer = opt
    run(m, lambda: tr.optimize_loop(**kw))
    p1 = np.array(tr.getParams(), float)
    m.check(np.all(np.abs(p1 - best) * cs <= 0.02 * cond), 'c13.optimum', 'a linear fit ends at the weighted least-squares optimum (in sigmas)',
            worst=float(np.max(np.abs(p1 - best) * cs)), condition=cond)
    m.event('converged')
    m.event('loop')
    m.state('linear', len(p0), round(cond, 1))


def sc_recover(m, rng):
    """Noiseless data: a fit started nearby recovers the true parameters."""
    W = H = int(rng.integers(25, 40))
    V = zoo.rand_cov(rng, 1.2, 2.)
    ims = []
    from tractor import NullWCS
    for k in range(int(rng.integers(1, 3))):
        ims.append(Image(data=np.zeros((H, W), np.float32), inverr=np.full((H, W), 1., np.float32), psf=GaussianMixturePSF(np.array([1.]), np.zeros((1, 2)), V[None]),
                         photocal=LinearPhotoCal(1., band='r'), wcs=NullWCS(), sky=ConstantSky(float(rng.normal()))))
    truth = []
    for k in range(int(rng.integers(1, 3))):
        truth.append(PointSource(PixPos(float(rng.uniform(8, W - 9)), float(rng.uniform(8, H - 9))), NanoMaggies(r=loguni(rng, 300, 3000))))
    if len(truth) == 2:
        d = np.hypot(truth[0].pos.x - truth[1].pos.x, truth[0].pos.y - truth[1].pos.y)
        if d < 6:
            raise Skip
    tr = Tractor(ims, truth)
    for im in ims:
        im.data = np.array(tr.getModelImage(im))
    tr.freezeParam('images')
    pt = np.array(tr.getParams(), float)
    p = pt.copy()
    for k in range(len(truth)):
        p[3 * k:3 * k + 2] += rng.uniform(-0.4, 0.4, 2)
        p[3 * k + 2] *= rng.uniform(0.7, 1.4)
    tr.setParams(p)
    opt, kw = optimizer(rng)
    tr.optimizer = opt
    run(m, lambda: tr.optimize_loop(**kw))
    q = np.array(tr.getParams(), float)
    tol = np.where(np.arange(len(q)) % 3 == 2, 0.01 * np.abs(pt), 0.01)
    m.check(np.all(np.abs(q - pt) <= tol), 'c13.recover', 'a fit to noiseless data recovers the truth', found=q, truth=pt, start=p)
    m.event('converged')
    m.state('recover', len(truth), round(pt[0], 2))


SCENARIOS = {
    'step': (sc_step, 80, 1500),
    'try': (sc_try, 70, 1500),
    'loop': (sc_loop, 60, 800),
    'linear': (sc_linear, 50, 700),
    'recover': (sc_recover, 20, 300),
}
QUICK = 5
