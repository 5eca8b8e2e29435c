"""C30: the Ceres optimizer lowers the cost it reports, finds the (bounded) minimum, and touches nothing else."""
import contextlib
import io

import numpy as np
from scipy.optimize import lsq_linear

import scene as S
import zoo
from zoo import pick, chance, loguni
from monitor import Skip
from checks.c13_steps import frozen_view
from checks.c14_direction import system
from tractor import Tractor
from tractor.ceres_optimizer import CeresOptimizer

RULE = 'random scenes and freeze patterns; fluxes and sky levels (linear) against (bounded) linear least squares, positions and shapes (non-linear) against the cost and its gradient; options scaled / dynamic / numeric / column scaling / priors / bounds / variance / iteration limits; distinct by (options, parameters, images)'
QUICK = 3
NEED = {'rendering options': 8, 'linear': 100, 'bounded': 40, 'active bound': 25, 'priors': 50, 'position priors': 30, 'calibration': 20, 'numeric': 25, 'variance': 40, 'nonlinear': 60, 'stationary': 30, 'cost reported': 150, 'catalog frozen': 10, 'iteration limit': 15, 'several images': 60, 'no effect on some image': 15}
CASE_LIMIT = 60


def cost(tr, priors):
    c = 0.
    for i in range(len(tr.images)):
        c += 0.5 * np.sum(np.asarray(tr.getChiImage(i), float) ** 2)
    if priors:
        p = tr.getParams()
        c += sum(0.5 * ((p[i] - mu) / sg) ** 2 for i, mu, sg in tr.getGaussianPriors())
    return c


def options(rng, linear):
    o = dict(print_progress=False)
    o['scaled'] = chance(rng, 0.7)
    o['dynamic_scale'] = chance(rng, 0.7)
    o['scale_columns'] = chance(rng, 0.8)
    if linear and chance(rng, 0.25) and o['scaled']:
        o['numeric'] = True
        o['numeric_stepsize'] = float(pick(rng, [0.1, 0.01]))
    return o


def run(tr, opt, o, how, strict=True):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return opt.optimize_loop(tr, **o) if how == 'loop' else opt.optimize(tr, **o)
    except (SystemError, AssertionError, RuntimeError, FloatingPointError):
        # (trial positions and shapes that cannot be rendered)
        if strict:
            raise
        raise Skip


def bounds_of(tr):
    lo, hi = tr.getLowerBounds(), tr.getUpperBounds()
    return np.array([-np.inf if b is None else b for b in lo], float), np.array([np.inf if b is None else b for b in hi], float)


def leaves(tr):
    out = []

    def visit(p):
        if p.numberOfParams() == 0:
            return
        if hasattr(p, 'subs'):
            for s in p.subs:
                if s is not None:
                    visit(s)
        else:
            out.append(p)
    visit(tr)
    return out


def add_priors(rng, tr, sig):
    n = 0
    k = 0
    for l in leaves(tr):
        if not hasattr(l, 'addGaussianPrior') or not hasattr(l, 'namedparams'):
            continue
        for nm in l.getParamNames():
            if nm in l.namedparams and chance(rng, 0.4):
                v = l.getAllParams()[l.namedparams[nm]]
                s = loguni(rng, 0.1, 3.) * max(abs(v) * 0.1, 1e-3) if sig is None else sig
                l.addGaussianPrior(nm, v + s * float(rng.normal()), s)
                n += 1
    return n


def accounting(m, tr, x, o, p0, c0, froz, priors, how):
    c1 = cost(tr, priors)
    if how == 'loop':
        m.close(x['initial_cost'], c0, 'c30.initial', 'reported initial cost', rtol=1e-4, atol=1e-4)
    if o.get('bounds'):
        # Ceres's own bookkeeping of projected steps can report a final cost below that of what it returns
        rep = x['final_cost'] if how == 'loop' else c0 - x[0]
        m.check(rep <= c1 + 1e-2 + 1e-3 * c0, 'c30.final', 'reported final cost %.8g, actual %.8g' % (rep, c1))
    elif how == 'loop':
        m.close(x['final_cost'], c1, 'c30.final', 'reported final cost is that of the final parameters', rtol=1e-4, atol=1e-3, o=o, p0=p0, p=tr.getParams(), names=tr.getParamNames(), x=str(x)[:900])
    else:
        m.close(x[0], c0 - c1, 'c30.dlnp', 'reported improvement', rtol=1e-3, atol=1e-2 + 1e-5 * c0, o=o, p0=p0, p=tr.getParams(), names=tr.getParamNames())
        m.equal(x[2], 1, 'c30.alpha', 'step taken')
    m.event('cost reported')
    m.check(c1 <= c0 * (1 + 1e-6) + 1e-6, 'c30.worse', 'cost went up from %.8g to %.8g' % (c0, c1), options=o)
    m.check(np.all(np.isfinite(tr.getParams())), 'c30.finite', 'parameters not finite')
    m.equal(len(tr.getParams()), len(p0), 'c30.nparams', 'number of parameters')
    m.check(frozen_view(tr) == froz, 'c30.frozen', 'frozen parameters, freeze states or image data changed')
    return c1


def prior_rows(tr, A, b):
    p = tr.getParams()
    for i, mu, sg in tr.getGaussianPriors():
        r = np.zeros((1, len(p)))
        r[0, i] = 1. / sg
        A = np.vstack([A, r])
        b = np.append(b, (mu - p[i]) / sg)
    return A, b


def sc_linear(m, rng):
    nim = int(rng.integers(1, 4))
    tr, ims, srcs = S.scene(rng, nim=nim, nsrc=int(rng.integers(1, 4)), psf_kinds=S.GAUSS, size=(16, 28), margin=1 if chance(rng, 0.8) else 20, sky_kinds=['const'],
                            photo_kind=pick(rng, ['linflux', 'nmgy', 'fluxes']), rmax=1.5, chi=300.)
    if chance(rng, 0.2) and not any(type(s).__name__ in ('PointSource', 'MovingPointSource') for s in srcs):
        # rendering options (the default ones) given to the tractor
        tr.model_kwargs = dict(inner_real_nsigma=3., outer_real_nsigma=4.)
        m.event('rendering options')
    cal = chance(rng, 0.15) and all(type(im.img.photocal).__name__ == 'LinearPhotoCal' for im in ims)
    for im in ims:
        mod = np.array(tr.getModelImage(im.img), float)
        im.img.data[:] = (mod * rng.uniform(0.7, 1.3) + rng.normal(size=mod.shape)).astype(im.img.data.dtype)
        im.img.freezeAllBut('sky')
        if chance(rng, 0.4):
            im.img.freezeParam('sky')
        if cal and chance(rng, 0.7):
            im.img.thawParam('photocal')
            m.event('calibration')
    for s in srcs:
        if hasattr(s, 'brightness'):
            s.freezeAllBut('brightness')
        else:
            s.freezeAllBut('brightnessExp', 'brightnessDev')
    if not cal and chance(rng, 0.35):
        tr.freezeParam('images')
    elif cal or chance(rng, 0.15):
        tr.freezeParam('catalog')
        m.event('catalog frozen')
    if len(srcs) > 1 and chance(rng, 0.3):
        tr.catalog.freezeParam(int(rng.integers(len(srcs))))
    n = tr.numberOfParams()
    if n == 0:
        raise Skip
    o = options(rng, True)
    priors = chance(rng, 0.4)
    if priors:
        o['priors'] = True
        add_priors(rng, tr, None)
        if len(tr.getGaussianPriors()):
            m.event('priors')
    A, b = system(tr, tr.getDerivs(), False)
    p0 = np.array(tr.getParams(), float)
    cs = np.sqrt(np.sum(A ** 2, axis=0))
    weak = np.any((cs < 5e-3) & (cs > 0))
    if priors:
        A, b = prior_rows(tr, A, b)
    cs = np.sqrt(np.sum(A ** 2, axis=0))
    if weak or np.any((cs < 5e-3) & (cs > 0)):
        # (its flux is as good as undetermined)
        raise Skip
    live = cs > 0
    if not live.any():
        raise Skip
    sv = np.linalg.svd((A / np.maximum(cs, 1e-300))[:, live], compute_uv=False)
    if sv[0] / sv[-1] > 20:
        raise Skip
    if not live.all() and not o['scaled']:
        raise Skip
    lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
    bounded = chance(rng, 0.45)
    if bounded:
        o['bounds'] = True
        best = p0 + np.where(live, np.linalg.lstsq(A / np.maximum(cs, 1e-300), b, rcond=None)[0] / np.maximum(cs, 1e-300), 0)
        for l in leaves(tr):
            nn = l.numberOfParams()
            i0 = [i for i in range(n)]
            lows, ups = [None] * nn, [None] * nn
            # (bounds contain the starting point)
            for j, v in enumerate(l.getParams()):
                if chance(rng, 0.5):
                    lows[j] = float(v - loguni(rng, 1e-3, 10.) * max(1., abs(v) * 0.3))
                if chance(rng, 0.5):
                    ups[j] = float(v + loguni(rng, 1e-3, 10.) * max(1., abs(v) * 0.3))
            if hasattr(l, 'lowers'):
                idx = [k for k, q in enumerate(l.liquid) if q]
                L, U = list(l.lowers), list(l.uppers)
                for k, a, c in zip(idx, lows, ups):
                    L[k], U[k] = a, c
                l.lowers, l.uppers = L, U
            elif hasattr(l, 'lower'):
                l.lower, l.upper = lows[0], ups[0]
        lo, hi = bounds_of(tr)
        m.check(np.all(p0 >= lo) and np.all(p0 <= hi), 'c30.harness', 'start within bounds')
        m.event('bounded')
    var = chance(rng, 0.5)
    how = pick(rng, ['loop', 'opt'])
    if var:
        o['variance'] = True
    o['dlnp'] = 1e-6
    froz = frozen_view(tr)
    c0 = cost(tr, priors)
    x = run(tr, CeresOptimizer(), o, how)
    c1 = accounting(m, tr, x, o, p0, c0, froz, priors, how)
    p = np.array(tr.getParams(), float)
    eps = 1e-7 * (1 + np.abs(p) + np.where(np.isfinite(lo), abs(lo), 0))
    m.check(np.all(p >= lo - eps) and np.all(p <= hi + eps), 'c30.bounds', 'outside the bounds', params=p, lower=lo, upper=hi)
    r = lsq_linear((A / np.maximum(cs, 1e-300))[:, live], b, bounds=(((lo - p0) * cs)[live], np.maximum(((hi - p0) * cs)[live], ((lo - p0) * cs)[live] + 1e-12))) if bounded else None
    w = np.zeros(n)
    if bounded:
        w[live] = r.x
    else:
        w[live] = np.linalg.lstsq((A / np.maximum(cs, 1e-300))[:, live], b, rcond=None)[0]
    d = (p - p0) * cs
    if bounded and np.any((w <= (lo - p0) * cs + 1e-6) | (w >= (hi - p0) * cs - 1e-6)):
        m.event('active bound')
    # in units of each parameter's own error
    # Ceres projects its steps onto the bounds: near an active bound it may stop short of the minimum
    fm = 0.5 * np.sum((b - A @ (w / np.maximum(cs, 1e-300) * live)) ** 2)
    if not bounded:
        m.close(d[live], w[live], 'c30.linear', 'the least-squares solution (in sigmas)', rtol=1e-3, atol=(0.15 if o.get('numeric') else 0.05) + 1e-4 * np.abs(w).max(), o=o, p0=p0, p=p, d=d, w=w, c=(c0, c1, fm), names=tr.getParamNames())
        m.check(c1 <= fm + 1e-2 + 1e-4 * c0, 'c30.min', 'cost %.6g, minimum %.6g' % (c1, fm))
    else:
        m.check(c1 >= fm - 1e-2 - 1e-4 * c0, 'c30.min', 'cost %.6g below the minimum within bounds %.6g' % (c1, fm))
        if n == 1:
            # nothing to interact with: the minimum, or the bound in its way
            m.close(d, w, 'c30.clip', 'the bounded minimum (in sigmas)', rtol=1e-3, atol=0.15 + 1e-4 * np.abs(w).max(), o=o, p0=p0, p=p, lo=lo, hi=hi)
            m.event('one bounded parameter')
    if not live.all():
        m.check(np.all(np.abs(p - p0)[~live] <= 1e-6 * (1 + np.abs(p0[~live]))), 'c30.dead', 'a parameter that affects nothing moved', p0=p0, p=p, live=live, o=o)
    v = None
    if var and live.all():
        v = np.array(x['variance'] if how == 'loop' else x[3], float)
        m.equal(v.shape, (n,), 'c30.nvar', 'one variance per parameter')
        if how == 'loop' and x['termination'] in (0, 3):
            # converged, or stopped by the dlnp criterion
            m.check(bool(x['variance_ok']), 'c30.variance', 'no variances although the fit ended well (%s)' % x['error'])
        if (x['variance_ok'] if how == 'loop' else np.any(v > 0)):
            C = np.diag(np.linalg.inv((A / cs).T @ (A / cs))) / cs ** 2
            m.close(v / C, np.ones(n), 'c30.variance', 'variance over that of the least-squares solution', rtol=0, atol=0.1 if o.get('numeric') else 0.02, o=o)
            m.event('variance')
    if o.get('numeric'):
        m.event('numeric')
    if nim > 1:
        m.event('several images')
    D = tr.getDerivs()
    if any(len(set(id(im) for dd, im in q if dd is not None and dd.patch is not None)) < nim for q in D):
        m.event('no effect on some image')
    m.event('linear')
    m.state('lin', nim, n, o['scaled'], bool(o.get('numeric')), priors, bounded, var, how)


def sc_nonlinear(m, rng):
    nim = int(rng.integers(1, 3))
    tr, ims, srcs = S.scene(rng, nim=nim, nsrc=int(rng.integers(1, 3)), psf_kinds=S.GAUSS, size=(20, 30), margin=-4, sky_kinds=['const'],
                            photo_kind='linflux', src_kinds=['pt', 'pt', 'exp'], rmin=1., rmax=2., clo=100., chi=2000.)
    for im in ims:
        mod = np.array(tr.getModelImage(im.img), float)
        im.img.data[:] = (mod + rng.normal(size=mod.shape)).astype(im.img.data.dtype)
        im.img.freezeAllBut('sky')
    if chance(rng, 0.5):
        tr.freezeParam('images')
    for s in srcs:
        # positions off by a fraction of a pixel, fluxes by some percent
        if hasattr(s, 'shape'):
            s.freezeParam('shape')
        s.brightness.setParams([v * rng.uniform(0.9, 1.1) for v in s.brightness.getParams()])
        st = [abs(q) for q in s.pos.getStepSizes()]
        x, y = ims[0].frame.xy(s.pos)
        q = ims[0].astro.pos(x + float(rng.uniform(-0.4, 0.4)), y + float(rng.uniform(-0.4, 0.4)))
        s.pos.setParams(q.getParams())
        if chance(rng, 0.2):
            s.freezeParam('pos')
    o = options(rng, False)
    priors = chance(rng, 0.4)
    if priors:
        o['priors'] = True
        for s in srcs:
            st = s.pos.getStepSizes()
            for nm, q in zip(s.pos.getParamNames(), st):
                if chance(rng, 0.6):
                    s.pos.addGaussianPrior(nm, s.pos.getParams()[s.pos.getParamNames().index(nm)] + q * float(rng.normal()), abs(q) * loguni(rng, 0.01, 1.))
        if len(tr.getGaussianPriors()):
            m.event('position priors')
    if not o['scaled'] or not o['dynamic_scale']:
        # degrees and counts together need scaling
        o['scaled'] = True
        o['dynamic_scale'] = True
    lim = chance(rng, 0.3)
    if lim:
        o['max_iterations'] = int(rng.integers(1, 3))
        m.event('iteration limit')
    how = pick(rng, ['loop', 'opt'])
    p0 = np.array(tr.getParams(), float)
    froz = frozen_view(tr)
    c0 = cost(tr, priors)
    x = run(tr, CeresOptimizer(), o, how, strict=False)
    c1 = accounting(m, tr, x, o, p0, c0, froz, priors, how)
    if lim and how == 'loop':
        m.check(x['steps_successful'] + x['steps_unsuccessful'] <= o['max_iterations'] + 1, 'c30.limit', 'more steps than the limit')
    m.event('nonlinear')
    if nim > 1:
        m.event('several images')
    # derivatives are one-sided differences over the positions' step sizes: with a step of a good part of a pixel
    # they are too coarse to converge
    step = 0.
    for s in srcs:
        c = s.pos.copy()
        x0 = np.array(ims[0].frame.xy(c))
        for k, h in enumerate(c.getStepSizes()):
            old = c.getParams()
            c.setParams([v + (h if j == k else 0.) for j, v in enumerate(old)])
            step = max(step, np.hypot(*(np.array(ims[0].frame.xy(c)) - x0)))
            c.setParams(old)
    if not lim and step < 0.3:
        A, b = system(tr, tr.getDerivs(), False)
        if priors:
            A, b = prior_rows(tr, A, b)
        cs = np.sqrt(np.sum(A ** 2, axis=0))
        if np.all(cs > 0):
            sv = np.linalg.svd(A / cs, compute_uv=False)
            if sv[0] / sv[-1] < 10:
                dx = np.linalg.lstsq(A / cs, b, rcond=None)[0]
                gain = 0.5 * (b @ b - np.sum((b - (A / cs) @ dx) ** 2))
                # (stops when a step improves the cost by less than 1e-3; derivatives are one-sided differences)
                m.check(gain < 0.3 + 1e-2 * (c0 - c1), 'c30.stationary', 'stopped where %.4g remained to be gained (of %.4g)' % (gain, c0 - c1), options=o, names=tr.getParamNames(), p0=p0, p=tr.getParams(), dx=dx, x=str(x)[:1500], c=(c0, c1))
                m.event('stationary')
    m.state('nonlin', nim, len(p0), o['scale_columns'], lim, how)


SCENARIOS = {'linear': (sc_linear, 300, 8000), 'nonlinear': (sc_nonlinear, 120, 3000)}
