"""C15: bounded fits stay within the bounds and the maximum step of every parameter."""
import numpy as np

import zoo
from zoo import pick, chance, loguni
from monitor import Skip
from checks.c13_steps import Traced, build, quiet, run, frozen_view
from tractor.constrained_optimizer import ConstrainedOptimizer
from tractor.dense_optimizer import ConstrainedDenseOptimizer

RULE = 'random bounds and maximum steps on random scenes and on bare parameter vectors; distinct by (which limits bind, sizes, step lengths)'
NEED = {'steps': 400, 'free': 60, 'bound hit': 100, 'step limited': 60, 'nothing possible': 20, 'fit': 60, 'trial': 500, 'search': 1000, 'vetoed': 100, 'accepted at bound': 80, 'fit at bound': 15, 'fit step limited': 15,
        'default bounds': 20}
CASE_LIMIT = 60


class Stub(object):
    def __init__(self, p, lo, up, mx):
        self.p, self.lo, self.up, self.mx = list(p), list(lo), list(up), list(mx)

    def getParams(self):
        return list(self.p)

    def setParams(self, p):
        self.p = list(p)

    def getMaxStep(self):
        return list(self.mx)

    def getLowerBounds(self):
        return list(self.lo)

    def getUpperBounds(self):
        return list(self.up)


def leaves(p, out):
    if hasattr(p, 'subs'):
        for s in p.subs:
            if s is not None:
                leaves(s, out)
    elif hasattr(p, 'lowers') or hasattr(p, 'lower'):
        out.append(p)
    return out


def inside(p, lo, up):
    return all((l is None or v >= l) and (u is None or v <= u) for v, l, u in zip(p, lo, up))


def small(p0, p, mx):
    return all(x is None or abs(v - a) <= x * (1 + 1e-9) + 1e-12 * abs(a) for a, v, x in zip(p0, p, mx))


def sc_steps(m, rng):
    """The trial vectors themselves, for arbitrary limits and directions."""
    for _ in range(12):
        n = int(rng.integers(1, 7))
        sc = np.exp(rng.uniform(-6, 6, n))
        p0 = rng.normal(size=n) * sc
        X = rng.normal(size=n) * sc * pick(rng, [0.01, 1., 1., 50.])
        X[rng.random(n) < 0.2] = 0.
        lo, up, mx = [None] * n, [None] * n, [None] * n
        for i in range(n):
            if chance(rng, 0.4):
                lo[i] = float(p0[i] - sc[i] * pick(rng, [0., 1e-12, 0.01, 1., 10.]))
            if chance(rng, 0.4):
                up[i] = float(p0[i] + sc[i] * pick(rng, [0., 1e-12, 0.01, 1., 10.]))
            if chance(rng, 0.4):
                mx[i] = float(sc[i] * loguni(rng, 1e-3, 10.))
            # (zero is a bound like any other)
            if chance(rng, 0.2):
                if p0[i] > 0:
                    lo[i] = pick(rng, [0., 0])
                else:
                    up[i] = pick(rng, [0., 0])
        if chance(rng, 0.1):
            lo = up = mx = [None] * n
        alphas = None
        if chance(rng, 0.5):
            alphas = np.unique(np.exp(rng.uniform(-7, 2, int(rng.integers(1, 8)))))
        asked = alphas if alphas is not None else np.append(2.**np.arange(-10, 1), [np.sqrt(2.), 2.])
        opt = pick(rng, [ConstrainedOptimizer, ConstrainedDenseOptimizer])()
        st = Stub(p0, lo, up, mx)
        R = opt.getParameterSteps(st, X, alphas)
        m.event('steps')
        m.equal(st.p, list(p0), 'c15.pure', 'listing trial steps does not move the parameters')
        m.check(len(R) <= len(asked), 'c15.count', 'at most one trial per step length')
        # the longest step along X that all limits allow
        amax, who = np.inf, None
        for i in range(n):
            if X[i] == 0:
                continue
            if mx[i] is not None:
                a = mx[i] / abs(X[i])
                if a < amax:
                    amax, who = a, 'step'
            b = lo[i] if X[i] < 0 else up[i]
            if b is not None:
                a = (b - p0[i]) / X[i]
                if a < amax:
                    amax, who = a, 'bound'
        nstep = min([mx[i] / abs(X[i]) for i in range(n) if mx[i] is not None and X[i] != 0], default=np.inf)
        for k, (alpha, p, sl, hl) in enumerate(R):
            p = np.array(p, float)
            m.check(inside(p, lo, up), 'c15.bounds', 'a trial step is within the bounds', p=p, lower=lo, upper=up)
            m.check(small(p0, p, mx), 'c15.maxstep', 'a trial step is within the maximum step', p=p, p0=p0, maxstep=mx)
            m.check(alpha <= asked[k] * (1 + 1e-12), 'c15.alpha', 'a trial step is no longer than asked for', alpha=alpha, asked=asked[k])
            want = min(asked[k], amax)
            m.close(alpha, want, 'c15.alpha', 'a trial step is the longest allowed', rtol=1e-9, atol=1e-15)
            m.close(p / sc, (p0 + alpha * X) / sc, 'c15.ray', 'a trial step lies along the direction', rtol=1e-9, atol=1e-9)
            if abs(asked[k] / nstep - 1) > 1e-9:
                m.equal(bool(sl), bool(asked[k] > nstep), 'c15.flag', 'the step-limited flag', alpha=asked[k], limit=nstep)
            if who == 'bound' and amax < nstep * (1 - 1e-9):
                if abs(asked[k] / amax - 1) > 1e-9:
                    m.equal(bool(hl), bool(asked[k] > amax), 'c15.flag', 'the limit-hit flag', alpha=asked[k], limit=amax)
            elif who != 'bound':
                m.equal(bool(hl), False, 'c15.flag', 'no bound was hit')
        # which step lengths are tried
        if amax < opt.tiny_alpha * 0.999:
            m.equal(len(R), 0, 'c15.count', 'nothing is tried when no step is possible')
            m.event('nothing possible')
        elif amax > opt.tiny_alpha * 1.001:
            over = [k for k, a in enumerate(asked) if a > nstep * (1 + 1e-9)]
            exact = any(abs(a / nstep - 1) < 2e-9 for a in asked)
            if not exact:
                m.equal(len(R), over[0] + 1 if over else len(asked), 'c15.count', 'step lengths are tried until the maximum step is reached')
        if not np.isfinite(amax):
            m.event('free')
        elif who == 'bound' and asked[-1] > amax:
            m.event('bound hit')
        elif who == 'step' and asked[-1] > amax:
            m.event('step limited')
        m.state(n, who, len(R), round(float(amax), 6))


class Bowl(Stub):
    """A quadratic posterior over a bare parameter vector."""

    def __init__(self, p, lo, up, mx, top, sig):
        Stub.__init__(self, p, lo, up, mx)
        self.top, self.sig, self.tried, self.catalog = top, sig, [], []

    def getLogLikelihood(self):
        return -0.5 * float(np.sum(((np.array(self.p, float) - self.top) / self.sig)**2))

    def getLogPrior(self):
        return 0.

    def getLogProb(self):
        v = self.getLogLikelihood()
        if any(not ok for ok in self.wall(self.p)):
            v = -np.inf
        self.tried.append((list(self.p), v))
        return v

    def wall(self, p):
        return [True]


def sc_search(m, rng):
    """The line search on a known posterior: what it accepts, reports and leaves behind."""
    for _ in range(6):
        n = int(rng.integers(1, 5))
        sc = np.exp(rng.uniform(-3, 3, n))
        p0 = rng.normal(size=n) * sc
        # (gentle enough that several steps are tried, or not)
        sig = sc * loguni(rng, 0.05, 10.)
        top = p0 + rng.normal(size=n) * sc * pick(rng, [0.1, 1., 3.])
        X = (top - p0) * rng.uniform(0.3, 2., n) if chance(rng, 0.8) else rng.normal(size=n) * sc
        lo, up, mx = [None] * n, [None] * n, [None] * n
        for i in range(n):
            if chance(rng, 0.35):
                lo[i] = float(p0[i] - sc[i] * pick(rng, [0., 0.01, 0.3, 1.]))
            if chance(rng, 0.35):
                up[i] = float(p0[i] + sc[i] * pick(rng, [0., 0.01, 0.3, 1.]))
            if chance(rng, 0.25):
                mx[i] = float(sc[i] * loguni(rng, 1e-2, 3.))
        st = Bowl(p0, lo, up, mx, top, sig)
        if chance(rng, 0.2):
            # the posterior vanishes beyond some point
            far = float(p0[0] + X[0] * rng.uniform(0., 1.5))
            sgn = np.sign(X[0])
            st.wall = lambda p, far=far, sgn=sgn: [(p[0] - far) * sgn <= 0]
        v0 = st.getLogProb()
        if not np.isfinite(v0):
            continue
        opt = pick(rng, [ConstrainedOptimizer, ConstrainedDenseOptimizer])()
        opt.hit_limit = opt.last_step_hit_limit = False
        alphas = None
        if chance(rng, 0.4):
            alphas = np.unique(np.exp(rng.uniform(-5, 1, int(rng.integers(1, 8)))))
        steps = opt.getParameterSteps(Stub(p0, lo, up, mx), X, alphas)
        opt.stepLimited = False
        stop = int(rng.integers(0, 8)) if chance(rng, 0.3) else None
        seen = []

        def veto(**k):
            seen.append(1)
            return len(seen) <= stop
        st.tried = []
        dl, alpha = quiet(lambda: opt.tryUpdates(st, X, alphas=alphas, check_step=veto if stop is not None else None))
        end = list(st.p)
        v1 = st.getLogLikelihood()
        m.event('search')
        m.check(inside(end, lo, up) and small(p0, end, mx), 'c15.search', 'the search ends within the limits', p=end)
        m.close(dl, v1 - v0, 'c15.search', 'the reported gain is that of the parameters it leaves', rtol=1e-9, atol=1e-9 * (1 + abs(v0)))
        m.check(dl >= 0, 'c15.search', 'the search never loses', dlnp=dl)
        m.close(np.array(end) / sc, (p0 + alpha * X) / sc, 'c15.search', 'the parameters left are those of the reported step', rtol=1e-9, atol=1e-9)
        vals = [v for p, v in st.tried]
        best = max([v0] + [v for v in vals if np.isfinite(v)])
        m.close(v1, best, 'c15.search', 'the best point tried is kept', rtol=1e-9, atol=1e-9)
        if stop is not None and len(seen) > stop:
            m.event('vetoed')
        if alpha == 0:
            m.equal(end, list(p0), 'c15.search', 'no step: the parameters are exactly what they were')
        if not steps:
            m.check(opt.hit_limit and opt.last_step_hit_limit, 'c15.search', 'a search that can make no step at all says that it is against a limit')
            m.event('nothing possible')
        elif alpha != 0:
            k = [i for i, s in enumerate(steps) if abs(s[0] / alpha - 1) < 1e-12]
            m.check(len(k) >= 1, 'c15.search', 'the step taken is one of the trial steps', alpha=alpha)
            # (several step lengths are cut to the same bound)
            fl = set(bool(steps[i][3]) for i in k)
            if len(fl) == 1:
                m.equal(bool(opt.last_step_hit_limit), fl.pop(), 'c15.search', 'the flag says whether the accepted step hit a bound')
            if opt.last_step_hit_limit:
                m.check(opt.hit_limit, 'c15.search', 'a bound that was hit was hit ever')
                m.event('accepted at bound')
        if not any(s[3] for s in steps) and steps:
            m.check(not opt.hit_limit and not opt.last_step_hit_limit, 'c15.search', 'no bound within reach, none hit')
        m.state('search', n, round(alpha, 6), bool(opt.last_step_hit_limit), stop)


def set_limits(m, rng, tr, ims):
    """Random limits around the current values of the tractor's parameters."""
    # (distances that are not multiples of the default maximum steps: a step may not end on both)
    for leaf in leaves(tr, []):
        vals = list(leaf.getAllParams())
        ss = [abs(s) for s in leaf.getAllStepSizes()]
        for j, v in enumerate(vals):
            lo = float(v - ss[j] * pick(rng, [0., 0.1, 1., 10., 100.]) * rng.uniform(0.7, 1.3)) if chance(rng, 0.3) else None
            up = float(v + ss[j] * pick(rng, [0., 0.1, 1., 10., 100.]) * rng.uniform(0.7, 1.3)) if chance(rng, 0.3) else None
            mx = float(ss[j] * loguni(rng, 0.05, 30.)) if chance(rng, 0.3) else None
            if hasattr(leaf, 'lowers'):
                if lo is not None and (leaf.lowers[j] is None or leaf.lowers[j] < lo):
                    leaf.lowers[j] = lo
                if up is not None and (leaf.uppers[j] is None or leaf.uppers[j] > up):
                    leaf.uppers[j] = up
                if mx is not None:
                    leaf.maxstep[j] = mx
            elif hasattr(leaf, 'lower'):
                if lo is not None and (leaf.lower is None or leaf.lower < lo):
                    leaf.lower = lo
                if up is not None and (leaf.upper is None or leaf.upper > up):
                    leaf.upper = up
                if mx is not None:
                    leaf.maxstep = mx


def sc_fit(m, rng):
    """Fits of real scenes: every posterior evaluation is within limits."""
    kw = {}
    if chance(rng, 0.3):
        kw['src_kinds'] = ['sersic']
        kw['psf_kinds'] = ['gm', 'nc', 'gme', 'hybrid']
    tr, ims, srcs = build(m, rng, **kw)
    if chance(rng, 0.8):
        set_limits(m, rng, tr, ims)
    else:
        m.event('default bounds')
    lo, up, mx = tr.getLowerBounds(), tr.getUpperBounds(), tr.getMaxStep()
    n = tr.numberOfParams()
    m.check(len(lo) == n and len(up) == n and len(mx) == n, 'c15.aligned', 'limits are per parameter')
    # the limits are those of the thawed leaves, in order
    p0 = np.array(tr.getParams(), float)
    if not inside(p0, lo, up) or not np.isfinite(quiet(tr.getLogProb)):
        raise Skip
    opt = pick(rng, [ConstrainedOptimizer, ConstrainedDenseOptimizer])()
    okw = dict(shared_params=False) if isinstance(opt, ConstrainedDenseOptimizer) else {}
    tr.optimizer = opt
    before = frozen_view(tr)
    starts = []

    def cb(optimizer=None, tractor=None, **k):
        starts.append((np.array(tractor.getParams(), float), len(tr.trace)))
        return True
    tr.trace = []
    R = run(m, lambda: tr.optimize_loop(steps=int(rng.integers(1, 7)), check_step=cb, **okw))
    trace, tr.trace = tr.trace, None
    p1 = np.array(tr.getParams(), float)
    m.event('fit')
    m.event('trial', len(trace))
    m.check(inside(p1, lo, up), 'c15.bounds', 'a fit ends within the bounds', p=p1, lower=lo, upper=up)
    frm, i = p0, 0
    limited = False
    for end, k in starts:
        for q, v in trace[i:k]:
            m.check(inside(q, lo, up), 'c15.bounds', 'a fit evaluates the posterior within the bounds only', p=q, lower=lo, upper=up)
            m.check(small(frm, q, mx), 'c15.maxstep', 'a fit moves by at most the maximum step', p=q, start=frm, maxstep=mx)
            limited = limited or any(x is not None and abs(abs(b - a) - x) <= 1e-9 * x for a, b, x in zip(frm, q, mx))
        frm, i = end, k
    at = any((l is not None and v == l) or (u is not None and v == u) for v, l, u in zip(p1, lo, up))
    if R['hit_limit']:
        # within the smallest step that is ever tried of a bound
        m.check(R['ever_hit_limit'], 'c15.report', 'a limit hit last was hit ever')
    # (later steps may be too small to leave a bound that was reached earlier: only the 'ever' flag is certain)
    if at and not any((l is not None and a == l) or (u is not None and a == u) for a, l, u in zip(p0, lo, up)):
        m.check(R['ever_hit_limit'], 'c15.report', 'a fit that ended on a bound says so', p=p1, lower=lo, upper=up)
    # (a maximum step of next to nothing also counts as a limit)
    if all(x is None for x in list(lo) + list(up) + list(mx)):
        m.check(not R['hit_limit'] and not R['ever_hit_limit'], 'c15.report', 'no bounds, no bound hit')
    if at:
        m.event('fit at bound')
    if limited:
        m.event('fit step limited')
    m.check(frozen_view(tr) == before, 'c15.frozen', 'frozen parameters and data are untouched')
    m.equal([lo, up, mx], [tr.getLowerBounds(), tr.getUpperBounds(), tr.getMaxStep()], 'c15.limits', 'a fit leaves the limits as they were')
    m.state('fit', type(opt).__name__, n, at, limited, R['steps'])
    m.sample(opt=type(opt).__name__, n=n, trials=len(trace), at_bound=at, limited=limited, **R)


SCENARIOS = {
    'steps': (sc_steps, 300, 3000),
    'search': (sc_search, 200, 3000),
    'fit': (sc_fit, 650, 5200),
}
QUICK = 4
