"""C21: galaxy profiles have unit flux, the right half-light radius and light distribution; composites are sums."""
import numpy as np
from scipy.special import gammainc, gammaincinv

import zoo
from zoo import pick, chance, loguni
from tractor import Image, NullWCS, NullPhotoCal, ConstantSky, GaussianMixturePSF, PixPos, Flux, PointSource, Tractor, NanoMaggies
from tractor.galaxy import ExpGalaxy, DevGalaxy, GaussianGalaxy, CompositeGalaxy, FixedCompositeGalaxy, SoftenedFracDev
from tractor.sersic import SersicGalaxy, SersicIndex, SersicMixture
from tractor.sercore import SersicCoreGalaxy
from tractor.devcore import DevCoreGalaxy
from tractor.ellipses import EllipseE, EllipseESoft
from tractor.galaxy import GalaxyShape
from tractor.mixture_profiles import get_exp_mixture, get_dev_mixture
from tractor.galaxy_profiles import profile_dev, profile_exp

RULE = 'Sersic indices over and beyond the legal range (including every border of the fitted ranges), radii and ellipticities, against the analytic Sersic curve of growth; distinct by (index bin, kind, shape)'
NEED = {'profile': 500, 'near a border': 150, 'clamped': 60, 'step in index': 400, 'rendered curve of growth': 40, 'rendered total': 40, 'sum': 60, 'equivalent': 60, 'radial function': 40}
BORDERS = [0.29, 0.42, 0.5, 0.51, 0.57, 0.62, 0.71, 1.0, 1.5, 3.0, 6.3]
R = np.geomspace(0.1, 8., 40)
QUICK = 4


def true(n, r):
    b = gammaincinv(2 * n, 0.5)
    return gammainc(2 * n, b * np.asarray(r, float) ** (1. / n))


def growth(mix, r):
    """Flux within r half-light radii of a circular mixture."""
    out = np.zeros(np.shape(r))
    for a, v in zip(mix.amp, mix.var):
        out = out + (a * (1 - np.exp(-0.5 * np.asarray(r) ** 2 / v[0, 0])) if v[0, 0] > 0 else a)
    return out


def env(n):
    """How closely the published Gaussian mixtures follow the profile (they stand for profiles softened in the
    core and cut off at large radius)."""
    if n <= 0.45:
        return 0.016
    if n <= 0.62:
        return 0.0035
    if n <= 1.:
        return 0.0035 + 0.04 * (n - 0.62)
    if n <= 4.:
        return 0.019 + 0.0165 * (n - 1)
    return 0.0685 + 0.023 * (n - 4)


def envh(n):
    """the same at the half-light radius"""
    if n <= 0.45:
        return 0.006
    if n <= 0.72:
        return 0.003
    if n <= 4:
        return 0.0055 + 0.012 * (n - 0.72)
    return 0.0455 + 0.015 * (n - 4)


def check_mix(m, mix, n, what):
    m.close(mix.amp.sum(), 1., 'c21.unit', 'total flux of %s' % what, rtol=0, atol=1e-9)
    m.check(np.all(np.isfinite(mix.amp)) and np.all(np.isfinite(mix.var)), 'c21.finite', '%s not finite' % what)
    v = mix.var[:, 0, 0]
    m.check(np.all(v >= 0) and np.array_equal(v, mix.var[:, 1, 1]) and np.all(mix.var[:, 0, 1] == 0) and np.all(mix.var[:, 1, 0] == 0), 'c21.round', '%s is not a mixture of circular Gaussians' % what)
    m.check(np.all(mix.mean == 0), 'c21.centred', '%s is not centred' % what)
    m.check(np.all(np.diff(v) >= 0), 'c21.sorted', 'components of %s not in order of size' % what)
    g = growth(mix, R)
    m.close(growth(mix, 1.), 0.5, 'c21.half', 'flux of %s within the half-light radius' % what, rtol=0, atol=envh(n))
    m.close(g, true(n, R), 'c21.growth', 'curve of growth of %s' % what, rtol=0, atol=env(n))
    m.check(np.all(np.diff(g) > -2e-3), 'c21.monotone', 'curve of growth of %s decreases' % what)
    return g


def index(rng):
    k = rng.integers(0, 4)
    if k == 0:
        return float(np.clip(pick(rng, BORDERS) + rng.normal(0, 1) * loguni(rng, 1e-9, 1e-2), 0.29, 6.3)), True
    if k == 1:
        return float(pick(rng, BORDERS)), True
    if k == 2:
        return float(rng.uniform(0.29, 1.5)), False
    return float(rng.uniform(0.29, 6.3)), False


def sc_index(m, rng):
    n, near = index(rng)
    mix = SersicMixture.getProfile(n)
    check_mix(m, mix, n, 'Sersic %.6g' % n)
    m.event('profile')
    if near:
        m.event('near a border')
    # continuous in the index
    n2 = float(np.clip(n + rng.normal(0, 1) * loguni(rng, 1e-6, 2e-2), 0.29, 6.3))
    d = np.abs(growth(SersicMixture.getProfile(n2), R) - growth(mix, R)).max()
    m.check(d <= 1.2e-3 + 0.8 * abs(n2 - n), 'c21.continuous', 'profile jumps by %.3g between indices %.6f and %.6f' % (d, n, n2))
    m.event('step in index')
    # asking again (after others) gives the same
    for k in range(int(rng.integers(0, 8))):
        SersicMixture.getProfile(float(rng.uniform(0.3, 6)))
    again = SersicMixture.getProfile(n)
    m.check(np.array_equal(again.amp, mix.amp) and np.array_equal(again.var, mix.var), 'c21.again', 'profile of index %.4f changed' % n)
    # out of range
    if chance(rng, 0.3):
        x = float(pick(rng, [0.29 - rng.uniform(0, 0.28), 6.3 + rng.uniform(0, 5)]))
        a, b = SersicMixture.getProfile(x), SersicMixture.getProfile(0.29 if x < 1 else 6.3)
        m.close(growth(a, R), growth(b, R), 'c21.clamp', 'index %.3f out of range acts as the nearest legal one' % x, rtol=0, atol=1e-12)
        s = SersicIndex(x)
        m.check(not s.isLegal() and s.getLogPrior() == -np.inf, 'c21.legal', 'index %.3f is legal' % x)
        m.event('clamped')
    s = SersicIndex(n)
    m.check(s.isLegal() and s.getLogPrior() == 0., 'c21.legal', 'index %.3f is not legal' % n)
    m.state('n', int(n * 20), near)


def sc_named(m, rng):
    for mix, n, nm, tol in ((get_exp_mixture(), 1., 'exponential', 2e-4), (get_dev_mixture(), 4., 'de Vaucouleurs', 2e-4)):
        check_mix(m, mix, n, nm)
        m.event('profile')
        m.close(growth(mix, R), growth(SersicMixture.getProfile(n), R), 'c21.same', '%s is Sersic %g' % (nm, n), rtol=0, atol=tol)
    m.close(growth(SersicMixture.getProfile(0.5), R), 1 - 2. ** (-R ** 2), 'c21.gauss', 'Sersic 0.5 is a Gaussian', rtol=0, atol=1e-5)
    for cls, n in ((ExpGalaxy, 1.), (DevGalaxy, 4.)):
        g = cls(PixPos(0, 0), Flux(1.), EllipseE(1., 0., 0.))
        check_mix(m, g.getProfile(), n, cls.__name__)
    g = GaussianGalaxy(PixPos(0, 0), Flux(1.), EllipseE(1., 0., 0.))
    m.close(g.getProfile().amp.sum(), 1., 'c21.unit', 'total flux of a Gaussian galaxy', rtol=0, atol=1e-12)
    # radial functions
    for f, n, out, cut in ((profile_exp, 1., 4., 3.), (profile_dev, 4., 8., 7.)):
        r = np.sort(rng.uniform(0, out + 2, 50))
        keep = r.copy()
        v = f(r)
        m.check(np.array_equal(r, keep), 'c21.radial', 'input changed')
        m.check(np.all(v[r > out] == 0) and np.all(v >= 0) and np.all(np.diff(v) <= 0), 'c21.radial', 'not a decreasing profile cut at %g' % out)
        m.close([f(float(x)) for x in r], v, 'c21.radial', 'scalar and array calls', rtol=1e-12, atol=0)
        b = gammaincinv(2 * n, 0.5)
        k = (r < cut) & (r > 0.5)
        w = np.exp(-b * (r[k] ** (1. / n) - 1))
        m.close(v[k] / f(1.), w, 'c21.radial', 'Sersic %g profile relative to its half-light radius' % n, rtol=0.02 if n == 4 else 1e-3, atol=0)
        m.close(f(out - 1e-4), 0., 'c21.radial', 'continuous at the cut', rtol=0, atol=1e-2)
    m.event('radial function')
    m.state('named')


def gal(rng, kind, n, pos, flux, shape):
    if kind == 'exp':
        return ExpGalaxy(pos, flux, shape), 1.
    if kind == 'dev':
        return DevGalaxy(pos, flux, shape), 4.
    return SersicGalaxy(pos, flux, shape, SersicIndex(n)), n


def sc_rendered(m, rng):
    """The light within the ellipse of the half-light radius, on the rendered image."""
    re = float(rng.uniform(13., 18.))
    ps = loguni(rng, 0.2, 3.)
    sz = 241
    kind = pick(rng, ['exp', 'dev', 'sersic', 'sersic'])
    n, near = index(rng)
    n = min(n, 5.)
    e, th = rng.uniform(0, 0.4), rng.uniform(0, np.pi)
    shape = EllipseE(re * ps, float(e * np.cos(2 * th)), float(e * np.sin(2 * th)))
    x, y = [float(v) for v in rng.uniform(115, 125, 2)]
    F = loguni(rng, 1., 1e4)
    s, n = gal(rng, kind, n, PixPos(x, y), Flux(F), shape)
    sig = 1.
    img = Image(data=np.zeros((sz, sz)), invvar=np.ones((sz, sz)), psf=GaussianMixturePSF(np.array([1.]), np.zeros((1, 2)), (sig ** 2 * np.eye(2))[None]), wcs=NullWCS(pixscale=ps), photocal=NullPhotoCal(), sky=ConstantSky(0.))
    mod = Tractor([img], [s]).getModelImage(0).astype(float) / F
    yy, xx = np.mgrid[0:sz, 0:sz]
    # shape on the sky is EllipseE: semi-axes re and re*ab at angle theta (east of north); with the identity
    # WCS, x plays the part of RA
    a = re
    ab = (1 - e) / (1 + e)
    t = th
    dx, dy = xx - x, yy - y
    rho = []
    for sgn in (1, -1):
        u = dx * np.sin(sgn * t) + dy * np.cos(sgn * t)
        v = dx * np.cos(sgn * t) - dy * np.sin(sgn * t)
        rho.append(np.sqrt((u / a) ** 2 + (v / (a * ab)) ** 2))
    # the handedness of position angles is C18/C19's business: either
    got = [[mod[r < k].sum() for k in (0.7, 1., 1.5, 2., 3.)] for r in rho]
    w = true(n, np.array([0.7, 1., 1.5, 2., 3.]))
    best = min(got, key=lambda g: -g[1])
    m.close(best, w, 'c21.render', 'flux within ellipses of 0.7 to 3 half-light radii, %s n=%.3f' % (kind, n), rtol=0, atol=env(n) + 0.02 + 0.01 * n)
    m.event('rendered curve of growth')
    # all of the light that falls on the image
    tot = mod.sum()
    lo = float(true(n, min(115. / re, 5.))) - 0.01
    m.check(lo - 0.02 <= tot <= 1 + 1e-3, 'c21.total', 'total rendered flux %.4f, n=%.3f' % (tot, n))
    m.event('rendered total')
    m.state('render', kind, int(n * 4), int(e * 5))


def sc_sums(m, rng):
    """Composite galaxies are the sums of their parts; sources that should be the same are the same."""
    ph = zoo.Photo(rng)
    W, H = int(rng.integers(24, 40)), int(rng.integers(24, 40))
    astro = zoo.Astro(rng, W, H)
    psf = zoo.psf(rng, pick(rng, ['gm', 'nc', 'gme']))
    img = Image(data=np.zeros((H, W), np.float32), invvar=np.ones((H, W), np.float32), psf=psf, wcs=astro.wcs, photocal=ph.cal(ph.band), sky=ConstantSky(0.))
    pos = astro.pos(float(rng.uniform(8, W - 8)), float(rng.uniform(8, H - 8)))
    b1, b2 = ph.brightness(rng), ph.brightness(rng)
    ps = astro.wcs.pixscale if hasattr(astro.wcs, 'pixscale') else 1.
    s1, s2 = zoo.shape(rng, 'ee', lo=0.8, hi=2.), zoo.shape(rng, 'ee', lo=0.8, hi=2.)
    n = float(rng.uniform(0.4, 5.))
    def ren(src):
        tr = Tractor([img], [src])
        tr.modtype = np.float64
        return tr.getModelImage(0)
    E, D = ren(ExpGalaxy(pos, b1, s1)), ren(DevGalaxy(pos, b2, s2))
    P = ren(PointSource(pos, b2))
    S = ren(SersicGalaxy(pos, b1, s1, SersicIndex(n)))
    sc = np.abs(E).max() + np.abs(D).max() + np.abs(P).max()

    def eq(a, b, what, tol=1e-5):
        m.close(a, b, 'c21.sum', what, rtol=0, atol=tol * sc)
        m.event('sum')
    eq(ren(CompositeGalaxy(pos, b1, s1, b2, s2)), E + D, 'composite galaxy')
    eq(ren(SersicCoreGalaxy(pos, b1, s1, SersicIndex(n), b2)), S + P, 'Sersic with a core')
    eq(ren(DevCoreGalaxy(pos, b2, s2, b2)), D + P, 'de Vaucouleurs with a core')
    D1 = ren(DevGalaxy(pos, b1, s2))
    f = float(pick(rng, [rng.uniform(0, 1), 0., 1.]))
    # a fixed composite is rendered as one mixture: only where both parts would be
    F = ren(FixedCompositeGalaxy(pos, b1, f, s1, s2))
    eq(F, f * D1 + (1 - f) * E, 'fixed composite galaxy, fraction %.3f' % f, tol=2e-3)
    # the same galaxy, differently
    # (drawn out to different radii)
    S1, S4 = ren(SersicGalaxy(pos, b1, s1, SersicIndex(1.))), ren(SersicGalaxy(pos, b1, s2, SersicIndex(4.)))
    eq(np.where(E == 0, 0, S1), np.where(S1 == 0, 0, E), 'Sersic 1 is exponential', tol=1e-3)
    eq(np.where(D1 == 0, 0, S4), np.where(S4 == 0, 0, D1), 'Sersic 4 is de Vaucouleurs', tol=1e-3)
    m.event('equivalent')
    sf = SoftenedFracDev(float(rng.uniform(-0.5, 1.5)))
    m.check(0. <= sf.clipped() <= 1., 'c21.frac', 'softened fraction %.3f out of [0, 1]' % sf.clipped())
    m.state('sum', psf.zoo_kind, astro.kind, ph.kind, int(n))


SCENARIOS = {'index': (sc_index, 300, 12000), 'named': (sc_named, 20, 200), 'rendered': (sc_rendered, 30, 1200), 'sums': (sc_sums, 50, 2500)}
