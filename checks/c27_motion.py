"""C27: positions of moving sources (proper motion and parallax), times."""
import datetime

import numpy as np

import zoo
from zoo import pick, chance, loguni
from monitor import Skip
from tractor import RaDecPos, PointSource, Image, NullPhotoCal, ConstantSky, Flux, GaussianMixturePSF
from tractor.motion import MovingPointSource, PMRaDec, Parallax, ParallaxWithPrior
from tractor.tractortime import TAITime
from tractor import ConstantFitsWcs, Tractor
from astrometry.util.util import Tan

RULE = 'random positions over the sky (including RA near 0/360 and high declination), proper motions, parallaxes and dates 1990-2030, against a vector computation; distinct by (RA octant, Dec band, season, sizes of motion and parallax)'
NEED = {'position': 2000, 'RA wraps': 60, 'a year later': 300, 'ellipse': 100, 'rendered': 60, 'derivative': 150, 'time': 300, 'prior': 100, 'epoch': 300, 'copy': 200}
QUICK = 6
AS = np.pi / 180 / 3600.


def unit(ra, dec):
    r, d = np.deg2rad(ra), np.deg2rad(dec)
    return np.array([np.cos(d) * np.cos(r), np.cos(d) * np.sin(r), np.sin(d)])


def sun(mjd):
    """Direction from the Earth to the Sun: circular orbit, equinox 2004, obliquity 23.44."""
    th = 2 * np.pi * (mjd - 53084.28) / 365.25
    e = np.deg2rad(23.44)
    return np.array([np.cos(th), np.sin(th) * np.cos(e), np.sin(th) * np.sin(e)])


def apparent(ra, dec, pmra, pmdec, par, mjd, ep):
    dt = (mjd - ep) / 365.25
    v = unit(ra + pmra * dt, dec + pmdec * dt) + par * AS * sun(mjd)
    return v / np.linalg.norm(v)


def sep(u, v):
    """arcsec"""
    return np.linalg.norm(u - v) / AS


def make(rng):
    ra = float(pick(rng, [rng.uniform(0, 360), rng.uniform(0, 1e-3), 360 - rng.uniform(0, 1e-3)]))
    dec = float(pick(rng, [rng.uniform(-60, 60), rng.uniform(-87, 87), 0.]))
    pm = [float(rng.normal(0, 1)) * loguni(rng, 1e-7, 1e-3) if chance(rng, 0.9) else 0. for i in range(2)]
    par = loguni(rng, 1e-3, 2.) if chance(rng, 0.9) else 0.
    ep = float(rng.uniform(47900, 62500)) if chance(rng, 0.8) else 51544.5
    s = MovingPointSource(RaDecPos(ra, dec), Flux(float(rng.uniform(1, 100))), PMRaDec(*pm), par, epoch=TAITime(None, mjd=ep))
    return s, (ra, dec, pm[0], pm[1], par), ep


def sc_position(m, rng):
    s, p, ep = make(rng)
    before = list(s.getAllParams())
    for i in range(5):
        mjd = float(rng.uniform(47900, 62500))
        t = TAITime(None, mjd=mjd) if chance(rng, 0.5) else TAITime(mjd * 86400.)
        q = s.getPositionAtTime(t)
        m.check(type(q) is RaDecPos and 0 <= q.ra <= 360. and -90 <= q.dec <= 90, 'c27.range', 'position %r out of range' % (q,))
        d = sep(unit(q.ra, q.dec), apparent(*p, mjd, ep))
        m.check(d < 1e-6, 'c27.position', 'position at MJD %.3f is off by %.3g arcsec' % (mjd, d), pars=p, epoch=ep)
        m.event('position')
        if abs(q.ra - p[0]) > 180:
            m.event('RA wraps')
        # a year later the parallax is the same
        q2 = s.getPositionAtTime(TAITime(None, mjd=mjd + 365.25))
        d = sep(unit(q2.ra, q2.dec), apparent(p[0] + p[2], p[1] + p[3], p[2], p[3], p[4], mjd, ep))
        m.check(d < 1e-6, 'c27.year', 'a year of motion is off by %.3g arcsec' % d)
        m.event('a year later')
    m.equal(list(s.getAllParams()), before, 'c27.params', 'the parameters after use')
    # at the epoch, without parallax, the source is at its position
    old = s.parallax.getValue()
    s.parallax.setValue(0.)
    q = s.getPositionAtTime(TAITime(None, mjd=ep))
    d = sep(unit(q.ra, q.dec), unit(p[0], p[1]))
    m.check(d < 1e-6, 'c27.epoch', 'position at the epoch is off by %.3g arcsec' % d)
    m.event('epoch')
    s.parallax.setValue(old)
    if chance(rng, 0.5):        # a parallax with a prior stays one
        s.parallax = ParallaxWithPrior(p[4] + 1e-3 if p[4] == 0 else p[4])
    c = s.copy()
    m.equal((type(c.parallax), c.getLogPrior()), (type(s.parallax), s.getLogPrior()), 'c27.copy', 'parallax of a copy')
    t = TAITime(None, mjd=float(rng.uniform(47900, 62500)))
    a, b = s.getPositionAtTime(t), c.getPositionAtTime(t)
    m.check((a.ra, a.dec) == (b.ra, b.dec), 'c27.copy', 'a copy is elsewhere')
    m.event('copy')
    m.state(int(p[0] // 45), int(p[1] // 20), p[4] > 0.1, abs(p[2]) > 1e-5)


def sc_ellipse(m, rng):
    """Over a year a source at rest traces an ellipse of semi-axes p and p sin(ecliptic latitude), and is
    always displaced towards the Sun."""
    ra, dec = float(rng.uniform(0, 360)), float(rng.uniform(-80, 80))
    par = loguni(rng, 1e-2, 2.)
    s = MovingPointSource(RaDecPos(ra, dec), Flux(1.), PMRaDec(0., 0.), par, epoch=TAITime(None, mjd=51544.5))
    u = unit(ra, dec)
    mjd0 = float(rng.uniform(50000, 60000))
    D = []
    for k in range(72):
        mjd = mjd0 + 365.25 * k / 72.
        q = s.getPositionAtTime(TAITime(None, mjd=mjd))
        D.append((unit(q.ra, q.dec) - u) / AS)
        m.check(np.dot(D[-1], sun(mjd)) >= -1e-6, 'c27.towards', 'displaced away from the Sun')
    D = np.array(D)
    pole = np.array([0, -np.sin(np.deg2rad(23.44)), np.cos(np.deg2rad(23.44))])
    sv = np.linalg.svd(D, compute_uv=False) * np.sqrt(2. / 72)
    want = [par, par * abs(np.dot(u, pole))]
    m.close(sv[:2], np.array(want), 'c27.axes', 'semi-axes of the parallactic ellipse', rtol=0, atol=1e-4 * par + 1e-6)
    m.check(np.abs(D.mean(axis=0)).max() < 1e-4 * par + 1e-6, 'c27.centre', 'ellipse not centred on the position')
    m.event('ellipse')
    m.state('ellipse', int(ra // 45), int(dec // 20))


def sc_render(m, rng):
    """A moving source renders as a point source at its position at the time of the image; its derivatives
    are those of that rendering."""
    ra, dec = float(rng.uniform(1, 359)), float(rng.uniform(-60, 60))
    ps = float(rng.uniform(0.3, 2.))
    W = 40
    th = rng.uniform(0, 2 * np.pi)
    cd = np.array([[-np.cos(th), np.sin(th)], [np.sin(th), np.cos(th)]]) * ps / 3600.
    tan = Tan(ra, dec, W / 2., W / 2., cd[0, 0], cd[0, 1], cd[1, 0], cd[1, 1], float(W), float(W))
    dt = float(rng.uniform(-8, 8))
    ep = float(rng.uniform(50000, 58000))
    mjd = ep + dt * 365.25
    # lands within some pixels of the centre
    pm = rng.normal(0, 3 * ps / 3600. / max(abs(dt), 0.5), 2)
    s = MovingPointSource(RaDecPos(ra, dec), Flux(float(rng.uniform(1, 100))), PMRaDec(float(pm[0]), float(pm[1])), float(rng.uniform(0, 1.5)), epoch=TAITime(None, mjd=ep))
    psf = GaussianMixturePSF(np.array([1.]), np.zeros((1, 2)), (float(rng.uniform(1.5, 2.5)) ** 2 * np.eye(2))[None])
    img = Image(data=np.zeros((W, W)), invvar=np.ones((W, W)), psf=psf, wcs=ConstantFitsWcs(tan), photocal=NullPhotoCal(), sky=ConstantSky(0.), time=TAITime(None, mjd=mjd))
    tr = Tractor([img], [s])

    def ideal(p):
        v = apparent(*p, mjd, ep)
        r, d = np.rad2deg(np.arctan2(v[1], v[0])) % 360., np.rad2deg(np.arcsin(v[2]))
        return Tractor([img], [PointSource(RaDecPos(r, d), s.brightness)]).getModelImage(0)
    p = [ra, dec, float(pm[0]), float(pm[1]), s.parallax.getValue()]
    A = tr.getModelImage(0)
    B = ideal(p)
    m.close(A, B, 'c27.render', 'model image of a moving source', rtol=0, atol=1e-6 * np.abs(B).max() + 1e-9)
    m.event('rendered')
    for k in ['pos', 'brightness', 'pm', 'parallax']:
        if chance(rng, 0.3):
            s.freezeParam(k)
    names = s.getParamNames()
    ders = s.getParamDerivatives(img)
    m.check(len(ders) == s.numberOfParams(), 'c27.nderivs', 'number of derivatives')
    idx = {'pos.ra': 0, 'pos.dec': 1, 'pm.pmra': 2, 'pm.pmdec': 3, 'parallax.parallax': 4}
    mx = np.abs(B).max()
    for nm, d in zip(names, ders):
        D = np.zeros((W, W))
        if d is not None:
            d.addTo(D)
        k = idx.get(nm, 4 if nm.startswith('parallax') else None)
        if k is None:
            if nm.startswith('brightness'):
                m.close(D, B / s.brightness.getValue(), 'c27.dflux', 'derivative with respect to the flux', rtol=0, atol=1e-5 * mx / s.brightness.getValue())
                m.event('derivative')
            continue
        # scale of a parameter: pixels on the image
        unitpix = {0: 3600. / ps, 1: 3600. / ps, 2: 3600. / ps * max(abs(dt), 1e-3), 3: 3600. / ps * max(abs(dt), 1e-3), 4: 1. / ps}[k]
        h = 1e-2 / unitpix
        q1, q2 = list(p), list(p)
        q1[k] += h
        q2[k] -= h
        N = (ideal(q1) - ideal(q2)) / (2 * h)
        # the code takes forward steps of its own choosing: allow second-order terms of a step
        st = [x for n_, x in zip(names, s.getStepSizes()) if n_ == nm][0] * unitpix
        m.close(D / unitpix, N / unitpix, 'c27.deriv', 'derivative with respect to %s' % nm, rtol=0, atol=(2e-3 + 2 * st) * mx)
        m.event('derivative')
    m.state('render', int(ra // 45), int(dec // 30), len(names))


def sc_time(m, rng):
    mjd = float(rng.uniform(40000, 65000))
    t = TAITime(None, mjd=mjd)
    m.close(t.toMjd(), mjd, 'c27.mjd', 'MJD', rtol=1e-14, atol=0)
    m.close(t.getValue(), mjd * 86400., 'c27.tai', 'TAI seconds', rtol=1e-14, atol=0)
    m.close(t.toYear(), 2000. + (mjd - 51544.5) / 365.25, 'c27.toyear', 'calendar year', rtol=0, atol=1e-9)
    d0 = datetime.datetime(1858, 11, 17) + datetime.timedelta(days=int(mjd), seconds=int(rng.integers(0, 86400)))
    td = TAITime(None, date=d0)
    w = (d0 - datetime.datetime(1858, 11, 17)).total_seconds()
    m.close(td.getValue(), w, 'c27.date', 'TAI of a date', rtol=0, atol=1e-3)
    dd = float(rng.uniform(-5000, 5000))
    t2 = TAITime(None, mjd=mjd + dd)
    m.close((t2 - t).toYears(), dd / 365.25, 'c27.diff', 'difference of times in years', rtol=0, atol=1e-9)
    m.close((t + (t2 - t)).toMjd(), mjd + dd, 'c27.sum', 'sum of times', rtol=0, atol=1e-8)
    th = t.getSunTheta()
    w = 2 * np.pi * (mjd - 53084.28) / 365.25
    m.close([np.cos(th), np.sin(th)], [np.cos(w), np.sin(w)], 'c27.suntheta', 'ecliptic longitude of the Sun', rtol=0, atol=1e-9)
    m.close(t.toMjd(), mjd, 'c27.unchanged', 'time after use', rtol=1e-14, atol=0)
    m.event('time')
    v = float(rng.normal(0, 1))
    pr = ParallaxWithPrior(v)
    lp = pr.getLogPrior()
    if v < 0:
        m.check(lp == -np.inf and not pr.isLegal(), 'c27.prior', 'negative parallax is legal')
    elif v > 0:
        m.close(lp, -4 * np.log(v), 'c27.prior', 'Lutz-Kelker prior', rtol=1e-12, atol=1e-12)
        m.check(bool(pr.isLegal()), 'c27.legal', 'positive parallax not legal')
    m.event('prior')
    p = PMRaDec(v * 1e-4, -v * 2e-4)
    m.close([p.getRaArcsecPerYear(), p.getDecArcsecPerYear()], [v * 0.36, -v * 0.72], 'c27.pm', 'proper motion in arcsec per year', rtol=1e-12, atol=1e-15)
    m.state('time', int(mjd // 2000))


SCENARIOS = {'position': (sc_position, 250, 15000), 'ellipse': (sc_ellipse, 60, 3000), 'render': (sc_render, 80, 4000), 'time': (sc_time, 200, 6000)}
