"""C18: all shape parameterizations describe the same ellipses and convert into each other."""
import numpy as np

import zoo
from zoo import pick, chance, loguni
from monitor import Skip
from tractor.ellipses import EllipseE, EllipseESoft
from tractor.galaxy import GalaxyShape

RULE = 'random sizes, axis ratios (round to needle-like), angles and pixel matrices; distinct by (class, parameters)'
NEED = {'round': 15, 'needle': 30, 'convert': 150, 'covariance': 150, 'tensor': 60, 'tiny': 15, 'legal': 15, 'illegal': 30, 'large soft e': 20}


def rand_re(rng):
    return loguni(rng, 0.05, 200.)


def rand_ab(m, rng):
    k = rng.integers(5)
    if k == 0:
        m.event('round')
        return 1.
    if k == 1:
        m.event('needle')
        return loguni(rng, 2e-3, 0.05)
    return float(rng.uniform(0.05, 1.))


def cov_of(re, ab, phi):
    """Covariance (arcsec^2, in RA,Dec) of the ellipse with this major axis, axis ratio, and angle
    (in degrees, in tractor's sense: 0 along Dec, then towards decreasing RA)."""
    t = -np.radians(phi)
    major = np.array([np.sin(t), np.cos(t)])
    minor = np.array([np.cos(t), -np.sin(t)])
    return re**2 * np.outer(major, major) + (re * ab)**2 * np.outer(minor, minor)


def basis_cov(e):
    G = np.array(e.getRaDecBasis(), float) * 3600.
    return G @ G.T


def same(m, a, b, key, msg, tol=1e-8, **k):
    b = np.asarray(b, float)
    m.close(a, b, key, msg, rtol=0., atol=tol * np.trace(b), **k)


def sc_convert(m, rng):
    for _ in range(3):
        re, ab, phi = rand_re(rng), rand_ab(m, rng), float(rng.uniform(-400, 400))
        if chance(rng, 0.2):
            phi = float(pick(rng, [0., 45., 90., 135., 180., -45., -90., 270., 360.]))
        want = cov_of(re, ab, phi)
        g = GalaxyShape(re, ab, phi)
        e = EllipseE.fromRAbPhi(re, ab, phi)
        s = EllipseESoft.fromRAbPhi(re, ab, phi)
        same(m, basis_cov(g), want, 'c18.shape', 'radius, axis ratio and angle describe this ellipse', cls='GalaxyShape', re=re, ab=ab, phi=phi)
        same(m, basis_cov(e), want, 'c18.shape', 'from radius, axis ratio and angle', cls='EllipseE', re=re, ab=ab, phi=phi)
        same(m, basis_cov(s), want, 'c18.shape', 'from radius, axis ratio and angle', cls='EllipseESoft', re=re, ab=ab, phi=phi)
        same(m, e.getCovariance(), want, 'c18.cov', 'the covariance of an ellipse', cls='EllipseE')
        same(m, s.getCovariance(), want, 'c18.cov', 'the covariance of an ellipse', cls='EllipseESoft')
        for x in (e, s):
            m.check(type(x).__name__ in ('EllipseE', 'EllipseESoft') and x.isLegal(), 'c18.legal', 'a converted ellipse is legal', e=x)
            m.close(x.re, re, 'c18.props', 'effective radius', rtol=1e-9, atol=0.)
            m.close(x.ab, ab, 'c18.props', 'axis ratio', rtol=1e-7, atol=1e-9)
            m.close(x.e, (1 - ab) / (1 + ab), 'c18.props', 'ellipticity', rtol=1e-9, atol=1e-9)
            if ab < 0.99:
                d = np.degrees(x.theta) + phi
                m.check(abs((d + 90.) % 180. - 90.) < 1e-5, 'c18.props', 'position angle', theta=np.degrees(x.theta), phi=phi)
        m.close(np.linalg.det(g.getRaDecBasis()) * 3600.**2, re**2 * ab, 'c18.area', 'area of the ellipse', rtol=1e-9, atol=0., cls='GalaxyShape')
        # between the two
        e2 = s.toEllipseE()
        s2 = EllipseESoft.fromEllipseE(e)
        m.check(type(e2) is EllipseE and type(s2) is EllipseESoft, 'c18.convert', 'classes of converted ellipses')
        same(m, basis_cov(e2), want, 'c18.convert', 'soft to plain ellipticity')
        same(m, basis_cov(s2), want, 'c18.convert', 'plain to soft ellipticity')
        same(m, basis_cov(EllipseE.fromEllipseESoft(s)), want, 'c18.convert', 'soft to plain ellipticity')
        m.close(s2.getParams(), s.getParams(), 'c18.convert', 'soft parameters', rtol=1e-9, atol=1e-8)
        m.close(e2.getParams(), e.getParams(), 'c18.convert', 'plain parameters', rtol=1e-9, atol=1e-9)
        m.close(e.toEllipseE().getParams(), e.getParams(), 'c18.convert', 'plain to plain', rtol=0, atol=0)
        # a converted ellipse is an object of its own
        x = e.toEllipseE()
        x.setParams([v * 0.5 for v in x.getParams()])
        m.close(e.getParams(), EllipseE.fromRAbPhi(re, ab, phi).getParams(), 'c18.alias', 'changing a converted ellipse changed the original', rtol=0, atol=0)
        # covariance round trip
        for cls, ref in ((EllipseE, e), (EllipseESoft, s)):
            x = cls.fromCovariance(want.copy())
            m.check(type(x) is cls, 'c18.cov', 'class of an ellipse from a covariance')
            same(m, basis_cov(x), want, 'c18.cov', 'ellipse of a covariance', tol=1e-7, cls=cls.__name__, re=re, ab=ab, phi=phi)
            if ab > 0.01 and abs(ab - 1) > 1e-3:
                m.close(x.getParams(), ref.getParams(), 'c18.cov', 'covariance -> parameters', rtol=1e-5, atol=1e-5, cls=cls.__name__)
        m.event('convert', 3)
        m.event('covariance', 3)
        m.state(round(re, 3), round(ab, 3), round(phi, 1))


def sc_tensor(m, rng):
    """Pixels -> units of the effective radius, through any pixel matrix."""
    re, ab, phi = rand_re(rng), rand_ab(m, rng), float(rng.uniform(-180, 180))
    ab = max(ab, 0.01)
    ps = loguni(rng, 0.05, 5.) / 3600.
    th = rng.uniform(0, 2 * np.pi)
    cd = ps * np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]) @ np.diag([pick(rng, [-1., 1.]), 1.])
    cd = cd + 0.2 * ps * rng.normal(size=(2, 2))
    if abs(np.linalg.det(cd)) < 0.1 * ps**2:
        raise Skip
    want = cov_of(re, ab, phi)
    for e in (GalaxyShape(re, ab, phi), EllipseE.fromRAbPhi(re, ab, phi), EllipseESoft.fromRAbPhi(re, ab, phi)):
        T = np.array(e.getTensor(cd.copy()), float)
        # a pixel offset's squared norm in r_e units is its Mahalanobis distance
        for _ in range(3):
            d = rng.normal(size=2) * loguni(rng, 0.1, 30.)
            w = cd @ d * 3600.
            r2 = float(w @ np.linalg.solve(want, w))
            m.close(float(np.sum((T @ d)**2)), r2, 'c18.tensor', 'squared elliptical radius of a pixel offset', rtol=1e-7, atol=1e-12, cls=type(e).__name__)
        m.close(np.linalg.inv(T) @ np.linalg.inv(T).T, np.linalg.solve(cd, np.linalg.solve(cd, want / 3600.**2).T).T, 'c18.tensor', 'pixel covariance',
                rtol=0., atol=1e-8 * np.trace(want) / (ps * 3600.)**2, cls=type(e).__name__)
    m.event('tensor')
    m.state('tensor', round(re, 3), round(ab, 3))


def sc_legal(m, rng):
    e1, e2 = (float(x) for x in rng.uniform(-1.2, 1.2, 2))
    re = float(rng.normal()) * 3.
    e = EllipseE(re, e1, e2)
    legal = np.hypot(e1, e2) < 1. and re >= 0.
    m.equal(bool(e.isLegal()), bool(legal), 'c18.legal', 'legality of an ellipse', re=re, e1=e1, e2=e2)
    m.event('legal' if legal else 'illegal')
    if legal and re > 0.01:
        c = basis_cov(e)
        ev = np.linalg.eigvalsh(c)
        ab = (1 - e.e) / (1 + e.e)
        m.close(np.sqrt(ev[1]), re, 'c18.axes', 'the semi-major axis is the effective radius', rtol=1e-9, atol=0.)
        m.close(np.sqrt(max(ev[0], 0.)), re * max(ab, 1e-3), 'c18.axes', 'the semi-minor axis is the axis ratio times it', rtol=1e-5, atol=1e-8 * re)
        if ab < 0.999:
            v = np.linalg.eigh(c)[1][:, 1]
            t = np.arctan2(v[0], v[1])
            m.check(abs((t - e.theta + np.pi / 2) % np.pi - np.pi / 2) < 1e-5, 'c18.axes', 'the major axis is at the position angle', theta=e.theta, axis=t)
    m.check(EllipseE(0., 0.3 * e1, 0.3 * e2).isLegal(), 'c18.legal', 'a radius of zero is legal')
    # the bounds on each parameter are those of the legal region
    q = EllipseE(abs(re), 0.5 * e1, 0.5 * e2)
    m.equal(([x for x in q.getLowerBounds()], [x for x in q.getUpperBounds()]), ([0., -1., -1.], [None, 1., 1.]), 'c18.bounds', 'bounds of ellipse parameters')
    m.equal(([x for x in EllipseESoft(0., e1, e2).getLowerBounds()], [x for x in EllipseESoft(0., e1, e2).getUpperBounds()]), ([None] * 3, [None] * 3),
            'c18.bounds', 'soft parameters are unbounded')
    # finite steps stay legal: towards zero ellipticity
    if legal:
        for i, d in enumerate(e.getAllStepSizes()):
            q = e.copy()
            q.setParam(i, e.getParams()[i] + d)
            if np.hypot(e1, e2) > 0.2 or i == 0:
                if i == 0 or abs((e1, e2)[i - 1]) > 0.02:
                    m.check(q.isLegal() and q.e <= e.e + 1e-12, 'c18.steps', 'a derivative step leaves the legal ellipses or increases the ellipticity', e=(re, e1, e2), i=i, step=d)
                    m.event('step')
    # impossible ellipticities saturate when softened
    if np.hypot(e1, e2) >= 1. and abs(re) > 1e-3:
        x = EllipseESoft.fromEllipseE(EllipseE(abs(re), e1, e2))
        m.check(np.all(np.isfinite(x.getParams())), 'c18.soft', 'softening an impossible ellipticity', got=x.getParams())
        m.check(abs((x.theta - EllipseE(abs(re), e1, e2).theta + np.pi / 2) % np.pi - np.pi / 2) < 1e-9 and x.e > 0.9999, 'c18.soft', 'softening keeps the angle', got=x.getParams())
    # soft parameters: everything is legal, finite and an actual ellipse
    ee1, ee2 = (float(x) for x in rng.normal(size=2) * pick(rng, [0., 1e-8, 0.3, 3., 30.]))
    if np.hypot(ee1, ee2) > 8:
        m.event('large soft e')
    s = EllipseESoft(float(rng.uniform(-5, 5)), ee1, ee2)
    m.check(s.isLegal(), 'c18.soft', 'all soft parameters are legal')
    m.check(0. <= s.e <= 1., 'c18.soft', 'ellipticity of soft parameters is between 0 and 1', e=s.e)
    m.close(s.softe, np.hypot(ee1, ee2), 'c18.soft', 'soft ellipticity', rtol=1e-12, atol=0.)
    m.close(s.e, -np.expm1(-np.hypot(ee1, ee2)), 'c18.soft', 'ellipticity of a soft ellipticity', rtol=1e-9, atol=1e-12)
    c = basis_cov(s)
    m.check(np.all(np.isfinite(c)) and np.linalg.det(s.getRaDecBasis()) != 0, 'c18.soft', 'soft parameters give a proper ellipse', cov=c)
    m.close(np.sqrt(np.linalg.eigvalsh(c)[1]), np.exp(s.logre), 'c18.soft', 'soft radius', rtol=1e-9, atol=0.)
    x = s.toEllipseE()
    m.check(x.isLegal() and np.all(np.isfinite(x.getParams())), 'c18.soft', 'soft parameters convert to a legal ellipse', e=x)
    back = EllipseESoft.fromEllipseE(x)
    if s.e < 0.9999:
        m.close(back.getParams(), s.getParams(), 'c18.soft', 'soft -> plain -> soft', rtol=1e-6, atol=1e-7)
    else:
        m.check(np.all(np.isfinite(back.getParams())), 'c18.soft', 'extreme ellipticities stay finite')
    # rotating the ellipse rotates the parameters by twice the angle
    d = float(rng.uniform(0, np.pi))
    if legal and re > 0.01:
        R = np.array([[np.cos(2 * d), -np.sin(2 * d)], [np.sin(2 * d), np.cos(2 * d)]])
        f1, f2 = R @ np.array([e1, e2])
        r = EllipseE(re, float(f1), float(f2))
        Q = np.array([[np.cos(d), np.sin(d)], [-np.sin(d), np.cos(d)]])
        same(m, basis_cov(r), Q @ basis_cov(e) @ Q.T, 'c18.rotate', 'rotating the ellipticity vector by 2a rotates the ellipse by a')
    # very small galaxies do not become singular
    t = GalaxyShape(loguni(rng, 1e-6, 1. / 30), float(rng.uniform(0.1, 1)), float(rng.uniform(0, 180)))
    same(m, basis_cov(t), cov_of(1. / 30, t.ab, t.phi), 'c18.tiny', 'very small galaxies are kept at a minimum size')
    m.event('tiny')
    m.state('legal', round(e1, 2), round(e2, 2), round(ee1, 2))


SCENARIOS = {
    'convert': (sc_convert, 560, 4480),
    'tensor': (sc_tensor, 640, 5120),
    'legal': (sc_legal, 960, 7680),
}
QUICK = 5
