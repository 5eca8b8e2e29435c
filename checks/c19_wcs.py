"""C19: world coordinate systems: positions and pixels are inverse, matrices are local derivatives, shifts move the origin."""
import copy
import os
import pickle

import numpy as np

import zoo
from zoo import pick, chance, loguni
from monitor import Skip
from astrometry.util.util import Tan, anwcs_from_string
from tractor import NullWCS, ConstantFitsWcs, TanWcs, WcslibWcs, PixPos, RaDecPos, ScaledWcs, ShiftedWcs, ScaledPhotoCal, LinearPhotoCal, Flux

RULE = 'random projections (any RA including 0, any Dec, rotation, flip, skew), shift chains and parameter edits; distinct by (class, centre, edits)'
NEED = {'arithmetic': 800, 'fits-like': 150, 'round trip': 300, 'projection': 300, 'shift': 150, 'matrix': 150, 'near RA 0': 30, 'edit': 60, 'wrapper': 60, 'distance': 100, 'wcslib': 10, 'high dec': 20}


def gnomonic(ra, dec, crval, crpix, cd):
    """FITS TAN: pixel coordinates counted from 0 at the centre of the first pixel."""
    a, d = np.radians(ra), np.radians(dec)
    a0, d0 = np.radians(crval[0]), np.radians(crval[1])
    D = np.sin(d) * np.sin(d0) + np.cos(d) * np.cos(d0) * np.cos(a - a0)
    xi = np.degrees(np.cos(d) * np.sin(a - a0) / D)
    eta = np.degrees((np.sin(d) * np.cos(d0) - np.cos(d) * np.sin(d0) * np.cos(a - a0)) / D)
    dx = np.linalg.solve(np.array(cd, float).reshape(2, 2), np.array([xi, eta]))
    return crpix[0] + dx[0] - 1., crpix[1] + dx[1] - 1.


def rand_tan(m, rng):
    W, H = int(rng.integers(20, 4000)), int(rng.integers(20, 4000))
    ra = float(rng.uniform(0, 360))
    if chance(rng, 0.25):
        ra = float(pick(rng, [0., 360. - 1e-9, 1e-4, 359.9999]))
        m.event('near RA 0')
    dec = float(rng.uniform(-70, 70))
    if chance(rng, 0.2):
        dec = float(pick(rng, [85., -87., 80., 0., -82.]))
        if abs(dec) > 75:
            m.event('high dec')
    ps = loguni(rng, 0.05, 3.) / 3600.
    th = rng.uniform(0, 2 * np.pi)
    cd = ps * np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]) @ np.diag([pick(rng, [-1., 1.]), 1.])
    if chance(rng, 0.4):
        cd = cd + 0.1 * ps * rng.normal(size=(2, 2))
    crpix = [float(rng.uniform(-0.2 * W, 1.2 * W)), float(rng.uniform(-0.2 * H, 1.2 * H))]
    pars = dict(crval=[ra, dec], crpix=crpix, cd=[float(x) for x in cd.ravel()], W=W, H=H)
    return pars


def tan(p):
    return Tan(p['crval'][0], p['crval'][1], p['crpix'][0], p['crpix'][1], *(list(p['cd']) + [float(p['W']), float(p['H'])]))


def header(p):
    cards = [('SIMPLE', 'T'), ('BITPIX', '8'), ('NAXIS', '2'), ('NAXIS1', str(p['W'])), ('NAXIS2', str(p['H'])),
             ('CTYPE1', "'RA---TAN'"), ('CTYPE2', "'DEC--TAN'"),
             ('CRVAL1', repr(p['crval'][0])), ('CRVAL2', repr(p['crval'][1])), ('CRPIX1', repr(p['crpix'][0])), ('CRPIX2', repr(p['crpix'][1])),
             ('CD1_1', repr(p['cd'][0])), ('CD1_2', repr(p['cd'][1])), ('CD2_1', repr(p['cd'][2])), ('CD2_2', repr(p['cd'][3])),
             ('CUNIT1', "'deg'"), ('CUNIT2', "'deg'")]
    s = ''
    for k, v in cards:
        s += ('%-8s= %20s' % (k, v)).ljust(80)
    return s + 'END'.ljust(80)


def make(m, rng, p, kind=None):
    kind = kind or pick(rng, ['const', 'tan', 'wcslib'])
    if kind == 'const':
        return ConstantFitsWcs(tan(p))
    if kind == 'tan':
        return TanWcs(tan(p))
    m.event('wcslib')
    return WcslibWcs(None, wcs=anwcs_from_string(header(p)))


def dra(a, b):
    return (a - b + 180.) % 360. - 180.


def near(m, w, p, rng, x0=0., y0=0., key='c19', n=4, jac=True):
    """Everything that ties positions, pixels and matrices together, around random pixels of w;
    w is expected to be projection p with its origin at x0,y0."""
    ps = np.sqrt(abs(np.linalg.det(np.array(p['cd']).reshape(2, 2))))
    for _ in range(n):
        x = float(rng.uniform(0, p['W'])) - x0
        y = float(rng.uniform(0, p['H'])) - y0
        pos = w.pixelToPosition(x, y)
        m.check(isinstance(pos, RaDecPos), key + '.type', 'a sky position')
        m.check(-1e-9 <= pos.ra < 360 + 1e-9 and -90 <= pos.dec <= 90, key + '.range', 'position is on the sphere', ra=pos.ra, dec=pos.dec)
        bx, by = w.positionToPixel(pos)
        m.close([bx, by], [x, y], key + '.roundtrip', 'pixel -> position -> pixel', rtol=0, atol=1e-4, wcs=type(w).__name__)
        gx, gy = gnomonic(pos.ra, pos.dec, p['crval'], p['crpix'], p['cd'])
        m.close([x + x0, y + y0], [gx, gy], key + '.projection', 'pixel coordinates are those of the tangent projection (0-indexed)', rtol=0, atol=1e-4, wcs=type(w).__name__)
        sp = RaDecPos(pos.ra, pos.dec)
        if chance(rng, 0.3):
            sp = RaDecPos(pos.ra + pick(rng, [-360., 360.]), pos.dec)
        cx, cy = w.positionToPixel(sp)
        m.close([cx, cy], [x, y], key + '.wrap', 'RA is periodic', rtol=0, atol=1e-4)
        m.event('round trip')
        m.event('projection')
        if not jac:
            continue
        # local matrix; the constant approximation holds near the reference point
        cd = np.array(w.cdAtPixel(x, y), float)
        m.equal(cd.shape, (2, 2), key + '.cd', 'shape of the matrix')
        e = 1.
        A, B, C, D = (w.pixelToPosition(x + dx, y + dy) for dx, dy in ((e, 0), (-e, 0), (0, e), (0, -e)))
        cosd = np.cos(np.radians(pos.dec))
        J = np.array([[dra(A.ra, B.ra) * cosd, dra(C.ra, D.ra) * cosd], [A.dec - B.dec, C.dec - D.dec]]) / (2 * e)
        if isinstance(w, WcslibWcs):
            tol = 1e-3
        else:
            # field rotation and scale change away from the tangent point
            off = np.hypot(dra(pos.ra, p['crval'][0]) * cosd, pos.dec - p['crval'][1])
            tol = 1e-4 + 0.05 * off + 1.5 * abs(np.sin(np.radians(pos.dec))) / max(cosd, 0.01) * np.radians(off)
        if np.hypot(dra(pos.ra, p['crval'][0]) * cosd, pos.dec - p['crval'][1]) < 0.5 or isinstance(w, WcslibWcs):
            m.close(cd, J, key + '.cd', 'the matrix is the local derivative of (RA cos Dec, Dec) in degrees per pixel', rtol=0, atol=tol * ps * 1.5, wcs=type(w).__name__)
        m.close(w.cdInverseAtPixel(x, y), np.linalg.inv(cd), key + '.cdinv', 'inverse matrix', rtol=1e-6, atol=1e-6 / ps, wcs=type(w).__name__)
        m.close(w.cdInverseAtPosition(pos), np.linalg.inv(w.cdAtPixel(bx, by)), key + '.cdinv', 'inverse matrix at a position', rtol=1e-4, atol=1e-4 / ps, wcs=type(w).__name__)
        m.close(w.pixscale_at(x, y), 3600. * np.sqrt(abs(np.linalg.det(cd))), key + '.scale', 'pixel scale', rtol=1e-6, atol=0., wcs=type(w).__name__)
        m.event('matrix')


def sc_project(m, rng):
    p = rand_tan(m, rng)
    w = make(m, rng, p)
    near(m, w, p, rng)
    if chance(rng, 0.3):
        w = pickle.loads(pickle.dumps(w)) if not isinstance(w, ConstantFitsWcs) or chance(rng, 0.5) else copy.deepcopy(w)
        near(m, w, p, rng, n=2)
    # shift chains
    x0 = y0 = 0
    chain = [(w, 0, 0)]
    for _ in range(int(rng.integers(1, 4))):
        dx, dy = int(rng.integers(-50, 200)), int(rng.integers(-50, 200))
        if chance(rng, 0.3):        # offsets need not be whole pixels
            dx, dy = dx + float(rng.random()), dy + float(rng.random())
        if isinstance(w, WcslibWcs) and chance(rng, 0.3):
            w = copy.copy(w)
            w.setX0Y0(x0 + dx, y0 + dy)
        else:
            w = w.shifted(dx, dy)
        if chance(rng, 0.3):
            w = pickle.loads(pickle.dumps(w))
        elif chance(rng, 0.3) and not isinstance(w, WcslibWcs):
            w = w.copy()
        x0, y0 = x0 + dx, y0 + dy
        chain.append((w, x0, y0))
        m.event('shift')
    for w, x, y in chain:
        near(m, w, p, rng, x, y, key='c19.shift', n=2)
    m.state(type(w).__name__, round(p['crval'][0], 2), round(p['crval'][1], 2), x0, y0)


def sc_edit(m, rng):
    """Fitting the WCS itself: after any parameter change the object is the WCS with those parameters."""
    p = rand_tan(m, rng)
    w = TanWcs(tan(p))
    sx, sy = 0, 0
    if chance(rng, 0.5):
        sx, sy = int(rng.integers(-20, 20)), int(rng.integers(-20, 20))
        w = w.shifted(sx, sy)
    orig = w.copy()
    q = copy.deepcopy(p)
    names = ['crval1', 'crval2', 'crpix1', 'crpix2', 'cd1_1', 'cd1_2', 'cd2_1', 'cd2_2']
    ps = np.sqrt(abs(np.linalg.det(np.array(p['cd']).reshape(2, 2))))
    for _ in range(4):
        n = pick(rng, names)
        i = names.index(n)
        if i < 2:
            q['crval'][i] += float(rng.normal()) * 3 * ps
            v = q['crval'][i]
        elif i < 4:
            q['crpix'][i - 2] += float(rng.normal()) * 3
            v = q['crpix'][i - 2]
        else:
            q['cd'][i - 4] += float(rng.normal()) * 0.02 * ps
            v = q['cd'][i - 4]
        how = rng.integers(3)
        if how == 0:
            setattr(w, n, v)
        else:
            w.freezeAllBut(n)
            if how == 1:
                w.setParam(0, v)
            else:
                w.setParams([v])
            w.thawAllParams()
        m.event('edit')
        near(m, w, q, rng, sx, sy, key='c19.edit', n=1)
        m.close([getattr(w, k) for k in names], q['crval'] + q['crpix'] + q['cd'], 'c19.edit', 'parameters read back', rtol=1e-12, atol=1e-15)
        m.close(w.pixel_scale(), tan(q).pixel_scale(), 'c19.edit', 'pixel scale follows the parameters', rtol=1e-9, atol=0.)
    near(m, orig, p, rng, sx, sy, key='c19.edit', n=1)
    m.state('edit', round(p['crval'][0], 2))


class Bent(NullWCS):
    """Pixel positions with a matrix that varies over the image."""

    def __init__(self, a, b):
        super().__init__()
        self.a, self.b = a, b

    def cdAtPixel(self, x, y):
        return np.array([[1. + self.a * x, self.b * y], [self.b * x, 1.5 + self.a * y - self.b * x]])


def sc_wrappers(m, rng):
    p = rand_tan(m, rng)
    base = make(m, rng, p, pick(rng, ['const', 'tan']))
    x0, y0 = int(rng.integers(-100, 100)), int(rng.integers(-100, 100))
    s = ShiftedWcs(base, x0, y0)
    near(m, s, p, rng, x0, y0, key='c19.wrap-shift', n=2)
    f = pick(rng, [0.5, 0.25, 2., 3., loguni(rng, 0.2, 5.)])
    z = ScaledWcs(base, f)
    for _ in range(3):
        x, y = float(rng.uniform(0, p['W'])), float(rng.uniform(0, p['H']))
        pos = base.pixelToPosition(x, y)
        # pixel areas: the corner (-0.5,-0.5) stays put
        m.close(z.positionToPixel(pos), [(x + 0.5) * f - 0.5, (y + 0.5) * f - 0.5], 'c19.wrap-scale', 'rescaled pixel coordinates', rtol=0, atol=2e-4 * max(f, 1))
        zx, zy = z.positionToPixel(pos)
        m.close(z.cdAtPixel(zx, zy), np.array(base.cdAtPixel(x, y)) / f, 'c19.wrap-scale', 'matrix of rescaled pixels', rtol=1e-7, atol=1e-15)
        m.close(z.pixscale_at(zx, zy), base.pixscale_at(x, y) / f, 'c19.wrap-scale', 'pixel scale of rescaled pixels', rtol=1e-6, atol=0.)
        m.close(z.cdInverseAtPosition(pos), np.linalg.inv(base.cdAtPixel(x, y)) * f, 'c19.wrap-scale', 'inverse matrix of rescaled pixels', rtol=1e-5, atol=1e-6)
    # a map whose matrix varies from pixel to pixel
    bent = Bent(float(rng.uniform(-1, 1)) * 1e-3, float(rng.uniform(-1, 1)) * 1e-3)
    for w, fx, cf in ((ShiftedWcs(bent, x0, y0), lambda v, o: v + o, 1.), (ScaledWcs(bent, f), lambda v, o: (v + 0.5) / f - 0.5, 1. / f)):
        for _ in range(2):
            x, y = float(rng.uniform(0, p['W'])), float(rng.uniform(0, p['H']))
            C = np.array(bent.cdAtPixel(fx(x, x0), fx(y, y0))) * cf
            m.close(w.cdAtPixel(x, y), C, 'c19.wrap-bent', 'matrix at the pixel of the inner WCS', rtol=1e-9, atol=1e-15)
            m.close(w.cdInverseAtPixel(x, y), np.linalg.inv(C), 'c19.wrap-bent', 'inverse matrix at the pixel of the inner WCS', rtol=1e-9, atol=1e-9)
            m.close(w.pixscale_at(x, y), 3600. * np.sqrt(abs(np.linalg.det(C))), 'c19.wrap-bent', 'pixel scale there', rtol=1e-9)
            gx, gy = w.positionToPixel(PixPos(fx(x, x0), fx(y, y0)))
            m.close([gx, gy], [x, y], 'c19.wrap-bent', 'pixel of a position', rtol=1e-9, atol=1e-8)
            m.close(w.cdInverseAtPosition(PixPos(fx(x, x0), fx(y, y0))), np.linalg.inv(C), 'c19.wrap-bent', 'inverse matrix at a position', rtol=1e-6, atol=1e-6)
    m.event('bent')
    for w in (s, z):
        m.equal(list(w.getParams()), list(base.getParams()), 'c19.wrap-params', 'a wrapped WCS has the parameters of the inner one')
        m.equal(w.numberOfParams(), base.numberOfParams(), 'c19.wrap-params', 'number of parameters')
        m.equal(list(w.getParamNames()), list(base.getParamNames()), 'c19.wrap-params', 'names of parameters')
    if isinstance(base, TanWcs):
        v = base.crpix1 + 2.5
        s.setParam(2, v)
        m.close(base.crpix1, v, 'c19.wrap-params', 'setting a parameter of the wrapper sets that of the inner one', rtol=0, atol=0)
        q = copy.deepcopy(p)
        q['crpix'][0] = v
        near(m, s, q, rng, x0, y0, key='c19.wrap-shift', n=1)
    # pixel positions
    n = NullWCS(pixscale=loguni(rng, 0.1, 10.), dx=float(rng.normal()) * 10, dy=float(rng.normal()) * 10)
    dx, dy = int(rng.integers(-30, 30)), int(rng.integers(-30, 30))
    if chance(rng, 0.3):
        dx, dy = dx + float(rng.random()), dy + float(rng.random())
    for w, ox, oy in ((n, 0, 0), (n.shifted(dx, dy), dx, dy), (ShiftedWcs(n, dx, dy), dx, dy), (n.shifted(dx, dy).shifted(-dx, 3), 0, dy + 3)):
        x, y = (float(v) for v in rng.uniform(-50, 50, 2))
        px, py = w.positionToPixel(PixPos(x, y))
        m.close([px, py], [x + n.dx - ox, y + n.dy - oy], 'c19.null', 'pixel position', rtol=0, atol=1e-10)
        b = w.pixelToPosition(px, py)
        m.close([b.x, b.y], [x, y], 'c19.null', 'pixel -> position', rtol=0, atol=1e-10)
        m.close(w.cdAtPixel(px, py), np.eye(2) * n.pixscale / 3600., 'c19.null', 'matrix of a null WCS', rtol=1e-12, atol=0)
        m.close(w.cdInverseAtPixel(px, py), np.eye(2) / (n.pixscale / 3600.), 'c19.null', 'inverse matrix of a null WCS', rtol=1e-9, atol=0)
        m.close(w.pixscale_at(px, py), n.pixscale, 'c19.null', 'pixel scale of a null WCS', rtol=1e-9, atol=0)
    ps = loguni(rng, 0.1, 10.)
    n.setPixscale(ps)
    for w in (n, n.copy(), n.shifted(dx, dy)):
        m.close(w.cdAtPixel(3., 4.), np.eye(2) * ps / 3600., 'c19.null', 'matrix after setting the pixel scale', rtol=1e-12, atol=0)
        m.close(w.cdInverseAtPixel(3., 4.), np.eye(2) * 3600. / ps, 'c19.null', 'inverse matrix after setting the pixel scale', rtol=1e-9, atol=0)
        m.close(w.cdInverseAtPosition(PixPos(1., 2.)), np.eye(2) * 3600. / ps, 'c19.null', 'inverse matrix after setting the pixel scale', rtol=1e-9, atol=0)
        m.close(w.pixscale_at(1., 2.), ps, 'c19.null', 'pixel scale that was set', rtol=1e-9, atol=0)
    # photometry of rescaled images
    k = loguni(rng, 0.1, 10.)
    fl = float(rng.normal()) * 100
    pc = LinearPhotoCal(loguni(rng, 0.1, 10.))
    m.close(ScaledPhotoCal(pc, k).brightnessToCounts(Flux(fl)), k * pc.getScale() * fl, 'c19.photo', 'scaled counts', rtol=1e-12, atol=0)
    m.event('wrapper')
    m.state('wrap', round(f, 3), x0, y0)


def sc_distance(m, rng):
    for _ in range(3):
        r1, d1 = float(rng.uniform(0, 360)), float(np.degrees(np.arcsin(rng.uniform(-1, 1))))
        sep = loguni(rng, 1e-4, 30.)
        if chance(rng, 0.5):
            r2, d2 = r1 + sep * float(rng.normal()), float(np.clip(d1 + sep * rng.normal(), -90, 90))
        else:
            r2, d2 = float(rng.uniform(0, 360)), float(rng.uniform(-90, 90))
        a, b = RaDecPos(r1, d1), RaDecPos(r2, d2)
        # haversine
        h = (np.sin(np.radians(d2 - d1) / 2)**2 + np.cos(np.radians(d1)) * np.cos(np.radians(d2)) * np.sin(np.radians(r2 - r1) / 2)**2)
        want = np.degrees(2 * np.arcsin(np.sqrt(h)))
        m.close(a.distanceFrom(b), want, 'c19.distance', 'angle between positions', rtol=1e-5, atol=3e-6)
        m.close(b.distanceFrom(a), a.distanceFrom(b), 'c19.distance', 'symmetric', rtol=1e-9, atol=1e-9)
        m.event('distance')
        if abs(d1) < 85:
            # the step sizes are a given angle on the sky
            s = a.getStepSizes()
            m.close(s[0] * np.cos(np.radians(d1)), s[1], 'c19.steps', 'position steps are equal angles in RA and Dec', rtol=1e-9, atol=0)
        # arithmetic
        c = (a + b) * 0.5
        m.close(c.getParams(), [(r1 + r2) / 2, (d1 + d2) / 2], 'c19.arith', 'arithmetic on positions', rtol=1e-12, atol=1e-12)
        m.close((a - b).getParams(), [r1 - r2, d1 - d2], 'c19.arith', 'arithmetic on positions', rtol=1e-12, atol=1e-12)
        m.close(a.getParams(), [r1, d1], 'c19.arith', 'operands are left alone', rtol=0, atol=0)
    m.state('dist', round(r1, 1), round(d1, 1))


def sc_arith(m, rng):
    """Component-wise arithmetic on positions, motions, parallaxes and times, with numbers and with each other."""
    from tractor.motion import PMRaDec, Parallax
    from tractor.tractortime import TAITime

    def new(kind):
        v = [float(x) for x in rng.uniform(0.5, 80., 2)]
        if kind == 'pos':
            return RaDecPos(*v)
        if kind == 'pm':
            return PMRaDec(*v)
        return (Parallax if kind == 'par' else TAITime)(v[0])
    kind = pick(rng, ['pos', 'pos', 'pm', 'par', 'tai'])
    a = new(kind)
    if chance(rng, 0.3) and kind in ('pos', 'pm'):
        a.freezeParam(int(rng.integers(2)))
    frozen = [list(a.getThawedParamIndices())] if kind in ('pos', 'pm') else []
    k = float(rng.uniform(-5, 5)) or 1.
    ops = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y}

    def inplace(o, x, y):
        if o == '+':
            x += y
        elif o == '-':
            x -= y
        elif o == '*':
            x *= y
        else:
            x /= y
        return x
    for _ in range(4):
        o = pick(rng, list(ops))
        f = ops[o]
        other = new('pm' if (kind == 'pos' and chance(rng, 0.5)) else kind) if chance(rng, 0.5) else k
        va = list(a.getAllParams())
        vo = list(other.getAllParams()) if other is not k else [k] * len(va)
        how = pick(rng, ['left', 'right', 'inplace'])
        if how == 'right' and other is not k:
            how = 'left'
        if how == 'left':
            r, want = f(a, other), [f(x, y) for x, y in zip(va, vo)]
        elif how == 'right':
            r, want = f(other, a), [f(y, x) for x, y in zip(va, vo)]
        else:
            b = a.copy()
            r, want = inplace(o, b, other), [f(x, y) for x, y in zip(va, vo)]
            m.check(r is b, 'c19.arith', 'in-place arithmetic changes the object itself', op=o)
        m.check(type(r) is type(a), 'c19.arith', 'the result is of the type of the operand', op=o, how=how, got=type(r).__name__)
        m.close(r.getAllParams(), want, 'c19.arith', 'component-wise arithmetic', rtol=1e-12, atol=1e-12, op=o, how=how, other=str(other))
        m.equal(list(a.getAllParams()), va, 'c19.arith', 'operands are left alone')
        if other is not k:
            m.equal(list(other.getAllParams()), vo, 'c19.arith', 'operands are left alone')
        if kind in ('pos', 'pm'):
            m.equal(list(a.getThawedParamIndices()), frozen[0], 'c19.arith', 'freeze state of the operand is left alone')
        m.event('arithmetic')
        m.state('arith', kind, o, how, other is k)


def sc_fitslike(m, rng):
    """A WCS in the clothes of a FITS one: 1-indexed pixels, scalars or arrays."""
    from tractor.basics import TractorWCSWrapper
    p = rand_tan(m, rng)
    base = make(m, rng, p, pick(rng, ['const', 'tan']))
    x0, y0 = (int(rng.integers(-50, 50)), int(rng.integers(-50, 50))) if chance(rng, 0.7) else (0, 0)
    w = TractorWCSWrapper(base, p['W'], p['H'], x0=x0, y0=y0)
    m.equal((w.imagew, w.imageh), (p['W'], p['H']), 'c19.fitslike', 'image size')
    n = int(rng.integers(1, 5))
    xs, ys, ras, decs = [], [], [], []
    for _ in range(n):
        x, y = float(rng.uniform(0, p['W'])), float(rng.uniform(0, p['H']))
        pos = base.pixelToPosition(x, y)
        ra, dec = w.pixelxy2radec(x - x0 + 1., y - y0 + 1.)
        m.close([dra(ra, pos.ra), dec], [0., pos.dec], 'c19.fitslike', 'position of a (1-indexed) pixel', rtol=0, atol=1e-9)
        ok, fx, fy = w.radec2pixelxy(ra, dec)
        m.check(bool(ok), 'c19.fitslike', 'the position projects')
        m.close([fx, fy], [x - x0 + 1., y - y0 + 1.], 'c19.fitslike', '(1-indexed) pixel of a position', rtol=0, atol=1e-4)
        xs.append(x - x0 + 1.)
        ys.append(y - y0 + 1.)
        ras.append(ra)
        decs.append(dec)
    ok, fx, fy = w.radec2pixelxy(np.array(ras), np.array(decs))
    m.check(np.shape(fx) == (n,) and np.all(ok), 'c19.fitslike', 'one pixel per position', n=n)
    m.close(np.array([fx, fy]), np.array([xs, ys]), 'c19.fitslike', '(1-indexed) pixels of positions', rtol=0, atol=1e-4)
    ok, fx, fy = w.radec2pixelxy(np.array(ras), decs[0])
    wx = np.array([base.positionToPixel(RaDecPos(r, decs[0])) for r in ras])
    m.close(np.array([fx, fy]).T, wx - [x0, y0] + 1., 'c19.fitslike', 'pixels of an array and a number', rtol=0, atol=1e-4)
    m.event('fits-like')
    m.state('fitslike', x0, y0, n)


SCENARIOS = {
    'arith': (sc_arith, 100, 1500),
    'fitslike': (sc_fitslike, 60, 900),
    'project': (sc_project, 800, 6400),
    'edit': (sc_edit, 320, 2560),
    'wrappers': (sc_wrappers, 560, 4480),
    'distance': (sc_distance, 480, 3840),
}
QUICK = 5
