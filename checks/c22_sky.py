"""C22: sky models: evaluation, shifts, offsets and scaling, tables, estimation from an image, smoothness priors."""
import os

import numpy as np
from scipy.interpolate import RectBivariateSpline

import zoo
from zoo import pick, chance, loguni
from monitor import Skip
from tractor import ConstantSky, NullSky, Image, Tractor, NullWCS, NullPhotoCal
from tractor.sky import NullSky as NS
from tractor.splinesky import SplineSky, median_estimator

RULE = 'random constant and spline skies (order 1-3, irregular grids) through histories of shifts, offsets, scalings, copies and tables; random images for estimation; distinct by (kind, order, history)'
QUICK = 3
NEED = {'evaluated': 1500, 'shifted': 400, 'offset': 200, 'scaled': 200, 'table': 200, 'file': 60, 'estimated': 100, 'masked estimate': 60, 'prior': 150, 'parameter': 200}


def grid(rng, n, lo=-10., hi=60.):
    k = pick(rng, ['int', 'lin', 'irregular'])
    if k == 'int':
        x0, st = int(rng.integers(-20, 1)), int(rng.integers(8, 20))
        return (x0 + st * np.arange(n)).astype(pick(rng, [float, int]))
    if k == 'lin':
        return np.linspace(rng.uniform(-10, 0), rng.uniform(40, 60), n)
    d = rng.uniform(1., 3., n)
    x = np.cumsum(d)
    return -5. + 60. * (x - x[0]) / (x[-1] - x[0])


class Ref(object):
    """Independent model: an affine function of a spline evaluated at shifted positions."""
    def __init__(self, X, Y, g, order):
        self.s = RectBivariateSpline(X, Y, g.T, kx=order, ky=order)
        self.dx = self.dy = 0.
        self.a, self.b = 1., 0.

    def at(self, x, y):
        return self.a * self.s(np.asarray(x, float) + self.dx, np.asarray(y, float) + self.dy).T + self.b


class RefC(object):
    def __init__(self, v):
        self.v = v
        self.dx = self.dy = 0.
        self.a, self.b = 1., 0.

    def at(self, x, y):
        return np.zeros((len(y), len(x))) + self.a * self.v + self.b


def sc_history(m, rng):
    kind = pick(rng, ['spline', 'spline', 'spline', 'const'])
    sc = loguni(rng, 1e-2, 1e3)
    tol = 1e-9
    if kind == 'const':
        v = float(rng.normal(0, sc))
        s, r = ConstantSky(v), RefC(v)
        order = 0
    else:
        order = int(pick(rng, [1, 2, 3, 3, 5]))
        X, Y = grid(rng, int(rng.integers(max(4, order + 1), 8))), grid(rng, int(rng.integers(max(4, order + 1), 8)))
        g = rng.normal(0, sc, (len(Y), len(X))) + pick(rng, [0., 10. * sc])
        X0, Y0, g0 = X.copy(), Y.copy(), g.copy()
        s, r = SplineSky(X, Y, g, order=order), Ref(X, Y, g, order)
        m.close(s.get_grid(), g, 'c22.grid', 'the spline passes through its control points', rtol=1e-8, atol=1e-9 * sc)
        m.equal(s.numberOfParams(), len(X) * len(Y), 'c22.nparams', 'a parameter per control point')
        if chance(rng, 0.5):
            # the caller's arrays are the caller's
            X[0] -= 3
            g[...] = 0.
    S = sc

    def check(s, what):
        W, H = int(rng.integers(1, 25)), int(rng.integers(1, 25))
        base = rng.normal(0, sc, (H, W))
        mod = base.copy()
        f = pick(rng, [1., 1., -1., 2.5])
        if f == 1.:
            s.addTo(mod)
        else:
            s.addTo(mod, scale=f)
        w = base + f * r.at(np.arange(W), np.arange(H))
        m.close(mod, w, 'c22.addTo', 'sky added to an image after %s' % what, rtol=0, atol=tol * 30 * (np.abs(w).max() + sc), f=f)
        m.event('evaluated')
        if kind == 'spline':
            x, y = np.sort(rng.uniform(0, 40, 3)), np.sort(rng.uniform(0, 40, 4))
            w = r.at(x, y)
            m.close(s.evaluateGrid(x, y), w, 'c22.eval', 'sky evaluated at positions', rtol=0, atol=tol * 30 * (np.abs(w).max() + sc))
        elif abs(s.getConstant()) > 0:
            m.close(s.getConstant(), r.at([0], [0])[0, 0], 'c22.const', 'constant level', rtol=1e-9, atol=1e-9 * sc)
    check(s, 'construction')
    hist = []
    for step in range(int(rng.integers(2, 8))):
        k = pick(rng, ['shift', 'shifted', 'offset', 'scale', 'copy', 'table', 'file', 'param', 'subimage'])
        hist.append(k)
        m.op(k)
        dx, dy = int(rng.integers(-3, 8)), int(rng.integers(-3, 8))
        if k in ('shift', 'shifted') and chance(rng, 0.3):
            dx, dy = dx + pick(rng, [0.25, 0.5]), dy + 0.375
        if k == 'shift':
            s.shift(dx, dy)
            r.dx += dx
            r.dy += dy
            m.event('shifted')
        elif k in ('shifted', 'subimage'):
            if k == 'shifted':
                q = s.shifted(dx, dy)
            else:
                dx, dy = abs(dx), abs(dy)
                q = Image(data=np.zeros((30, 30)), inverr=np.ones((30, 30)), psf=zoo.psf(rng, 'gm'), wcs=NullWCS(), photocal=NullPhotoCal(), sky=s).subimage(dx, dx + 10, dy, dy + 9).getSky()
            check(s, 'being shifted to a copy')
            r.dx += dx
            r.dy += dy
            m.event('shifted')
            if chance(rng, 0.3):
                s.shift(5, 5)      # the original is no longer used
                s.scale(3.)
            s = q
        elif k == 'offset':
            d = float(rng.normal(0, sc))
            if kind == 'const':
                s.subtract(-d)
            else:
                s.offset(d)
            r.b += d
            m.event('offset')
        elif k == 'scale':
            f = pick(rng, [2., -1., 0.3])
            s.scale(f)
            r.a *= f
            r.b *= f
            m.event('scaled')
        elif k == 'copy':
            q = s.copy()
            s.scale(1.7)
            s.shift(1, 2)
            s = q
        elif k == 'table':
            T = s.to_fits_table()
            m.equal(len(T), 1, 'c22.table', 'one row')
            m.equal(str(T.skyclass[0]).strip(), type(s).__module__ + '.' + type(s).__name__, 'c22.table', 'class name')
            s = type(s).from_fits_row(T[0])
            tol = 1e-9 if kind == 'const' else 3e-7
            m.event('table')
        elif k == 'file':
            fn = os.path.join(os.environ['VERIF_SCRATCH'], 'sky-%d.fits' % os.getpid())
            if kind == 'const':
                s.write_fits(fn)
                import fitsio
                hdr = fitsio.read_header(fn)
                s = ConstantSky.fromFitsHeader(hdr, prefix='SKY_')
                tol = 1e-9
            else:
                s.write_fits(fn)
                import fitsio
                hdr = fitsio.read_header(fn)
                m.equal(hdr['SKY'].strip(), 'tractor.splinesky.SplineSky', 'c22.file', 'class name in the header')
                if chance(rng, 0.5):        # one row of several
                    from astrometry.util.fits import merge_tables
                    rows = [s.to_fits_table() for i in range(3)]
                    i = int(rng.integers(3))
                    for j in range(3):
                        if j != i:
                            rows[j].gridvals = rows[j].gridvals + 1.
                    if all(t.xgrid.dtype == rows[0].xgrid.dtype for t in rows):
                        merge_tables(rows).writeto(fn)
                        s = SplineSky.from_fits(fn, hdr, row=i)
                        m.event('row')
                    else:
                        s = SplineSky.from_fits(fn, hdr)
                else:
                    s = SplineSky.from_fits(fn, hdr)
                tol = 3e-7
            os.remove(fn)
            m.event('file')
        elif k == 'param':
            if kind == 'const':
                v = float(rng.normal(0, sc))
                s.setParams([v])
                r.a, r.b = 0., v
            else:
                # the model is linear in the coefficients and they sum to one everywhere
                p = np.array(s.getParams())
                d = float(rng.normal(0, sc))
                s.setParams(p + d)
                r.b += d
                m.close(s.getParams(), p + d, 'c22.params', 'parameters', rtol=1e-12, atol=0)
            m.event('parameter')
        check(s, k)
        if tol > 1e-8:
            # single precision in tables: growing differences are of the stored values
            tol = max(tol, 3e-7)
    if kind == 'spline' and 'file' not in hist and 'table' not in hist and X0[0] != X[0]:
        pass
    m.state(kind, order, tuple(hist[:4]))


def sc_blanton(m, rng):
    gs = int(rng.integers(10, 41))
    H, W = int(rng.integers(int(1.5 * gs) + 4, 120)), int(rng.integers(int(1.5 * gs) + 4, 120))
    if H < gs or W < gs:
        raise Skip
    lvl = float(rng.normal(0, 10))
    kind = pick(rng, ['const', 'outliers', 'equivariant', 'gradient', 'estimator'])
    m.op(kind, gs, H, W)
    if kind == 'const':
        im = np.zeros((H, W)) + lvl
        s = SplineSky.BlantonMethod(im, None, gs)
        out = np.zeros((H, W))
        s.addTo(out)
        m.close(out, im, 'c22.blanton', 'sky of a constant image', rtol=0, atol=1e-9 * (1 + abs(lvl)))
    elif kind == 'outliers':
        im = np.zeros((H, W)) + lvl
        use = np.ones((H, W), bool)
        n = int(0.1 * H * W)
        I = rng.integers(0, H * W, n)
        im.flat[I] = pick(rng, [1e6, -1e5, np.nan])
        use.flat[I] = False
        # a masked stretch
        y = int(rng.integers(0, H - 3))
        im[y:y + 2] = 1e7
        use[y:y + 2] = False
        s = SplineSky.BlantonMethod(im, use, gs)
        out = np.zeros((H, W))
        s.addTo(out)
        m.close(out, np.zeros((H, W)) + lvl, 'c22.blanton', 'masked pixels do not matter', rtol=0, atol=1e-9 * (1 + abs(lvl)))
        m.event('masked estimate')
    elif kind == 'equivariant':
        im = rng.normal(lvl, 1., (H, W)) + 3 * np.sin(np.arange(W) / 15.)
        use = None if chance(rng, 0.5) else rng.random((H, W)) < 0.8
        a = np.zeros((H, W))
        SplineSky.BlantonMethod(im, use, gs).addTo(a)
        b = np.zeros((H, W))
        SplineSky.BlantonMethod(im * 2. + 5., use, gs).addTo(b)
        m.close(b, 2 * a + 5., 'c22.blanton', 'the estimate scales with the image', rtol=0, atol=1e-8 * (1 + np.abs(b).max()))
        c = np.zeros((W, H))
        SplineSky.BlantonMethod(im.T, None if use is None else use.T, gs).addTo(c)
        m.close(c.T, a, 'c22.blanton', 'the estimate of the transposed image is transposed', rtol=0, atol=1e-8 * (1 + np.abs(b).max()))
    elif kind == 'gradient':
        gx, gy = rng.normal(0, 0.1, 2)
        yy, xx = np.mgrid[:H, :W]
        im = lvl + gx * xx + gy * yy
        s = SplineSky.BlantonMethod(im, None, gs)
        out = np.zeros((H, W))
        s.addTo(out)
        i = slice(gs, H - gs), slice(gs, W - gs)
        m.check(np.all(np.abs(out - im)[i] <= (abs(gx) + abs(gy)) * (0.25 * gs + 2)), 'c22.blanton', 'a gradient is followed away from the borders',
                worst=np.abs(out - im)[i].max(initial=0), gs=gs, g=(gx, gy))
        m.check(np.all(np.abs(out - im) <= (abs(gx) + abs(gy)) * gs + 1e-9), 'c22.blanton', 'a gradient is followed roughly at the borders')
    else:
        calls = []

        def est(pix, mask, foo=None):
            calls.append((pix.shape, None if mask is None else mask.shape, foo))
            return np.mean(pix)
        im = np.zeros((H, W)) + lvl
        use = None if chance(rng, 0.5) else np.ones((H, W), bool)
        s = SplineSky.BlantonMethod(im, use, gs, estimator=est, foo=7)
        m.check(all(c[2] == 7 and (c[1] is None if use is None else c[1] == c[0]) and min(c[0]) > 0 for c in calls), 'c22.blanton', 'the estimator gets the pixels and mask of each cell')
        m.equal(len(calls), s.numberOfParams(), 'c22.blanton', 'one estimate per control point')
        m.close(s.get_grid(), np.zeros(s.get_grid().shape) + lvl, 'c22.blanton', 'estimates are the control points', rtol=1e-8, atol=1e-9)
    # the median estimator
    p = rng.normal(size=(4, 5))
    k = rng.random((4, 5)) < rng.random()
    m.equal(median_estimator(p, None), np.median(p), 'c22.median', '')
    m.equal(median_estimator(p, k), np.median(p[k]) if k.any() else 0., 'c22.median', 'masked')
    f = float(rng.random())
    m.equal(median_estimator(p, k, min_fraction=f), np.median(p[k]) if k.sum() > f * 20 else 0., 'c22.median', 'minimum fraction')
    p, k = rng.normal(size=(4, 4)), np.zeros(16, bool)
    k[rng.choice(16, int(rng.integers(1, 16)), replace=False)] = True
    k = k.reshape(4, 4)
    m.equal(median_estimator(p, k, min_fraction=k.sum() / 16.), 0., 'c22.median', 'a box with no more than the minimum fraction of pixels is not estimated')
    m.event('estimated')
    m.state('blanton', kind, gs // 5, H // 20, W // 20)


def sc_prior(m, rng):
    """The smoothness prior: value, its linearization, and what a fit does with it."""
    nx, ny = int(rng.integers(4, 7)), int(rng.integers(4, 7))
    s = SplineSky(np.linspace(0, 20, nx), np.linspace(0, 18, ny), rng.normal(size=(ny, nx)), order=pick(rng, [1, 3]))
    m.equal((s.getLogPrior(), s.getLogPriorDerivatives()), (0., None), 'c22.prior', 'no prior')
    sig = loguni(rng, 0.1, 10.)
    s.setPriorSmoothness(sig)
    if chance(rng, 0.4):
        for i in rng.choice(nx * ny, int(rng.integers(1, nx * ny)), replace=False):
            s.freezeParam(int(i))
    # spline coefficients: x index varies slowest
    c = np.array(s.getAllParams()).reshape(nx, ny)
    want = -0.5 / sig ** 2 * (np.sum(np.diff(c, axis=0) ** 2) + np.sum(np.diff(c, axis=1) ** 2))
    m.close(s.getLogPrior(), want, 'c22.prior', 'smoothness prior', rtol=1e-9, atol=1e-12)
    d = s.getLogPriorDerivatives()
    n = s.numberOfParams()
    p0 = np.array(s.getParams())
    if d is not None:
        rA, cA, vA, pb, mub = d
        R = max(int(r) for rr in rA for r in np.atleast_1d(rr)) + 1
        A = np.zeros((R, n))
        for r, cc, v in zip(rA, cA, vA):
            for ri, vi in zip(np.atleast_1d(r), np.atleast_1d(v)):
                A[int(ri), cc] += vi
        b = np.concatenate([np.atleast_1d(x) for x in pb])
        m.equal(len(b), R, 'c22.prior', 'one right-hand side per row')
        L0 = s.getLogPrior()
        for t in range(3):
            dp = rng.normal(size=n)
            s.setParams(p0 + dp)
            L1 = s.getLogPrior()
            s.setParams(p0)
            # log-prior differences are those of the least-squares rows
            lin = -0.5 * np.sum((A @ dp - b) ** 2) + 0.5 * np.sum(b ** 2)
            m.close(lin, L1 - L0, 'c22.priorlin', 'the rows describe the prior', rtol=1e-7, atol=1e-9 * (1 + abs(L0) + abs(L1)))
    else:
        m.check(n == 0, 'c22.prior', 'rows where there are parameters')
    m.event('prior')
    m.state('prior', nx, ny, n)


SCENARIOS = {
    'history': (sc_history, 500, 9000),
    'blanton': (sc_blanton, 300, 4000),
    'prior': (sc_prior, 250, 3000),
}
