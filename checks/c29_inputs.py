"""C29: regions of interest and SourceExtractor model-fit catalogues are translated faithfully."""
import numpy as np

import zoo
from zoo import pick, chance, loguni
from tractor import ConstantFitsWcs, RaDecPos, PointSource, NanoMaggies
from tractor.galaxy import ExpGalaxy, DevGalaxy, FixedCompositeGalaxy
from tractor.imageutils import interpret_roi
from tractor.source_extractor import get_se_modelfit_cat
from astrometry.util.util import Tan

RULE = 'random images and WCSes with regions inside, astride and outside the frame, given in pixels, around a position or as an RA,Dec box; random catalogues mixing stars, discs, spheroids, composites and faint entries; distinct by (form, how the region meets the frame) and by source types'
NEED = {'full image': 50, 'pixel region': 100, 'around a position': 200, 'clipped': 60, 'outside': 60, 'box': 200, 'star': 300, 'disc': 200, 'spheroid': 200, 'composite': 200, 'faint': 200}
QUICK = 3


def sc_roi(m, rng):
    W, H = int(rng.integers(10, 200)), int(rng.integers(10, 200))
    ps = loguni(rng, 0.1, 2.) / 3600.
    th = rng.uniform(0, 2 * np.pi)
    s = pick(rng, [1, -1])
    tan = Tan(float(rng.uniform(1, 359)), float(rng.uniform(-70, 70)), W / 2., H / 2., -np.cos(th) * ps * s, np.sin(th) * ps, np.sin(th) * ps * s, np.cos(th) * ps, float(W), float(H))
    wcs = ConstantFitsWcs(tan)

    def sky(x, y):
        return tan.pixelxy2radec(x + 1, y + 1)[-2:]
    r, sub = interpret_roi(wcs, (H, W))
    m.equal((tuple(r), bool(sub)), ((0, W, 0, H), False), 'c29.full', 'no region')
    m.event('full image')
    x0, x1 = sorted(int(v) for v in rng.choice(W + 1, 2, replace=False))
    y0, y1 = sorted(int(v) for v in rng.choice(H + 1, 2, replace=False))
    r, sub = interpret_roi(wcs, (H, W), roi=(x0, x1, y0, y1), other=3)
    m.equal(tuple(r), (x0, x1, y0, y1), 'c29.roi', 'pixel region')
    m.equal(bool(sub), (x0, x1, y0, y1) != (0, W, 0, H), 'c29.sub', 'whether it is a subimage')
    m.event('pixel region')
    for i in range(3):
        S = int(rng.integers(0, 60))
        fx, fy = [float(v) for v in (rng.uniform(-80, W + 80), rng.uniform(-80, H + 80))]
        # stay off the rounding boundary
        fx, fy = np.floor(fx) + rng.uniform(0.55, 1.45), np.floor(fy) + rng.uniform(0.55, 1.45)
        ra, dec = sky(fx, fy)
        got = interpret_roi(wcs, (H, W), roiradecsize=(ra, dec, S))
        ix, iy = int(np.round(fx)), int(np.round(fy))
        px = [x for x in range(W) if abs(x - ix) <= S]
        py = [y for y in range(H) if abs(y - iy) <= S]
        m.event('around a position')
        if not px or not py:
            m.check(got is None, 'c29.outside', 'a region outside the image gives %s' % (got,), roi=(fx, fy, S), shape=(H, W))
            m.event('outside')
            m.state('size', 'outside')
            continue
        w = (px[0], px[-1] + 1, py[0], py[-1] + 1)
        m.check(got is not None, 'c29.inside', 'a region in the image gives None', roi=(fx, fy, S), shape=(H, W))
        m.equal(tuple(int(v) for v in got[0]), w, 'c29.size', 'region within %d pixels of (%.2f, %.2f) in %dx%d' % (S, fx, fy, W, H))
        m.equal(bool(got[1]), w != (0, W, 0, H), 'c29.sub', 'whether it is a subimage')
        cl = len(px) < 2 * S + 1 or len(py) < 2 * S + 1
        if cl:
            m.event('clipped')
        m.state('size', cl, ix < 0, ix >= W, iy < 0, iy >= H)
        # RA, Dec box
        ra, dec = sky(fx, fy)
        dr, dd = float(rng.uniform(0, 60)) * ps / np.cos(np.deg2rad(dec)), float(rng.uniform(0, 60)) * ps
        box = [ra - dr, ra + dr, dec - dd, dec + dd]
        if chance(rng, 0.3):
            box = [box[1], box[0], box[3], box[2]]
        got = interpret_roi(wcs, (H, W), roiradecbox=box)
        C = []
        for a in box[:2]:
            for b in box[2:]:
                ok, x, y = tan.radec2pixelxy(a, b)
                C.append((x - 1, y - 1))
        C = np.array(C)
        if np.any(np.abs(C - np.floor(C) - 0.5) < 1e-4):
            continue
        C = np.round(C).astype(int)
        a0, a1, b0, b1 = C[:, 0].min(), C[:, 0].max(), C[:, 1].min(), C[:, 1].max()
        px = [x for x in range(W) if a0 <= x <= a1]
        py = [y for y in range(H) if b0 <= y <= b1]
        m.event('box')
        if not px or not py:
            m.check(got is None, 'c29.boxoutside', 'a box outside the image gives %s' % (got,))
            m.event('outside')
        else:
            w = (px[0], px[-1] + 1, py[0], py[-1] + 1)
            m.check(got is not None, 'c29.boxinside', 'a box in the image gives None')
            m.equal(tuple(int(v) for v in got[0]), w, 'c29.box', 'pixels covering an RA,Dec box')
            m.equal(bool(got[1]), w != (0, W, 0, H), 'c29.sub', 'whether it is a subimage')
        m.state('box', not px, not py)


class Row(object):
    pass


def flux(mag):
    return 10. ** ((22.5 - mag) / 2.5)


def sc_cat(m, rng):
    bands = [list('ugriz'), ['r'], ['z', 'g']][int(rng.integers(0, 3))]
    lim = pick(rng, [25, 22.5, 20.])
    T = []
    for i in range(int(rng.integers(0, 12))):
        t = Row()
        t.chi2_psf, t.chi2_model = [float(v) for v in rng.uniform(0.5, 3, 2)]
        if chance(rng, 0.1):
            t.chi2_psf = t.chi2_model
        for k in ('psf', 'disk', 'spheroid'):
            setattr(t, 'mag_' + k, float(pick(rng, [rng.uniform(15, lim), rng.uniform(lim, lim + 5), lim, 99.])))
        t.ra, t.dec, t.alphamodel_j2000, t.deltamodel_j2000 = [float(v) for v in rng.uniform(0, 80, 4)]
        t.spheroid_reff_world, t.disk_scale_world = [loguni(rng, 1e-5, 1e-3) for v in range(2)]
        t.spheroid_aspect_world, t.disk_aspect_world = [float(v) for v in rng.uniform(0.1, 1., 2)]
        t.spheroid_theta_world, t.disk_theta_world = [float(v) for v in rng.uniform(-90, 90, 2)]
        T.append(t)
    kw = {} if (lim == 25 and len(bands) == 5) else dict(maglim=lim, bands=bands)
    cat, I = get_se_modelfit_cat(T, **kw)
    m.equal(len(I), len(cat), 'c29.len', 'one index per source')
    want = []
    for i, t in enumerate(T):
        if t.chi2_psf < t.chi2_model and t.mag_psf <= lim:
            want.append((i, PointSource))
            m.event('star')
        elif t.mag_disk <= lim and t.mag_spheroid <= lim:
            want.append((i, FixedCompositeGalaxy))
            m.event('composite')
        elif t.mag_disk <= lim:
            want.append((i, ExpGalaxy))
            m.event('disc')
        elif t.mag_spheroid <= lim:
            want.append((i, DevGalaxy))
            m.event('spheroid')
        else:
            m.event('faint')
    m.equal([(int(i), type(s)) for i, s in zip(I, cat)], want, 'c29.types', 'rows used and source types')

    def shape(sh, re, ab, th, what):
        e = [sh.re, sh.ab]
        m.close(e, [re * 3600., ab], 'c29.shape', 'radius and axis ratio of the %s' % what, rtol=1e-12, atol=0)
        d = (sh.phi - (th + 90.)) % 180.
        m.check(min(d, 180 - d) < 1e-9, 'c29.phi', 'position angle of the %s' % what)
    for (i, k), s in zip(want, cat):
        t = T[i]
        fd, fe = flux(t.mag_spheroid), flux(t.mag_disk)
        p = (t.ra, t.dec) if k is PointSource else (t.alphamodel_j2000, t.deltamodel_j2000)
        m.equal((s.pos.ra, s.pos.dec), p, 'c29.pos', 'position')
        f = {PointSource: flux(t.mag_psf), ExpGalaxy: fe, DevGalaxy: fd, FixedCompositeGalaxy: fe + fd}[k]
        for b in bands:
            m.close(s.brightness.getFlux(b), f, 'c29.flux', 'flux in %s' % b, rtol=1e-9, atol=0)
        if k is ExpGalaxy:
            shape(s.shape, 1.68 * t.disk_scale_world, t.disk_aspect_world, t.disk_theta_world, 'disc')
        elif k is DevGalaxy:
            shape(s.shape, t.spheroid_reff_world, t.spheroid_aspect_world, t.spheroid_theta_world, 'spheroid')
        elif k is FixedCompositeGalaxy:
            m.close(s.fracDev.getValue(), fd / (fd + fe), 'c29.frac', 'spheroid fraction', rtol=1e-9, atol=0)
            shape(s.shapeExp, 1.68 * t.disk_scale_world, t.disk_aspect_world, t.disk_theta_world, 'disc')
            shape(s.shapeDev, t.spheroid_reff_world, t.spheroid_aspect_world, t.spheroid_theta_world, 'spheroid')
        m.state('cat', k.__name__, len(bands), lim)
    # sources are independent of one another
    if len(cat):
        j = int(rng.integers(len(cat)))
        before = [list(s.getParams()) for s in cat]
        cat[j].setParams([v + 0.01 for v in cat[j].getParams()])
        m.equal([list(s.getParams()) for k, s in enumerate(cat) if k != j], [b for k, b in enumerate(before) if k != j], 'c29.shared', 'other sources after changing one')


SCENARIOS = {'roi': (sc_roi, 200, 5000), 'catalogue': (sc_cat, 200, 6000)}
