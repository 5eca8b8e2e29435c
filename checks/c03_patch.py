"""C03: Patch algebra against an unbounded dense canvas."""
import numpy as np
from zoo import pick, chance
from tractor.patch import Patch, ModelMask, add_patches

RULE = ('random sequences of patch operations next to dense arrays on a large canvas; a state is distinct by '
        '(operation, relative geometry class of the operands, emptiness)')
NEED = {'op': 3000, 'arith disjoint': 50, 'arith partial': 50, 'clip cut': 100, 'clip outside': 50}

N = 120        # canvas [-40, 80)
O = 40


def rnd(rng, dtype=None):
    h, w = (int(v) for v in rng.integers(1, 9, 2))
    x0, y0 = (int(v) for v in rng.integers(-12, 24, 2))
    dtype = dtype or pick(rng, [np.float64, np.float64, np.float32])
    a = rng.normal(size=(h, w)).astype(dtype)
    if chance(rng, 0.5):
        a[rng.random((h, w)) < rng.uniform(0.1, 1.)] = 0.
    if chance(rng, 0.1):
        a[:] = 0
    if chance(rng, 0.1):
        a *= a.dtype.type(1e-30)
    return Patch(x0, y0, a)


def dense(p):
    c = np.zeros((N, N))
    if p is not None and p.patch is not None:
        h, w = p.patch.shape
        c[p.y0 + O:p.y0 + O + h, p.x0 + O:p.x0 + O + w] = p.patch
    return c


def frame(p, c, rng):
    """Observe a patch on an image-sized frame at a random place through addTo."""
    return c


def geo(a, b):
    if a.patch is None or b.patch is None:
        return 'none'
    ax0, ax1, ay0, ay1 = a.extent
    bx0, bx1, by0, by1 = b.extent
    if (ax0, ax1, ay0, ay1) == (bx0, bx1, by0, by1):
        return 'same'
    if ax0 >= bx1 or bx0 >= ax1 or ay0 >= by1 or by0 >= ay1:
        return 'disjoint'
    if ax0 <= bx0 and ax1 >= bx1 and ay0 <= by0 and ay1 >= by1:
        return 'contains'
    return 'partial'


def box(x0, x1, y0, y1):
    k = np.zeros((N, N), bool)
    k[max(0, y0 + O):max(0, y1 + O), max(0, x0 + O):max(0, x1 + O)] = True
    return k


def double(*pp):
    return all(p.patch is not None and p.patch.dtype == np.float64 for p in pp)


def consistent(m, p, c, what, tol=None):
    m.close(dense(p), c, 'c03.%s.value' % what, 'dense image after %s' % what, rtol=1e-6, atol=1e-6 if tol is None else tol * np.abs(c).max())
    if p.patch is None:
        m.equal(tuple(p.shape), (0, 0), 'c03.%s.shape' % what)
        return
    h, w = p.patch.shape
    m.equal(tuple(p.shape), (h, w), 'c03.%s.shape' % what)
    m.equal(tuple(p.extent), (p.x0, p.x0 + w, p.y0, p.y0 + h), 'c03.%s.extent' % what)
    m.equal(tuple(p.getExtent()), tuple(p.extent), 'c03.%s.extent' % what)
    m.equal(tuple(p.getExtent(margin=2)), (p.x0 - 2, p.x0 + w + 2, p.y0 - 2, p.y0 + h + 2), 'c03.margin')
    m.equal((p.x1, p.y1), (p.x0 + w, p.y0 + h), 'c03.x1y1')
    m.equal((p.getX0(), p.getY0()), tuple(p.getOrigin()), 'c03.origin')


def ops(m, rng):
    pool = [rnd(rng) for i in range(3)]
    if chance(rng, 0.3):
        pool[0] = Patch(pool[0].x0, pool[0].y0, None)
    ref = [dense(p) for p in pool]
    for step in range(8):
        i, j = int(rng.integers(len(pool))), int(rng.integers(len(pool)))
        p, c = pool[i], ref[i]
        q, d = pool[j], ref[j]
        k = pick(rng, ['add', 'sub', 'mul', 'div', 'imul', 'idiv', 'copy', 'clip', 'roi', 'trim', 'addTo',
                       'slices', 'slice', 'pix', 'over', 'addp', 'nz', 'new', 'align'])
        m.op(k, str(p), str(q))
        m.event('op')
        m.state(k, geo(p, q), p.patch is None, q.patch is None,
                (p.x0 < 0, p.y0 < 0))
        if k in ('add', 'sub'):
            g = geo(p, q)
            m.event('arith ' + g)
            r = p + q if k == 'add' else p - q
            rc = c + d if k == 'add' else c - d
            consistent(m, r, rc, k)
            if double(p, q):
                # double precision in, double precision out
                s = max(np.abs(c).max(), np.abs(d).max())
                m.close(dense(r), rc, 'c03.%s.double' % k, 'double precision %s' % k, rtol=0, atol=1e-14 * s)
            consistent(m, p, c, k + '.left')
            consistent(m, q, d, k + '.right')
            if g not in ('none',):
                ux = (min(p.x0, q.x0), max(p.x1, q.x1), min(p.y0, q.y0), max(p.y1, q.y1))
                m.equal(tuple(r.extent), ux, 'c03.union', 'extent of a sum')
            if np.max(np.abs(r.extent)) < 36:
                # results do not alias their operands
                if r.patch is not None and r.patch.size:
                    r.patch += 1.
                    consistent(m, p, c, k + '.alias')
                    consistent(m, q, d, k + '.alias')
                    r.patch -= 1.
                pool[i], ref[i] = r, dense(r)
        elif k in ('mul', 'div'):
            f = float(rng.uniform(-3, 3)) or 1.
            r = p * f if k == 'mul' else p / f
            consistent(m, r, c * f if k == 'mul' else c / f, k)
            if double(p):
                m.close(dense(r), c * f if k == 'mul' else c / f, 'c03.%s.double' % k, 'double precision %s' % k, rtol=1e-13, atol=0)
            consistent(m, p, c, k + '.operand')
        elif k in ('imul', 'idiv'):
            f = pick(rng, [-2., 0.5, 3.])
            if p.patch is not None:
                p.patch = p.patch.copy()
            if k == 'imul':
                p *= f
                c = c * f
            else:
                p /= f
                c = c / f
            consistent(m, p, c, k)
            pool[i], ref[i] = p, dense(p)
        elif k == 'copy':
            r = p.copy()
            consistent(m, r, c, k)
            if r.patch is not None:
                r.patch += 1.
            r.x0 += 1
            consistent(m, p, c, 'copy.alias')
        elif k == 'clip':
            W, H = (int(v) for v in rng.integers(1, 24, 2))
            r = p.copy()
            ok = r.clipTo(W, H)
            inside = p.patch is not None and p.x0 < W and p.x1 > 0 and p.y0 < H and p.y1 > 0
            m.equal(bool(ok), inside, 'c03.clip.ok', 'clipTo(%i,%i) of %s reports overlap' % (W, H, p.extent))
            consistent(m, r, np.where(box(0, W, 0, H), c, 0.), k)
            m.event('clip cut' if inside and r.shape != p.shape else ('clip whole' if inside else 'clip outside'))
            if inside:
                m.equal(tuple(r.extent), (max(p.x0, 0), min(p.x1, W), max(p.y0, 0), min(p.y1, H)),
                        'c03.clip.extent')
            else:
                m.check(r.patch is None, 'c03.clip.empty', 'patch outside the image not emptied')
        elif k == 'roi':
            x0, y0 = (int(v) for v in rng.integers(-10, 15, 2))
            x1, y1 = x0 + int(rng.integers(1, 15)), y0 + int(rng.integers(1, 15))
            r = p.copy()
            ok = r.clipToRoi(x0, x1, y0, y1)
            inside = p.patch is not None and p.x0 < x1 and p.x1 > x0 and p.y0 < y1 and p.y1 > y0
            m.equal(bool(ok), inside, 'c03.roi.ok', 'clipToRoi reports overlap')
            consistent(m, r, np.where(box(x0, x1, y0, y1), c, 0.), k)
            if inside:
                m.equal(tuple(r.extent), (max(p.x0, x0), min(p.x1, x1), max(p.y0, y0), min(p.y1, y1)),
                        'c03.roi.extent')
        elif k == 'trim':
            r = p.copy()
            r.trimToNonZero()
            m.close(dense(r), c, 'c03.trim.value', 'trimToNonZero changed the image', rtol=0, atol=0)
            if np.any(c != 0):
                yy, xx = np.nonzero(c)
                m.equal(tuple(r.extent), (xx.min() - O, xx.max() + 1 - O, yy.min() - O, yy.max() + 1 - O),
                        'c03.trim.extent', 'tight bounding box')
                m.event('trim')
        elif k == 'addTo':
            W, H = (int(v) for v in rng.integers(1, 28, 2))
            im = rng.normal(size=(H, W)).astype(pick(rng, [np.float32, np.float64]))
            want = im.astype(float).copy()
            s = float(pick(rng, [1., -1., 2.5, 0., 0.3]))
            want += s * c[O:O + H, O:O + W]
            if s == 1. and chance(rng, 0.5):
                p.addTo(im)
            else:
                p.addTo(im, scale=s)
            m.close(im, want, 'c03.addTo', 'addTo(%s) onto %ix%i' % (p.extent, W, H), rtol=1e-5, atol=1e-5)
            if double(p) and im.dtype == np.float64:
                m.close(im, want, 'c03.addTo', 'addTo in double precision', rtol=1e-13, atol=1e-13)
            consistent(m, p, c, 'addTo.operand')
            m.event('addTo')
        elif k == 'slices':
            W, H = (int(v) for v in rng.integers(1, 28, 2))
            if p.patch is not None:
                sp, si = p.getSlices((H, W))
                im = c[O:O + H, O:O + W].copy()
                a, b = p.patch[sp], im[si]
                m.close(a, b, 'c03.slices', 'getSlices pairs the same pixels', rtol=1e-6, atol=1e-7)
                ow = max(0, min(p.x1, W) - max(p.x0, 0))
                oh = max(0, min(p.y1, H) - max(p.y0, 0))
                m.equal(a.size, ow * oh, 'c03.slices.size', 'overlap size')
        elif k == 'slice':
            if p.patch is not None:
                W, H = 30, 30
                im = c[O:O + H, O:O + W]
                sl = p.getSlice(im)
                got = im[sl]
                lo = (np.clip(p.y0, 0, H), np.clip(p.x0, 0, W))
                hi = (np.clip(p.y1, 0, H), np.clip(p.x1, 0, W))
                m.close(got, im[lo[0]:hi[0], lo[1]:hi[1]], 'c03.slice', 'getSlice(parent)', rtol=0, atol=0)
                if p.x0 >= 0 and p.y0 >= 0:
                    big = c[O:, O:]
                    m.close(big[p.getSlice()], p.patch, 'c03.slice', 'getSlice()', rtol=1e-6, atol=1e-7)
        elif k == 'pix':
            r = p.copy()
            W, H = (int(v) for v in rng.integers(4, 30, 2))
            r.clipTo(W, H)
            im = c[O:O + H, O:O + W].copy()
            ii = r.getPixelIndices(im)
            if r.patch is None:
                m.equal(len(ii), 0, 'c03.pix.none')
            else:
                m.close(im.ravel()[ii], r.patch.ravel(), 'c03.pix', 'pixel indices address the patch pixels',
                        rtol=1e-6, atol=1e-7)
                m.equal(len(set(ii.tolist())), r.patch.size, 'c03.pix.unique')
                m.event('pix')
        elif k == 'over':
            if p.patch is not None and q.patch is not None:
                bb = geo(p, q) != 'disjoint'
                m.equal(bool(p.hasBboxOverlapWith(q)), bb, 'c03.bbox', 'bbox overlap %s %s' % (p.extent, q.extent))
                m.equal(bool(p.hasNonzeroOverlapWith(q)), bool(np.any((c != 0) & (d != 0))), 'c03.nzoverlap',
                        'non-zero overlap %s %s' % (p.extent, q.extent))
                e = [int(v) for v in rng.integers(-5, 20, 2)]
                bbx = (e[0], e[0] + 6, e[1], e[1] + 5)
                m.equal(bool(p.overlapsBbox(bbx)),
                        p.x0 < bbx[1] and p.x1 > bbx[0] and p.y0 < bbx[3] and p.y1 > bbx[2], 'c03.obbox')
                m.event('overlap')
        elif k == 'addp':
            a = p.copy() if chance(rng, 0.8) else None
            b = q.copy() if chance(rng, 0.8) else None
            r = add_patches(a, b)
            want = (c if a is not None else 0) + (d if b is not None else np.zeros((N, N)))
            if a is None and b is None:
                m.check(r is None, 'c03.addp.none')
            else:
                m.close(dense(r), want, 'c03.addp', 'add_patches', rtol=1e-6, atol=1e-6)
        elif k == 'nz':
            if p.patch is not None:
                z = p.getNonZeroMask()
                m.close(dense(z), (c != 0).astype(float), 'c03.nonzeromask', rtol=0, atol=0)
        elif k == 'new':
            pool[i] = rnd(rng)
            ref[i] = dense(pool[i])
        elif k == 'align' and q.patch is not None:
            pool[i] = Patch(q.x0, q.y0, rng.normal(size=q.shape).astype(q.patch.dtype))
            ref[i] = dense(pool[i])
    m.sample(pool=pool)


def masks(m, rng):
    x0, y0 = (int(v) for v in rng.integers(-10, 30, 2))
    w, h = (int(v) for v in rng.integers(0, 20, 2))
    mk = ModelMask(x0, y0, w, h)
    a = ModelMask(x0, y0, rng.random((h, w)) < 0.5)
    e = ModelMask.fromExtent(x0, x0 + w, y0, y0 + h)
    for k in (mk, a, e):
        m.equal(tuple(k.shape), (h, w), 'c03.mask.shape')
        m.equal(tuple(k.extent), (x0, x0 + w, y0, y0 + h), 'c03.mask.extent')
        m.equal((k.x0, k.x1, k.y0, k.y1, k.w, k.h), (x0, x0 + w, y0, y0 + h, w, h), 'c03.mask.box')
    m.check(mk.mask is None and e.mask is None and a.mask is not None, 'c03.mask.mask')
    m.state(w == 0, h == 0, x0 < 0, y0 < 0)
    m.event('mask')


SCENARIOS = {'ops': (ops, 3000, 60000), 'masks': (masks, 100, 1000)}
QUICK = 4
