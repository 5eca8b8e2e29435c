"""C26: integral images give exact rectangle sums, for full and for mirror-symmetric images."""
import numpy as np

from zoo import pick, chance
from tractor.integral_image import integral_image, intimg_rect
from tractor.symmetric_integral_image import symm_intimg_rect, symm_intimg_ref

RULE = 'random images (any size, integer and floating types) and random non-empty rectangles, scalars and arrays; mirror-symmetric odd square images through every pair of quadrants; distinct by (size, quadrants touched, form)'
NEED = {'rectangle': 2000, 'touches the edge': 300, 'array call': 100, 'symmetric rectangle': 2000, 'element': 1000, 'straddles both midlines': 200, 'input untouched': 200}
QUICK = 8


def rects(rng, W, H, n):
    out = []
    for i in range(n):
        a, b = sorted(rng.choice(np.arange(-1, W), 2, replace=False)) if W > 1 else (-1, 0)
        c, d = sorted(rng.choice(np.arange(-1, H), 2, replace=False)) if H > 1 else (-1, 0)
        out.append((int(a), int(b), int(c), int(d)))
    return out


def truth(I, r):
    x0, x1, y0, y1 = r
    return I[y0 + 1:y1 + 1, x0 + 1:x1 + 1].sum()


def image(rng, H, W):
    k = pick(rng, ['int', 'float', 'neg', 'f32'])
    if k == 'int':
        return rng.integers(-50, 50, (H, W)), 0.
    if k == 'f32':
        return rng.uniform(0, 1, (H, W)).astype(np.float32), 1e-5 * H * W
    return rng.normal(0. if k == 'neg' else 5., 1., (H, W)), 1e-12 * H * W * 6


def sc_full(m, rng):
    W, H = int(rng.integers(1, 30)), int(rng.integers(1, 30))
    I, tol = image(rng, H, W)
    keep = I.copy()
    ii = integral_image(I)
    m.check(ii.shape == I.shape, 'c26.shape', 'shape of the integral image')
    kk = ii.copy()
    R = rects(rng, W, H, 12)
    for r in R:
        v = intimg_rect(ii, *r)
        m.check(np.ndim(v) == 0, 'c26.scalar', 'scalar corners give a scalar')
        m.close(v, truth(I, r), 'c26.rect', 'sum over %s of a %dx%d image' % (r, W, H), rtol=0, atol=tol + 1e-300)
        m.event('rectangle')
        if r[0] == -1 or r[2] == -1 or r[1] == W - 1 or r[3] == H - 1:
            m.event('touches the edge')
    a = np.array(R)
    m.close(intimg_rect(ii, a[:, 0], a[:, 1], a[:, 2], a[:, 3]), np.array([truth(I, r) for r in R]), 'c26.arrays', 'sums over many rectangles at once', rtol=0, atol=tol + 1e-300)
    m.event('array call')
    m.check(np.array_equal(I, keep), 'c26.input', 'the image' + ' changed')
    m.check(np.array_equal(ii, kk), 'c26.integral', 'the integral image after use' + ' changed')
    m.event('input untouched')
    m.state('full', W, H, str(I.dtype))


def quad(r, mid):
    return (r[0] < mid, r[1] > mid, r[2] < mid, r[3] > mid)


def sc_symmetric(m, rng):
    mid = int(rng.integers(1, 12))
    N = 2 * mid + 1
    Q, tol = image(rng, mid + 1, mid + 1)
    I = np.zeros((N, N), Q.dtype)
    for y in range(N):
        for x in range(N):
            I[y, x] = Q[min(y, N - 1 - y), min(x, N - 1 - x)]
    tol *= 8
    big = integral_image(I)
    if chance(rng, 0.5):
        small = integral_image(Q)
    else:
        k = int(rng.integers(mid + 1, N + 1))     # "at least midline+1"
        small = integral_image(I[:k, :k])
    keep = small.copy()
    R = rects(rng, N, N, 12)
    for r in R:
        m.close(float(symm_intimg_rect(small, *r, midline=mid)), float(truth(I, r)), 'c26.symrect', 'sum over %s, midline %d' % (r, mid), rtol=0, atol=tol + 1e-300)
        m.event('symmetric rectangle')
        if all(quad(r, mid)):
            m.event('straddles both midlines')
        m.state('sym', mid, quad(r, mid))
    a = np.array(R)
    m.close(symm_intimg_rect(small, a[:, 0], a[:, 1], a[:, 2], a[:, 3], mid), np.array([float(truth(I, r)) for r in R]), 'c26.symarrays', 'sums over many rectangles at once', rtol=0, atol=tol + 1e-300)
    m.event('array call')
    for i in range(8):
        x, y = int(rng.integers(0, N)), int(rng.integers(0, N))
        m.close(float(symm_intimg_ref(small, x, y, mid)), float(big[y, x]), 'c26.ref', 'element (%d, %d), midline %d' % (x, y, mid), rtol=0, atol=tol + 1e-300)
        m.event('element')
    m.check(np.array_equal(small, keep), 'c26.syminput', 'the integral image after use' + ' changed')
    m.event('input untouched')


SCENARIOS = {'full': (sc_full, 80, 4000), 'symmetric': (sc_symmetric, 120, 6000)}
