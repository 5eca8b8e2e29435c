"""C06: every Gaussian-mixture evaluator returns the analytic mixture."""
import numpy as np
import ref
import zoo
from zoo import pick, chance, loguni
from tractor.mixture_profiles import MixtureOfGaussians, mixture_to_patch
from tractor import mix as cmix
from tractor import mp_fourier
from tractor.psf import lanczos_shift_image

RULE = ('random mixtures (1-9 components, elongated, tiny and huge, signed amplitudes, off-centre) on random grids '
        '(also 1-pixel wide, negative origins, centre outside); distinct by (evaluator, K, grid class, centre class)')
NEED = {'exact grid': 150, 'needle': 150, 'thresholded': 150, 'masked': 100, 'derivative': 80, 'transform': 60, 'lanczos': 120,
        'algebra': 100}


def rand_mix(rng, signed=True, samemean=False, lo=0.7, hi=6., K=None, ratio=6.):
    K = K or int(rng.integers(1, 10))
    amp = rng.uniform(0.1, 1., K)
    if signed and chance(rng, 0.2) and K > 1:
        amp[int(rng.integers(K))] *= -0.3
    sc = pick(rng, [1., 1., 1e-3, 1e4])
    amp = amp / amp.sum() * sc
    mean = np.tile(rng.uniform(-4, 4, 2), (K, 1)) if samemean else rng.uniform(-4, 4, (K, 2))
    if chance(rng, 0.3):
        mean = mean * 0.
    var = []
    for k in range(K):
        a = loguni(rng, lo, hi)
        b = min(max(a * loguni(rng, 1. / ratio, ratio), lo), hi)
        th = rng.uniform(0, np.pi)
        R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        var.append(R @ np.diag([a * a, b * b]) @ R.T)
    m = MixtureOfGaussians(amp, mean, np.array(var))
    mix = [(amp[k], mean[k].copy(), var[k]) for k in range(K)]
    return m, mix


def rand_grid(rng, big=True):
    W, H = int(rng.integers(1, 40)), int(rng.integers(1, 40))
    if chance(rng, 0.1):
        W = 1
    if chance(rng, 0.1):
        H = 1
    x0, y0 = int(rng.integers(-40, 40)), int(rng.integers(-40, 40))
    cx = x0 + rng.uniform(-0.3, 1.3) * W
    cy = y0 + rng.uniform(-0.3, 1.3) * H
    if chance(rng, 0.2):
        cx, cy = float(np.round(cx)), float(np.round(cy))
    return x0, x0 + W, y0, y0 + H, float(cx), float(cy)


def scale_of(mix):
    return sum(abs(a) / (2 * np.pi * np.sqrt(np.linalg.det(V))) for a, u, V in mix)


def exact(m, rng):
    mog, mix = rand_mix(rng)
    x0, x1, y0, y1, cx, cy = rand_grid(rng)
    r = ref.gauss(mix, x0, x1, y0, y1, cx, cy)
    S = scale_of(mix)
    amp0, mean0, var0 = mog.amp.copy(), mog.mean.copy(), mog.var.copy()
    p = mog.evaluate_grid(x0, x1, y0, y1, cx, cy)
    m.equal(tuple(p.getExtent()), (x0, x1, y0, y1), 'extent', 'grid patch extent')
    m.close(p.patch, r, 'grid', 'evaluate_grid', rtol=1e-9, atol=1e-20 * S)
    m.event('exact grid')
    # points
    n = int(rng.integers(1, 30))
    pts = np.c_[rng.uniform(-15, 15, n), rng.uniform(-15, 15, n)]
    want = np.zeros(n)
    for a, u, V in mix:
        d = pts - u
        want += a / (2 * np.pi * np.sqrt(np.linalg.det(V))) * np.exp(-0.5 * np.sum(d * (d @ np.linalg.inv(V)), axis=1))
    for nm in ('evaluate', 'evaluate_1', 'evaluate_2', 'evaluate_3'):
        m.close(getattr(mog, nm)(pts), want, 'points', nm, rtol=1e-7, atol=1e-20 * S)
    m.close(mog.evaluate(pts[0]), want[:1], 'one point', 'single position', rtol=1e-7, atol=1e-20 * S)
    # shifted mixture to a patch, no threshold
    sh = MixtureOfGaussians(mog.amp, mog.mean + np.array([cx, cy]), mog.var)
    for mv in (0., None):
        q = mixture_to_patch(sh, x0, x1, y0, y1, minval=mv)
        m.close(q.patch, r, 'to patch', 'mixture_to_patch', rtol=1e-9, atol=1e-20 * S)
        m.equal((q.x0, q.y0), (x0, y0), 'to patch', 'patch origin')
    m.check(np.array_equal(amp0, mog.amp) and np.array_equal(mean0, mog.mean) and np.array_equal(var0, mog.var),
            'mixture changed', 'evaluation modified the mixture')
    m.state('exact', mog.K, x1 - x0 == 1, y1 - y0 == 1, x0 <= cx < x1, y0 <= cy < y1)


def thresholded(m, rng):
    """Concentric positive mixtures: dropping faint pixels costs less than the threshold."""
    mog, mix = rand_mix(rng, signed=False, samemean=True, lo=1.0, hi=6., ratio=3.)
    x0, x1, y0, y1, cx, cy = rand_grid(rng)
    r = ref.gauss(mix, x0, x1, y0, y1, cx, cy)
    peak = scale_of(mix)
    mv = peak * loguni(rng, 1e-7, 3e-2)
    A = sum(a for a, u, V in mix)
    # approx3: value, bounding box, derivatives
    res = {}
    minrad = int(rng.integers(0, 6))
    dos = chance(rng, 0.5)
    p = mog.evaluate_grid_approx3(x0, x1, y0, y1, cx, cy, mv, minradius=minrad, doslice=dos)
    if p is None:
        m.check(r.max(initial=0.) < mv, 'none', 'no patch although the model is above threshold')
        return
    e = p.getExtent()
    m.check(e[0] >= x0 and e[1] <= x1 and e[2] >= y0 and e[3] <= y1, 'approx3 extent', 'outside the requested box', got=e)
    z = np.zeros(r.shape)
    z[e[2] - y0:e[3] - y0, e[0] - x0:e[1] - x0] = p.patch
    if not dos:
        m.equal(tuple(e), (x0, x1, y0, y1), 'approx3 extent', 'doslice=False keeps the box')
    m.close(z, r, 'approx3', 'evaluate_grid_approx3 within the threshold', rtol=1e-9, atol=4. * mv,
            mv=mv, peak=peak)
    m.check(np.all(z <= r * (1 + 1e-9)), 'approx3 above', 'approximation exceeds the exact positive mixture')
    res['a3'] = z
    # the neighbourhood of the starting pixel is complete whatever the threshold
    if x0 <= int(mix[0][1][0] + cx) < x1 and y0 <= int(mix[0][1][1] + cy) < y1:
        ix, iy = int(mix[0][1][0] + cx) - x0, int(mix[0][1][1] + cy) - y0
        R = max(1, minrad)
        sl = (slice(max(iy - R, 0), iy + R + 1), slice(max(ix - R, 0), ix + R + 1))
        m.close(z[sl], r[sl], 'minradius', 'pixels within minradius are evaluated', rtol=1e-9, atol=1.01 * mv)
    # derivative images are those of the same pixels
    q = mog.evaluate_grid_approx3(x0, x1, y0, y1, cx, cy, mv, derivs=True, minradius=minrad, doslice=False)
    gx, gy = ref.dgauss(mix, x0, x1, y0, y1, cx, cy)
    m.close(q[0].patch, z, 'approx3 derivs value', 'value with derivatives = value without', rtol=1e-12, atol=1.01 * mv)
    strong = r > 100 * mv
    gs = max(np.abs(gx).max(), np.abs(gy).max(), 1e-300)
    dt = 1e-9 * gs + 40. * mv
    m.check(np.all(np.abs(q[1].patch - gx)[strong] <= dt), 'x derivative', 'd/dx of the centre')
    m.check(np.all(np.abs(q[2].patch - gy)[strong] <= dt), 'y derivative', 'd/dy of the centre')
    m.event('derivative')
    # approx2 (evaluate_grid_approx)
    z2 = mog.evaluate_grid_approx(x0, x1, y0, y1, cx, cy, mv)
    m.close(z2, r, 'approx2', 'evaluate_grid_approx within the threshold', rtol=1e-9, atol=4. * mv)
    m.event('thresholded')
    m.state('thr', mog.K, int(np.log10(peak / mv)), x0 <= cx < x1, y0 <= cy < y1, dos, minrad)


def needle(m, rng):
    """Elongated tilted profiles: everything above the threshold is there, in the reported box."""
    K = int(rng.integers(1, 5))
    a = loguni(rng, 2., 14.)
    b = max(a * loguni(rng, 0.04, 0.5), 0.8)
    th = rng.uniform(0, np.pi)
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    mean = rng.uniform(-2, 2, 2)
    amp = rng.uniform(0.2, 1., K)
    sc = [loguni(rng, 0.4, 1.) for k in range(K)]
    var = np.array([R @ np.diag([(s * a) ** 2, max(s * b, 0.8) ** 2]) @ R.T for s in sc])
    mog = MixtureOfGaussians(amp, np.tile(mean, (K, 1)), var)
    mix = [(amp[k], mean, var[k]) for k in range(K)]
    W, H = int(rng.integers(10, 110)), int(rng.integers(10, 110))
    x0, y0 = int(rng.integers(-40, 40)), int(rng.integers(-40, 40))
    cx, cy = x0 + rng.uniform(-0.1, 1.1) * W, y0 + rng.uniform(-0.1, 1.1) * H
    r = ref.gauss(mix, x0, x0 + W, y0, y0 + H, cx, cy)
    mv = scale_of(mix) * loguni(rng, 1e-6, 1e-2)
    inside = x0 <= int(mean[0] + cx) < x0 + W and y0 <= int(mean[1] + cy) < y0 + H
    for dos in (False, True):
        p = mog.evaluate_grid_approx3(x0, x0 + W, y0, y0 + H, cx, cy, mv, doslice=dos)
        if p is None:
            m.check(r.max() < mv or not inside, 'none', 'no patch although the model is above threshold')
            continue
        e = p.getExtent()
        z = np.zeros(r.shape)
        z[e[2] - y0:e[3] - y0, e[0] - x0:e[1] - x0] = p.patch
        if inside:
            m.close(z, r, 'needle', 'elongated profile within the threshold', rtol=1e-9, atol=4. * mv, peak=scale_of(mix), mv=mv, box=e, inside=inside, doslice=dos)
        m.check(np.all(z <= r * (1 + 1e-9)), 'approx3 above', 'approximation exceeds the exact positive mixture')
    m.event('needle')
    m.state('needle', K, int(th * 4), int(a / b), inside, int(np.log10(mv)))


def exact_derivs(m, rng):
    """Tiny threshold: derivative images equal the analytic derivatives."""
    mog, mix = rand_mix(rng, signed=False, samemean=True, lo=1.0, hi=5., ratio=3.)
    x0, x1, y0, y1, cx, cy = rand_grid(rng)
    ix, iy = mix[0][1][0] + cx, mix[0][1][1] + cy
    if not (x0 - 20 < ix < x1 + 20 and y0 - 20 < iy < y1 + 20):
        return
    peak = scale_of(mix)
    q = mog.evaluate_grid_approx3(x0, x1, y0, y1, cx, cy, peak * 1e-14, derivs=True, doslice=False)
    r = ref.gauss(mix, x0, x1, y0, y1, cx, cy)
    gx, gy = ref.dgauss(mix, x0, x1, y0, y1, cx, cy)
    m.close(q[0].patch, r, 'value', 'approx3 tiny threshold', rtol=1e-9, atol=1e-11 * peak)
    m.close(q[1].patch, gx, 'x derivative', 'approx3 d/dx', rtol=1e-8, atol=1e-11 * peak)
    m.close(q[2].patch, gy, 'y derivative', 'approx3 d/dy', rtol=1e-8, atol=1e-11 * peak)
    m.event('derivative')


def masked(m, rng):
    mog, mix = rand_mix(rng, signed=True, lo=0.8)
    x0, x1, y0, y1, cx, cy = rand_grid(rng)
    M = rng.random((y1 - y0, x1 - x0)) < rng.uniform(0., 1.)
    if chance(rng, 0.2):
        M = np.asfortranarray(M)
    r = ref.gauss(mix, x0, x1, y0, y1, cx, cy)
    S = scale_of(mix)
    p = mog.evaluate_grid_masked(x0, y0, M, cx, cy)
    m.equal(tuple(p.getExtent()), (x0, x1, y0, y1), 'masked extent', 'extent')
    m.close(p.patch, np.where(M, r, 0.), 'masked', 'evaluate_grid_masked', rtol=2e-4, atol=2e-5 * S)
    m.check(np.all(p.patch[~M] == 0), 'masked zero', 'masked-out pixels are zero')
    p, dx, dy = mog.evaluate_grid_masked(x0, y0, M, cx, cy, derivs=True)
    gx, gy = ref.dgauss(mix, x0, x1, y0, y1, cx, cy)
    m.close(p.patch, np.where(M, r, 0.), 'masked', 'value with derivs', rtol=2e-4, atol=2e-5 * S)
    m.close(dx.patch, np.where(M, gx, 0.), 'masked dx', 'd/dx', rtol=1e-3, atol=5e-5 * S)
    m.close(dy.patch, np.where(M, gy, 0.), 'masked dy', 'd/dy', rtol=1e-3, atol=5e-5 * S)
    m.event('masked')
    m.state('masked', mog.K, x1 - x0 == 1, y1 - y0 == 1, bool(M.all()), bool(M.any()))


def transform(m, rng):
    mog, mix = rand_mix(rng, lo=0.5)
    if chance(rng, 0.3):
        # a point-like component
        mog.var[0] = 0.
        mix[0] = (mix[0][0], mix[0][1], np.zeros((2, 2)))
    W, H = int(rng.integers(2, 40)), int(rng.integers(2, 40))
    v, w = np.fft.rfftfreq(W), np.fft.fftfreq(H)

    def want(zero):
        F = np.zeros((H, len(v)), complex)
        for a, u, V in mix:
            k2 = V[0, 0] * v[None, :]**2 + V[1, 1] * w[:, None]**2 + 2 * V[0, 1] * v[None, :] * w[:, None]
            f = a * np.exp(-2 * np.pi**2 * k2)
            if not zero:
                f = f * np.exp(-2j * np.pi * (u[0] * v[None, :] + u[1] * w[:, None]))
            F += f
        return F
    S = sum(abs(a) for a, u, V in mix)
    for kw, zero in ((dict(zero_mean=True), True), (dict(zero_mean=True, use_mp_fourier=False), True),
                     (dict(), False), (dict(use_mp_fourier=False), False)):
        F = mog.getFourierTransform(v, w, **kw)
        R = want(zero)
        m.close(np.real(F), R.real, 'transform', 'real part %s' % kw, rtol=0, atol=1e-10 * S)
        m.close(np.imag(F) + np.zeros(R.shape), R.imag, 'transform', 'imaginary part %s' % kw, rtol=0, atol=1e-10 * S)
    m.event('transform')
    m.state('ft', mog.K, W % 2, H % 2)


def dense_corr(img, fx, fy):
    H, W = img.shape
    p = np.zeros((H + 6, W + 6))
    p[3:-3, 3:-3] = img
    t = sum(fx[k] * p[:, k:k + W] for k in range(7))
    return sum(fy[k] * t[k:k + H] for k in range(7))


def lanczos(m, rng):
    W, H = int(rng.integers(1, 40)), int(rng.integers(1, 40))
    if chance(rng, 0.06):       # one long side
        W = int(rng.integers(4000, 5200))
        if chance(rng, 0.5):
            W, H = H, W
        m.event('long stamp')
    img = rng.normal(0, 1, (H, W)).astype(np.float32)
    dx, dy = float(rng.uniform(-0.5, 0.5)), float(rng.uniform(-0.5, 0.5))
    if chance(rng, 0.2):
        dx = 0.
    if chance(rng, 0.2):
        dy = pick(rng, [0., 0.5, -0.5])
    want = ref.lanczos_shift(img.astype(float), dx, dy)
    orig = img.copy()
    if chance(rng, 0.3):
        img = np.asfortranarray(img)
    for kw in (dict(), dict(force_python=True)):
        out = lanczos_shift_image(img, dx, dy, **kw)
        m.close(out, want, 'lanczos', 'lanczos_shift_image %s' % kw, rtol=0, atol=2e-5)
        m.check(np.array_equal(img, orig), 'lanczos input', 'input image modified')
        im2 = orig.copy()
        lanczos_shift_image(im2, dx, dy, inplace=True, **kw)
        m.close(im2, want, 'lanczos inplace', 'inplace %s' % kw, rtol=0, atol=2e-5)
    m.event('lanczos')
    # the correlation kernels, with any taps, on images wider than the filter
    if W > 8 and H > 8:
        fx, fy = rng.normal(0, 1, 7), rng.normal(0, 1, 7)
        want = dense_corr(orig.astype(float), fx, fy)
        wk = np.zeros((H + int(rng.integers(0, 5)) + 8, W + int(rng.integers(0, 5)) + 8)) if chance(rng, 0.5) \
            else np.zeros((max(W, H) + 3, max(W, H) + 3))
        a = orig.astype(float)
        mp_fourier.correlate7(a, fx, fy, wk)
        m.scaled_close(a, want, 'correlate7', 'correlate7', tol=1e-10)
        a = orig.copy()
        mp_fourier.correlate7f(a, fx, fy, wk.astype(np.float32))
        m.scaled_close(a, want, 'correlate7f', 'correlate7f', tol=1e-5)
        out = rng.normal(0, 1, (H, W)).astype(np.float32)
        mp_fourier.correlate7f_inout(orig.copy(), out, fx, fy, wk.astype(np.float32))
        m.scaled_close(out, want, 'correlate7f_inout', 'correlate7f_inout', tol=1e-5)
        m.event('correlate7')
    m.state('lz', W <= 8, H <= 8, W, H, dx == 0, dy == 0)


def algebra(m, rng):
    A, ma = rand_mix(rng, K=int(rng.integers(1, 5)))
    B, mb = rand_mix(rng, K=int(rng.integers(1, 4)))
    x0, x1, y0, y1, cx, cy = rand_grid(rng)
    keep = [a.copy() for a in (A.amp, A.mean, A.var, B.amp, B.mean, B.var)]
    C = A.convolve(B)
    r = ref.gauss(ref.convolve(ma, mb), x0, x1, y0, y1, cx, cy)
    m.close(C.evaluate_grid(x0, x1, y0, y1, cx, cy).patch, r, 'convolve', 'convolution', rtol=1e-8,
            atol=1e-18 * scale_of(ma) * sum(abs(b[0]) for b in mb))
    D = B.convolve(A)
    m.close(D.evaluate_grid(x0, x1, y0, y1, cx, cy).patch, r, 'convolve', 'commuted convolution', rtol=1e-8,
            atol=1e-18 * scale_of(ma) * sum(abs(b[0]) for b in mb))
    # sheared / affine (profiles are centred on zero there)
    Z = MixtureOfGaussians(A.amp, A.mean * 0., A.var)
    T = rng.normal(0, 1, (2, 2)) + 1.5 * np.eye(2)
    if abs(np.linalg.det(T)) > 0.3:
        sh = rng.uniform(-3, 3, 2)
        S = Z.apply_shear(T)
        F = Z.apply_affine(sh, T)
        mt = [(a, np.zeros(2), T @ V @ T.T) for a, u, V in ma]
        sc = scale_of(mt)
        m.close(S.evaluate_grid(x0, x1, y0, y1, cx, cy).patch, ref.gauss(mt, x0, x1, y0, y1, cx, cy), 'shear',
                'sheared mixture', rtol=1e-6, atol=1e-16 * sc)
        m.close(F.evaluate_grid(x0, x1, y0, y1, cx, cy).patch, ref.gauss(mt, x0, x1, y0, y1, cx + sh[0], cy + sh[1]),
                'affine', 'affine mixture', rtol=1e-6, atol=1e-16 * sc)
    m.check(all(np.array_equal(a, b) for a, b in zip(keep, (A.amp, A.mean, A.var, B.amp, B.mean, B.var))),
            'inputs changed', 'mixture algebra modified its inputs')
    # extend / add / normalize
    E = A.copy()
    E.extend(B)
    tot = ref.gauss(ma + mb, x0, x1, y0, y1, cx, cy)
    sc = scale_of(ma) + scale_of(mb)
    m.close(E.evaluate_grid(x0, x1, y0, y1, cx, cy).patch, tot, 'extend', 'extended mixture', rtol=1e-8, atol=1e-14 * sc)
    n = sum(a for a, u, V in ma + mb)
    if abs(n) > 1e-3 * sum(abs(a) for a, u, V in ma + mb):
        P = A + B
        m.close(P.evaluate_grid(x0, x1, y0, y1, cx, cy).patch, tot / n, 'add', 'sum (normalized)', rtol=1e-8,
                atol=1e-14 * sc / abs(n))
        m.close(P.amp.sum(), 1., 'normalize', 'normalized', rtol=1e-9)
    m.check(all(np.array_equal(a, b) for a, b in zip(keep, (A.amp, A.mean, A.var, B.amp, B.mean, B.var))),
            'inputs changed', 'mixture algebra modified its inputs')
    # scalar variances mean isotropic components
    iso = rng.uniform(0.5, 9., A.K)
    I = MixtureOfGaussians(A.amp, A.mean, iso)
    mi = [(a, u, np.eye(2) * v) for (a, u, V), v in zip(ma, iso)]
    m.close(I.evaluate_grid(x0, x1, y0, y1, cx, cy).patch, ref.gauss(mi, x0, x1, y0, y1, cx, cy), 'isotropic',
            'scalar variances', rtol=1e-8, atol=1e-18 * scale_of(mi))
    m.event('algebra')
    m.state('alg', A.K, B.K)


SCENARIOS = {
    'exact': (exact, 400, 8000),
    'needle': (needle, 300, 8000),
    'thresholded': (thresholded, 600, 12000),
    'exact derivatives': (exact_derivs, 200, 4000),
    'masked': (masked, 300, 6000),
    'transform': (transform, 200, 3000),
    'lanczos': (lanczos, 400, 8000),
    'algebra': (algebra, 300, 5000),
}
QUICK = 4
