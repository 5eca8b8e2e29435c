"""C07: the native extensions stay inside their arrays whatever the geometry and array layout."""
import sys

import numpy as np

import scene as S
import zoo
from zoo import pick, chance, loguni
from tractor import mixture_profiles as mp
from tractor.psf import lanczos_shift_image
from tractor import mix, mp_fourier, emfit

VARIANT = 'asanceres'
RULE = ('no sanitizer report, crash or hang; guard zones around every output stay untouched; ill-formed arguments are '
        'refused with an error; no reference to an argument is gained or lost; awkward array layouts give the same answer')
NEED = {'guarded': 200, 'illformed': 100, 'ceres': 5, 'emfit': 20, 'render': 20, 'empty-box': 5, 'layout': 50}
CASE_LIMIT = 60.
GUARD = 37


def guarded(rng, shape, dtype):
    n = int(np.prod(shape))
    fill = 12345.678
    buf = np.full(n + 2 * GUARD, fill, dtype)
    out = buf[GUARD:GUARD + n].reshape(shape)
    out[...] = 0
    return buf, out


def intact(m, buf, n, what):
    f = np.asarray(12345.678, buf.dtype)
    m.event('guarded')
    m.check(bool(np.all(buf[:GUARD] == f) and np.all(buf[GUARD + n:] == f)), 'guard-' + what,
            'pixels outside the result array were written')


def layout(rng, a):
    """The same values in an awkward memory layout."""
    k = pick(rng, ['same', 'fortran', 'strided', 'swapped', 'f4', 'reversed', 'readonly'])
    a = np.asarray(a)
    if k == 'fortran':
        return k, np.asfortranarray(a)
    if k == 'strided':
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        b[tuple(slice(None, None, 2) for s in a.shape)] = a
        return k, b[tuple(slice(None, None, 2) for s in a.shape)]
    if k == 'swapped':
        return k, a.astype(a.dtype.newbyteorder())
    if k == 'f4':
        return k, a.astype(np.float32)
    if k == 'reversed':
        return k, a[..., ::-1].copy()[..., ::-1]
    if k == 'readonly':
        a = a.copy()
        a.flags.writeable = False
        return k, a
    return k, a


def mixture(rng, nasty=False):
    K = int(rng.integers(1, 6))
    amp = rng.normal(0, 1, K) if chance(rng, 0.2) else rng.uniform(0.1, 1, K)
    mean = rng.normal(0, 2, (K, 2))
    var = np.array([zoo.rand_cov(rng, 0.05, 30.) for k in range(K)])
    if nasty:
        j = int(rng.integers(K))
        w = int(rng.integers(6))
        if w == 0:
            var[j] = 0.
        elif w == 1:
            var[j, 0, 0] = np.nan
        elif w == 2:
            var[j] *= 1e30
        elif w == 3:
            amp[j] = np.inf
        elif w == 4:
            var[j] = [[1., 2.], [2., 1.]]
        else:
            mean[j] = rng.choice([1e9, -1e9, np.nan])
    return amp, mean, var


def box(rng):
    w = pick(rng, [1, 1, 2, 3, int(rng.integers(1, 40))])
    h = pick(rng, [1, 1, 2, 3, int(rng.integers(1, 40))])
    x0 = int(rng.integers(-60, 60))
    y0 = int(rng.integers(-60, 60))
    return x0, x0 + w, y0, y0 + h


def kernels(m, rng):
    nasty = chance(rng, 0.25)
    amp, mean, var = mixture(rng, nasty)
    x0, x1, y0, y1 = box(rng)
    if chance(rng, 0.1):
        x1 = x0
        m.event('empty-box')
    elif chance(rng, 0.1):
        y1 = y0
        m.event('empty-box')
    W, H = x1 - x0, y1 - y0
    fx, fy = float(rng.uniform(x0 - 10, x1 + 10)), float(rng.uniform(y0 - 10, y1 + 10))
    refs = [sys.getrefcount(a) for a in (amp, mean, var)]
    which = pick(rng, ['pts', 'grid', 'approx2', 'approx3', 'approx3d', 'masked', 'maskedd'])
    m.op(which, amp, mean, var, x0, x1, y0, y1, fx, fy)
    if which == 'pts':
        N = int(rng.integers(0, 50))
        buf, out = guarded(rng, (N,), float)
        rtn = mix.c_gauss_2d(rng.normal(0, 20, (N, 2)), amp, mean, var, out)
        n = N
    elif which == 'grid':
        buf, out = guarded(rng, (H, W), float)
        rtn = mix.c_gauss_2d_grid(x0, x1, y0, y1, fx, fy, amp, mean, var, out)
        n = H * W
    elif which == 'approx2':
        buf, out = guarded(rng, (H, W), float)
        rtn = mix.c_gauss_2d_approx2(x0, x1, y0, y1, fx, fy, float(loguni(rng, 1e-12, 1.)), amp, mean, var, out)
        n = H * W
    elif which.startswith('approx3'):
        buf, out = guarded(rng, (H, W), float)
        n = H * W
        bx = by = xd = yd = None
        if which == 'approx3d':
            bx, xd = guarded(rng, (H, W), float)
            by, yd = guarded(rng, (H, W), float)
        xc, yc = int(rng.integers(x0 - 30, x1 + 30)), int(rng.integers(y0 - 30, y1 + 30))
        minval = pick(rng, [0., float(loguni(rng, 1e-12, 1.))])
        r = mix.c_gauss_2d_approx3(x0, x1, y0, y1, fx, fy, minval, amp, mean, var,
                                   out, xd, yd, xc, yc, int(rng.integers(0, 60)))
        rtn, sx0, sx1, sy0, sy1 = r
        m.check(0 <= sx0 <= sx1 <= W and 0 <= sy0 <= sy1 <= H, 'slice-bounds',
                'reported nonzero box leaves the array', got=r, W=W, H=H)
        if n and not nasty:
            inside = out[sy0:sy1, sx0:sx1]
            m.check(np.count_nonzero(out) == np.count_nonzero(inside), 'slice-covers',
                    'nonzero pixels outside the reported box')
        for b in (bx, by):
            if b is not None:
                intact(m, b, n, which)
    else:
        buf, out = guarded(rng, (H, W), np.float32)
        n = H * W
        bx = by = xd = yd = None
        if which == 'maskedd':
            bx, xd = guarded(rng, (H, W), np.float32)
            by, yd = guarded(rng, (H, W), np.float32)
        mask = rng.random((H, W)) < 0.5
        rtn = mix.c_gauss_2d_masked(x0, y0, W, H, fx, fy, amp.astype(np.float32), mean.astype(np.float32),
                                    var.astype(np.float32), out, xd, yd, mask)
        m.check(np.all(out[~mask] == 0), 'mask-respected', 'pixels outside the mask were written')
        for b in (bx, by):
            if b is not None:
                intact(m, b, n, which)
    intact(m, buf, n, which)
    m.equal(rtn, 0, 'rtn-' + which, 'return code')
    m.equal([sys.getrefcount(a) for a in (amp, mean, var)], refs, 'refs-' + which, 'reference counts of the arguments')
    m.event(which)
    m.state(which, W, H, nasty)


def layouts(m, rng):
    """Any memory layout or dtype of the arguments gives the same result as plain arrays."""
    amp, mean, var = mixture(rng)
    amp, mean, var = [a.astype(np.float32).astype(float) for a in (amp, mean, var)]
    x0, x1, y0, y1 = box(rng)
    W, H = x1 - x0, y1 - y0
    which = pick(rng, ['grid', 'approx3', 'masked', 'pts'])
    dt = np.float32 if which == 'masked' else float
    amp, mean, var = [a.astype(dt) for a in (amp, mean, var)]
    ks = [layout(rng, a) for a in (amp, mean, var)]

    def run(a, b, c, out):
        if which == 'grid':
            return mix.c_gauss_2d_grid(x0, x1, y0, y1, 0.25, 0.5, a, b, c, out)
        if which == 'approx3':
            return mix.c_gauss_2d_approx3(x0, x1, y0, y1, 0.25, 0.5, 1e-6, a, b, c, out, None, None,
                                          (x0 + x1) // 2, (y0 + y1) // 2, 3)[0]
        if which == 'masked':
            return mix.c_gauss_2d_masked(x0, y0, W, H, 0.25, 0.5, a, b, c, out, None, None, np.ones((H, W), bool))
        return mix.c_gauss_2d(np.array([[x0 + 0.5, y0 * 1.], [1., 2.]]), a, b, c, out)
    shape = (2,) if which == 'pts' else (H, W)
    ref = np.zeros(shape, dt)
    m.equal(run(amp, mean, var, ref), 0, 'rtn', which)
    ok, out = layout(rng, np.zeros(shape, dt))
    if ok == 'readonly':
        out = np.zeros(shape, dt)
        ok = 'same'
    r = run(ks[0][1], ks[1][1], ks[2][1], out)
    m.op(which, [k for k, a in ks], ok)
    m.equal(r, 0, 'rtn-layout', which)
    m.close(out, ref, 'layout-' + which, 'result depends on the memory layout of the arguments %s -> %s'
            % ([k for k, a in ks], ok), rtol=2e-5, atol=1e-6 * (np.abs(ref).max() + 1e-30))
    m.event('layout')
    m.state(which, ok, tuple(k for k, a in ks))


def illformed(m, rng):
    """Arrays of the wrong type, dimension or size are refused; the interpreter survives; afterwards all is well."""
    amp, mean, var = mixture(rng)
    K = len(amp)
    W, H = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    out = np.zeros((H, W))
    xd = np.zeros((H, W))
    mask = np.ones((H, W), bool)
    bad = [None, 'hello', np.zeros(K + 1), np.zeros((K, 3)), np.zeros((K + 1, 2)), np.zeros((K, 2, 3)), np.zeros((2, 2, 2, 2)),
           np.array(['a', 'b']), np.float64(3.), [], object(), np.zeros((K, 2), 'M8[s]'), np.array(['q'] * K, object)]
    which = pick(rng, ['pts', 'grid', 'approx2', 'approx3', 'masked'])
    pos = np.zeros((5, 2))
    dt = float
    if which == 'masked':
        dt = np.float32
        amp, mean, var, out, xd = [a.astype(dt) for a in (amp, mean, var, out, xd)]
        bad = [b.astype(dt) if isinstance(b, np.ndarray) and b.dtype.kind == 'f' else b for b in bad]
    args = dict(amp=amp, mean=mean, var=var, out=out, xd=None, yd=None, mask=mask, pos=pos)
    if which == 'approx3' or which == 'masked':
        args['xd'] = xd
        args['yd'] = xd.copy()
    if which == 'pts':
        args['out'] = np.zeros(5)
    keys = (['amp', 'mean', 'var', 'out'] + (['xd', 'yd'] if which in ('approx3', 'masked') else [])
            + (['mask'] if which == 'masked' else []))
    key = pick(rng, keys)
    b = pick(rng, bad)
    if key == 'mask' and (b is None):
        b = 'hello'
    if key in ('xd', 'yd') and b is None:
        b = np.zeros((H + 1, W))
    if isinstance(b, np.ndarray) and b.shape == np.shape(args[key]) and b.dtype.kind == 'f':
        b = np.zeros(tuple(s + 1 for s in b.shape))
    if isinstance(b, np.ndarray) and key in ('xd', 'yd') and b.shape == (H, W):
        b = np.zeros((H, W + 1))
    if chance(rng, 0.5):
        # right but for the length of one axis
        key = pick(rng, keys + (['pos'] if which == 'pts' else []))
        shp = list(args[key].shape)
        ax = int(rng.integers(len(shp))) if key != 'pos' else 1
        shp[ax] = max(0, shp[ax] + int(pick(rng, [-3, -1, 1, 2])))
        b = np.ones(shp, args[key].dtype)
        m.event('one axis off')
    args[key] = b

    def call(a):
        if which == 'pts':
            return mix.c_gauss_2d(a['pos'], a['amp'], a['mean'], a['var'], a['out'])
        if which == 'grid':
            return mix.c_gauss_2d_grid(0, W, 0, H, 0., 0., a['amp'], a['mean'], a['var'], a['out'])
        if which == 'approx2':
            return mix.c_gauss_2d_approx2(0, W, 0, H, 0., 0., 1e-3, a['amp'], a['mean'], a['var'], a['out'])
        if which == 'approx3':
            return mix.c_gauss_2d_approx3(0, W, 0, H, 0., 0., 1e-3, a['amp'], a['mean'], a['var'], a['out'], a['xd'], a['yd'],
                                          0, 0, 3)[0]
        return mix.c_gauss_2d_masked(0, 0, W, H, 0., 0., a['amp'], a['mean'], a['var'], a['out'], a['xd'], a['yd'], a['mask'])
    m.op(which, key, b)
    for i in range(3):
        try:
            r = call(args)
        except Exception:
            r = -1
        m.check(r != 0, 'accepted-' + which, 'ill-formed %s was accepted' % key, bad=b)
    # numpy still healthy, and a proper call still works
    good = dict(amp=amp, mean=mean, var=var, out=np.zeros((5,) if which == 'pts' else (H, W), dt), xd=None, yd=None, mask=mask, pos=pos)
    m.equal(call(good), 0, 'after-error', 'well-formed call after an ill-formed one')
    m.check(np.dtype(float) == np.zeros(2).dtype and sys.getrefcount(np.dtype(float)) > 3, 'dtype-alive', 'dtype object')
    m.event('illformed')
    m.state(which, key, str(type(b)), np.shape(b) if not isinstance(b, list) else 0)


def fourier(m, rng):
    K = int(rng.integers(1, 8))
    H, W = int(rng.integers(1, 50)), int(rng.integers(1, 50))
    v, w = np.fft.rfftfreq(W), np.fft.fftfreq(H)
    buf, out = guarded(rng, (len(w), len(v)), float)
    amp, mean, var = mixture(rng)
    mp_fourier.gaussian_fourier_transform_zero_mean(amp, var, v, w, out)
    intact(m, buf, out.size, 'fourier')
    m.check(np.all(np.isfinite(out)), 'fourier-finite', 'transform has non-finite values')
    # Lanczos
    H, W = int(rng.integers(1, 60)), int(rng.integers(1, 60))
    img = rng.normal(0, 1, (H, W)).astype(np.float32)
    dx, dy = [pick(rng, [0., 0.5, -0.5, float(rng.uniform(-0.5, 0.5))]) for i in range(2)]
    ref = lanczos_shift_image(img, dx, dy)
    m.check(ref.shape == img.shape and np.all(np.isfinite(ref)), 'lanczos', 'shape or value of the shifted image')
    k, img2 = layout(rng, img)
    m.scaled_close(lanczos_shift_image(img2, dx, dy), ref, 'lanczos-layout', k, tol=1e-5, scale=np.abs(img).max())
    b2, sub = guarded(rng, (H, W), np.float32)
    sub[...] = img
    lanczos_shift_image(sub, dx, dy, inplace=True)
    intact(m, b2, H * W, 'lanczos')
    m.scaled_close(sub, ref, 'lanczos-inplace', '', tol=1e-5, scale=np.abs(img).max())
    m.event('layout')
    if W > 8 and H > 8:
        wb, work = guarded(rng, (H + int(rng.integers(0, 5)), W + int(rng.integers(0, 5))), np.float32)
        ob, o = guarded(rng, (H, W), np.float32)
        mp_fourier.lanczos_shift_3f(img, o, dx, dy, work)
        intact(m, wb, work.size, 'lanczos-work')
        intact(m, ob, o.size, 'lanczos-out')
        m.scaled_close(o, ref, 'lanczos-work', 'result depends on the scratch array', tol=1e-5, scale=np.abs(img).max())
        f = rng.normal(0, 1, (2, 7))
        from scipy.ndimage import correlate1d
        exp = correlate1d(correlate1d(img.astype(float), f[0], axis=1, mode='constant'), f[1], axis=0, mode='constant')
        sc = np.abs(exp).max() + 1.
        kind = pick(rng, ['d', 'f', 'io'])
        if kind == 'd':
            wb, work = guarded(rng, work.shape, float)
            ib, i2 = guarded(rng, (H, W), float)
            i2[...] = img
            mp_fourier.correlate7(i2, f[0], f[1], work)
            intact(m, ib, i2.size, 'corr7')
            got = i2
        elif kind == 'f':
            wb, work = guarded(rng, work.shape, np.float32)
            ib, i2 = guarded(rng, (H, W), np.float32)
            i2[...] = img
            mp_fourier.correlate7f(i2, f[0], f[1], work)
            intact(m, ib, i2.size, 'corr7f')
            got = i2
        else:
            wb, work = guarded(rng, work.shape, np.float32)
            ib, got = guarded(rng, (H, W), np.float32)
            mp_fourier.correlate7f_inout(img, got, f[0], f[1], work)
            intact(m, ib, got.size, 'corr7io')
        intact(m, wb, work.size, 'corr7-work')
        m.scaled_close(got, exp, 'correlate7', kind, tol=2e-5, scale=sc)
    m.state('fourier', H, W)


def em(m, rng):
    H, W = int(rng.integers(1, 25)), int(rng.integers(1, 25))
    img = np.abs(rng.normal(0, 1, (H, W)))
    if chance(rng, 0.3):
        img -= 0.5
    if chance(rng, 0.1):
        img[:] = 0
    K = int(rng.integers(1, 4))
    x0, y0 = int(rng.integers(-20, 20)), int(rng.integers(-20, 20))
    ba, amp = guarded(rng, (K,), float)
    amp[:] = rng.dirichlet(np.ones(K))
    bm, mean = guarded(rng, (K, 2), float)
    mean[...] = rng.uniform(0, 1, (K, 2)) * [W, H] + [x0, y0]
    bv, var = guarded(rng, (K, 2, 2), float)
    for k in range(K):
        var[k] = np.eye(2) * rng.uniform(0.5, 9.)
    kl, im2 = layout(rng, img)
    which = pick(rng, ['reg', 'reg2', '1d', 'plain', 'badshape'])
    steps = int(rng.integers(0, 12))
    m.op(which, H, W, K, kl, steps)
    refs = [sys.getrefcount(a) for a in (im2, amp, mean, var)]
    if which == 'reg':
        emfit.em_fit_2d_reg(im2, x0, y0, amp, mean, var, float(rng.uniform(0, 1)), steps)
    elif which == 'reg2':
        emfit.em_fit_2d_reg2(im2, x0, y0, amp, mean, var, float(rng.uniform(0.01, 1)), steps, float(loguni(rng, 1e-8, 1e-2)))
    elif which == 'plain':
        if H * W > 150:
            im2 = im2[:5, :5]
        refs = [sys.getrefcount(a) for a in (im2, amp, mean, var)]
        emfit.em_fit_2d(im2, x0, y0, amp, mean, var)
    elif which == '1d':
        x = rng.normal(0, 3, int(rng.integers(1, 60)))
        b1, m1 = guarded(rng, (K,), float)
        b2, v1 = guarded(rng, (K,), float)
        m1[:] = rng.normal(0, 2, K)
        v1[:] = rng.uniform(0.5, 4, K)
        emfit.em_fit_1d_samples_reg(x, amp, m1, v1, float(rng.uniform(0, 1)), steps)
        intact(m, b1, K, 'em1d')
        intact(m, b2, K, 'em1d')
    else:
        args = [im2, x0, y0, amp, mean, var, 0.1, 3]
        i = pick(rng, [3, 4, 5])
        args[i] = pick(rng, [np.zeros(K + 1), np.zeros((K + 1, 2)), np.zeros((K, 2, 3)), np.zeros((K, 3)), 'x', None])
        fn = emfit.em_fit_2d_reg
        if chance(rng, 0.6):
            # right but for the length of one axis
            v = pick(rng, ['reg', 'reg2', 'plain', '1d'])
            full = {'reg': [im2, x0, y0, amp, mean, var, 0.1, 3], 'reg2': [im2, x0, y0, amp, mean, var, 0.1, 3, 1e-6],
                    'plain': [im2, x0, y0, amp, mean, var], '1d': [im2.ravel(), amp, np.zeros(K), np.ones(K), 0.1, 3]}[v]
            fn = {'reg': emfit.em_fit_2d_reg, 'reg2': emfit.em_fit_2d_reg2, 'plain': emfit.em_fit_2d,
                  '1d': emfit.em_fit_1d_samples_reg}[v]
            i = pick(rng, [1, 2, 3] if v == '1d' else [3, 4, 5])
            shp = list(full[i].shape)
            ax = int(rng.integers(len(shp)))
            shp[ax] = max(0, shp[ax] + int(pick(rng, [-1, 1, 2])))
            full[i] = np.ones(shp)
            args = full
            m.op(v, i, shp)
            m.event('one axis off')
        if np.shape(args[i]) != (K, 2, 2):
            try:
                r = fn(*args)
            except Exception:
                r = -1
            r = r[0] if isinstance(r, (list, tuple)) else r
            m.check(r != 0, 'em-accepted', 'ill-formed argument %d accepted' % i)
        m.event('illformed')
        refs = None
    intact(m, ba, K, 'em')
    intact(m, bm, 2 * K, 'em')
    intact(m, bv, 4 * K, 'em')
    if refs is not None:
        m.equal([sys.getrefcount(a) for a in (im2, amp, mean, var)], refs, 'em-refs', which)
    m.event('emfit')
    m.state(which, K, H, W)


def render(m, rng):
    tr, ims, srcs = S.scene(rng, nim=int(rng.integers(1, 3)), nsrc=int(rng.integers(1, 4)), size=(1, 40), margin=40, rmax=6.,
                            linear=True)
    from tractor.patch import ModelMask
    for i, im in enumerate(ims):
        try:
            mod = tr.getModelImage(i)
        except RuntimeError as e:
            if 'sourceOut' in str(e):
                continue
            raise
        m.check(mod.shape == im.img.shape and np.all(np.isfinite(mod)), 'render', 'model image')
        m.event('render')
        s = pick(rng, srcs)
        x0, y0 = int(rng.integers(-5, im.W)), int(rng.integers(-5, im.H))
        w, h = int(rng.integers(1, 30)), int(rng.integers(1, 30))
        mm = ModelMask(x0, y0, w, h)
        if chance(rng, 0.5):
            mm = ModelMask(x0, y0, rng.random((h, w)) < 0.7)
        for f in (lambda: s.getModelPatch(im.img, modelMask=mm), lambda: s.getParamDerivatives(im.img)):
            try:
                f()
            except RuntimeError as e:
                if 'sourceOut' not in str(e):
                    raise
    m.state('render', len(ims), len(srcs), tuple(type(s).__name__ for s in srcs))


def ceres(m, rng):
    from tractor.ceres_optimizer import CeresOptimizer
    tr, ims, srcs = S.scene(rng, nim=int(rng.integers(1, 4)), nsrc=int(rng.integers(1, 4)), psf_kinds=S.GAUSS, size=(1, 26),
                            margin=3 if chance(rng, 0.6) else 30, sky_kinds=['const'], photo_kind='linflux')
    opt = CeresOptimizer()
    tr.optimizer = opt
    for i, im in enumerate(ims):
        im.img.data = im.img.data + tr.getModelImage(i)
        if chance(rng, 0.3):
            im.img.data = np.asfortranarray(im.img.data)
    bounds = pick(rng, [True, False])
    before = [(im.img.data.copy(), im.img.inverr.copy()) for im in ims]
    if chance(rng, 0.5):
        if chance(rng, 0.5):
            tr.freezeParam('images')
        else:
            tr.images.freezeAllParams()
            tr.images.thawParam(0)
            im = tr.images[0]
            im.freezeAllParams()
            im.thawParam('sky')
        for s in srcs:
            if chance(rng, 0.3):
                s.freezeParam('pos')
        try:
            r = tr.optimize_loop(max_iterations=3, print_progress=False, bounds=bounds, scaled=chance(rng, 0.5),
                                 numeric=chance(rng, 0.3), variance=chance(rng, 0.5))
        except (SystemError, AssertionError):
            # a trial step left the domain where the model can be rendered
            m.event('ceres-domain')
            return
        if r is not None:
            m.event('ceres')
    else:
        tr.freezeParam('images')
        for s in srcs:
            s.freezeAllBut('brightness') if hasattr(s, 'brightness') else s.freezeAllBut('brightnessExp', 'brightnessDev')
        if any(type(s).__name__ == 'CompositeGalaxy' for s in srcs):
            return
        tr.optimize_forced_photometry(nonneg=False, variance=chance(rng, 0.5), fitstats=chance(rng, 0.5),
                                      wantims=chance(rng, 0.5))
        m.event('ceres')
    for im, (d, ie) in zip(ims, before):
        m.check(np.array_equal(im.img.data, d) and np.array_equal(im.img.inverr, ie), 'ceres-image', 'the image was written to')
    m.state('ceres', len(ims), len(srcs), bounds)


SCENARIOS = {
    'kernels': (kernels, 700, 20000),
    'layouts': (layouts, 250, 6000),
    'illformed': (illformed, 250, 4000),
    'fourier': (fourier, 150, 3000),
    'em': (em, 150, 3000),
    'render': (render, 60, 1500),
    'ceres': (ceres, 60, 1500),
}
QUICK = 2
