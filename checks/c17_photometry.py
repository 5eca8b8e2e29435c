"""C17: brightness units convert into each other and into counts by the standard photometric relations."""
import copy

import numpy as np

import zoo
from zoo import pick, chance, loguni
from monitor import Skip
from tractor import (Mag, Flux, Mags, Fluxes, NanoMaggies, NullPhotoCal, LinearPhotoCal, MagsPhotoCal, FluxesPhotoCal)
from tractor.galaxy import CompositeGalaxy, FixedCompositeGalaxy, ExpGalaxy, FracDev
from tractor.ellipses import EllipseE
from tractor import PointSource, PixPos

RULE = 'random magnitudes, fluxes, zeropoints, bands and orders; distinct by (operation, values)'
NEED = {'mag<->flux': 80, 'zeropoint': 60, 'counts': 200, 'sum': 60, 'scale': 60, 'errors': 60, 'bad flux': 20, 'faint': 10, 'source sum': 30, 'wrong band': 20}


def mag_of(f):
    return 22.5 - 2.5 * np.log10(f)


def bands(rng):
    b = zoo.sub_bands(rng)
    return b


def close(m, a, b, key, msg, **k):
    m.close(a, b, key, msg, rtol=1e-11, atol=1e-11, **k)


def sc_units(m, rng):
    for _ in range(4):
        mag = float(rng.uniform(-5, 40))
        f = NanoMaggies.magToNanomaggies(mag)
        close(m, f, 10**(0.4 * (22.5 - mag)), 'c17.nmgy', 'nanomaggies of a magnitude', mag=mag)
        close(m, NanoMaggies.nanomaggiesToMag(f), mag, 'c17.nmgy', 'magnitude -> nanomaggies -> magnitude', mag=mag)
        fl = loguni(rng, 1e-8, 1e8)
        close(m, NanoMaggies.nanomaggiesToMag(fl), mag_of(fl), 'c17.nmgy', 'magnitude of nanomaggies', flux=fl)
        m.close(NanoMaggies.magToNanomaggies(NanoMaggies.nanomaggiesToMag(fl)), fl, 'c17.nmgy', 'nanomaggies -> magnitude -> nanomaggies', rtol=1e-11, atol=0.)
        m.event('mag<->flux')
        zp = float(rng.uniform(15, 35))
        sc = NanoMaggies.zeropointToScale(zp)
        close(m, NanoMaggies.scaleToZeropoint(sc), zp, 'c17.zp', 'zeropoint -> scale -> zeropoint', zp=zp)
        # an object of magnitude zp gives one count
        close(m, sc * NanoMaggies.magToNanomaggies(zp), 1., 'c17.zp', 'a source as bright as the zeropoint gives one count', zp=zp)
        s2 = loguni(rng, 1e-4, 1e4)
        m.close(NanoMaggies.zeropointToScale(NanoMaggies.scaleToZeropoint(s2)), s2, 'c17.zp', 'scale -> zeropoint -> scale', rtol=1e-11, atol=0.)
        m.event('zeropoint')
        arr = np.exp(rng.uniform(-5, 5, 4))
        close(m, NanoMaggies.nanomaggiesToMag(arr), mag_of(arr), 'c17.nmgy', 'arrays convert elementwise')
        m.state('units', round(mag, 3), round(zp, 3))


def sc_errors(m, rng):
    n = int(rng.integers(1, 9))
    f = np.exp(rng.uniform(pick(rng, [-6, -20]), pick(rng, [10, 30]), n))
    iv = np.exp(rng.uniform(-8, 8, n))
    f[rng.random(n) < 0.25] *= -1.
    f[rng.random(n) < 0.1] = 0.
    iv[rng.random(n) < 0.2] = 0.
    f0, iv0 = f.copy(), iv.copy()
    if n == 1 and chance(rng, 0.5):
        mag, dmag = NanoMaggies.fluxErrorsToMagErrors(float(f[0]), float(iv[0]))
    else:
        mag, dmag = NanoMaggies.fluxErrorsToMagErrors(f, iv)
    m.check(np.array_equal(f, f0) and np.array_equal(iv, iv0), 'c17.errors', 'arguments are left alone')
    m.equal((len(mag), len(dmag)), (n, n), 'c17.errors', 'one magnitude and one error per flux')
    for i in range(n):
        if f[i] > 0:
            m.close(mag[i], mag_of(f[i]), 'c17.errors', 'magnitude', rtol=2e-7, atol=2e-6)
        else:
            m.check(np.isnan(mag[i]), 'c17.errors', 'a nonpositive flux has no magnitude', flux=f[i], mag=mag[i])
            m.event('bad flux')
        if f[i] > 0 and iv[i] > 0:
            sf = 1. / np.sqrt(iv[i])
            m.close(dmag[i], 2.5 / np.log(10) * sf / f[i], 'c17.errors', 'first-order magnitude error', rtol=1e-6, atol=0.)
            # half the difference of magnitudes one (small) error either way
            e = 1e-4 * f[i]
            num = (mag_of(f[i] - e) - mag_of(f[i] + e)) / 2. * (sf / e)
            m.close(dmag[i], num, 'c17.errors', 'magnitude error is the propagated flux error', rtol=1e-5, atol=0.)
        else:
            m.check(np.isnan(dmag[i]), 'c17.errors', 'no error without positive flux and inverse variance', flux=f[i], iv=iv[i], dmag=dmag[i])
            m.event('bad flux')
    m.event('errors')
    m.state('errors', n, round(float(f[0]), 4))


def sc_counts(m, rng):
    """Counts seen through every photometric calibration, as parameters change."""
    bs = bands(rng)
    band = pick(rng, bs)
    mags = dict((b, float(rng.uniform(10, 28))) for b in bs)
    fl = dict((b, NanoMaggies.magToNanomaggies(v) * pick(rng, [1., 1., -1.])) for b, v in mags.items())
    order = list(bs) if chance(rng, 0.5) else None
    mg = Mags(**dict(mags, **(dict(order=order) if order else {})))
    nm = NanoMaggies(**dict(fl, **(dict(order=order) if order else {})))
    fx = Fluxes(**dict(fl, **(dict(order=order) if order else {})))
    seq = order or sorted(bs)
    m.equal(list(nm.getAllParams()), [fl[b] for b in seq], 'c17.order', 'bands are in the order asked for, else alphabetical')
    m.equal(list(mg.getParamNames()), list(seq), 'c17.order', 'parameter names are the bands')
    zp = float(rng.uniform(18, 32))
    mc = MagsPhotoCal(band, zp)
    lc = LinearPhotoCal(NanoMaggies.zeropointToScale(zp), band=band)
    fc = FluxesPhotoCal(band)
    s = loguni(rng, 0.01, 100.)
    for step in range(3):
        cm, cn, cf = mc.brightnessToCounts(mg), lc.brightnessToCounts(nm), fc.brightnessToCounts(fx)
        m.close(cm, 10**(0.4 * (mc.zp - mg.getMag(band))), 'c17.counts', 'counts of a magnitude', rtol=1e-11, atol=0., band=band)
        m.close(cn, nm.getFlux(band) * lc.getScale(), 'c17.counts', 'counts of nanomaggies', rtol=1e-11, atol=0., band=band)
        m.close(cf, getattr(fx, band), 'c17.counts', 'counts of a flux', rtol=1e-11, atol=0., band=band)
        if step == 0:
            m.close(abs(cn), cm, 'c17.counts', 'a magnitude and its nanomaggies give the same counts', rtol=1e-9, atol=0.)
        m.close(mc.countsToMag(cm), mg.getMag(band), 'c17.counts', 'counts -> magnitude', rtol=1e-11, atol=1e-11)
        F = Flux(fl[band])
        m.close(NullPhotoCal().brightnessToCounts(F), fl[band], 'c17.counts', 'counts of raw flux', rtol=1e-12, atol=0.)
        m.close(LinearPhotoCal(s).brightnessToCounts(F), fl[band] * s, 'c17.counts', 'scaled counts of raw flux', rtol=1e-12, atol=0.)
        m.event('counts', 3)
        if nm.getFlux(band) > 0:
            m.close(nm.getMag(band), mag_of(nm.getFlux(band)), 'c17.nmgy', 'magnitude of a band', rtol=1e-11, atol=1e-11)
        # change things through the parameter interface
        q = rng.normal(size=len(seq))
        nm.setParams([v + a for v, a in zip(nm.getParams(), q)])
        mg.setMag(band, float(rng.uniform(10, 28)))
        fx.setFlux(band, float(rng.normal()))
        lc.setParams([lc.getParams()[0] * loguni(rng, 0.5, 2.)])
        mc.setParams([mc.getParams()[0] + float(rng.normal())])
        m.close(mg.getMag(band), mg.getBand(band), 'c17.counts', 'a band read two ways', rtol=0, atol=0)
    oth = [b for b in zoo.BANDS if b not in bs][0]
    for cal, br in ((LinearPhotoCal(1., band=oth), nm), (FluxesPhotoCal(oth), fx), (MagsPhotoCal(oth, 22.5), mg)):
        m.raises((AttributeError, KeyError), lambda: cal.brightnessToCounts(br), 'c17.band', 'a band the source does not have is refused')
        m.event('wrong band')
    c2 = mc.copy()
    mc.maxmag = c2.maxmag = pick(rng, [50., 27., 60.])
    c2 = c2.copy()
    m.equal((c2.maxmag, c2.band), (mc.maxmag, band), 'c17.copy', 'a copied calibration has the same limits')
    # absurdly faint or undefined magnitudes give nothing
    for v in (mc.maxmag + loguni(rng, 1e-3, 100.), np.inf, np.nan):
        mg.setMag(band, v)
        m.equal(float(mc.brightnessToCounts(mg)), 0., 'c17.faint', 'no counts from an absurdly faint magnitude', mag=v)
        m.equal(float(c2.brightnessToCounts(mg)), 0., 'c17.faint', 'a copied calibration has the same limits', mag=v)
        m.event('faint')
    for v in (mc.maxmag - loguni(rng, 1e-3, 1.), -float(rng.uniform(0, 80))):
        mg.setMag(band, v)
        m.close(mc.brightnessToCounts(mg), 10**(0.4 * (mc.zp - v)), 'c17.counts', 'counts at extreme magnitudes', rtol=1e-10, atol=0., mag=v)
    m.state('counts', band, round(zp, 3), tuple(seq))


class Dimmed(Mags):
    pass


def sc_arith(m, rng):
    bs = bands(rng)

    def br(cls, vals):
        return cls(order=list(bs), **vals)
    f1 = dict((b, loguni(rng, 1e-2, 1e4)) for b in bs)
    f2 = dict((b, loguni(rng, 1e-2, 1e4)) for b in bs)
    k = loguni(rng, 1e-2, 1e2) if chance(rng, 0.7) else loguni(rng, 1e-9, 1e9)
    for cls in (Fluxes, NanoMaggies):
        a, b = br(cls, f1), br(cls, f2)
        if chance(rng, 0.3):
            a.freezeParam(pick(rng, bs))
        fz = list(a.getParamNames())
        c = a.copy()
        m.equal((list(a.order), list(c.order)), (list(bs), list(bs)), 'c17.order', 'band order of a copy is kept')
        m.equal((list(a.getParamNames()), list(c.getParamNames())), (fz, fz), 'c17.order', 'parameter names of a copy')
        s = a + b
        m.equal((list(s.order), list((a * k).order)), (list(bs), list(bs)), 'c17.order', 'band order of sums and multiples is kept')
        m.check(isinstance(s, cls), 'c17.sum', 'a sum of brightnesses is of the same kind')
        close(m, [s.getFlux(x) for x in bs], [f1[x] + f2[x] for x in bs], 'c17.sum', 'fluxes add', cls=cls.__name__)
        p = a * k
        m.check(isinstance(p, cls), 'c17.scale', 'a scaled brightness is of the same kind')
        close(m, [p.getFlux(x) for x in bs], [f1[x] * k for x in bs], 'c17.scale', 'fluxes scale', cls=cls.__name__)
        n = a * -k
        close(m, [n.getFlux(x) for x in bs], [-f1[x] * k for x in bs], 'c17.scale', 'fluxes scale with sign', cls=cls.__name__)
        close(m, list(a.getAllParams()) + list(b.getAllParams()), [f1[x] for x in bs] + [f2[x] for x in bs], 'c17.pure', 'operands are left alone')
    m1 = br(Mags, dict((b, mag_of(v)) for b, v in f1.items()))
    m2 = br(Mags, dict((b, mag_of(v)) for b, v in f2.items()))
    s = m1 + m2
    m.close([s.getMag(x) for x in bs], [mag_of(f1[x] + f2[x]) for x in bs], 'c17.sum', 'the sum of magnitudes is the magnitude of the summed light', rtol=1e-10, atol=1e-10)
    p = m1 * k
    m.close([p.getMag(x) for x in bs], [mag_of(f1[x] * k) for x in bs], 'c17.scale', 'a magnitude scales as its light', rtol=1e-10, atol=1e-10)
    p = m1 * -k
    m.close([p.getMag(x) for x in bs], [mag_of(f1[x] * k) for x in bs], 'c17.scale', 'negative magnification of a magnitude counts by size', rtol=1e-10, atol=1e-10)
    d = float(rng.normal())
    q = m1 + d
    m.close([q.getMag(x) for x in bs], [mag_of(f1[x]) + d for x in bs], 'c17.sum', 'a number added to magnitudes is an offset', rtol=1e-10, atol=1e-10)
    for x in (s, m1 * k, q):
        m.equal(list(x.order), list(bs), 'c17.order', 'band order of sums and multiples of magnitudes is kept')
        m.close(list(x.getAllParams()), [x.getMag(b) for b in bs], 'c17.order', 'parameters are in band order')
    m.check(type(Dimmed(order=list(bs), **f1) * k) is Dimmed and type(Dimmed(order=list(bs), **f1).copy()) is Dimmed, 'c17.scale',
            'a multiple or copy of a subclass of Mags is of the same kind')
    if chance(rng, 0.4):
        m1.freezeParam(pick(rng, bs))
        m.event('frozen magnitude')
    nm = NanoMaggies.fromMag(m1)
    m.close([nm.getFlux(x) for x in bs], [f1[x] for x in bs], 'c17.nmgy', 'nanomaggies from magnitudes, band by band', rtol=1e-9, atol=0.)
    m.equal(list(nm.getParamNames()), list(bs), 'c17.order', 'band order is kept')
    F = Flux(f1[bs[0]])
    m.close([(F * k).getValue(), (k * F).getValue(), F.getValue()], [f1[bs[0]] * k, f1[bs[0]] * k, f1[bs[0]]], 'c17.scale', 'raw flux scales', rtol=1e-12, atol=0.)
    m.event('sum', 3)
    m.event('scale', 3)
    m.state('arith', tuple(bs), round(k, 4))


def sc_sources(m, rng):
    """Total brightness of multi-component sources; their components see the right share."""
    bs = bands(rng)
    fe = dict((b, loguni(rng, 1e-1, 1e3)) for b in bs)
    fd = dict((b, loguni(rng, 1e-1, 1e3)) for b in bs)
    e = EllipseE(1., 0.1, 0.2)
    g = CompositeGalaxy(PixPos(3., 4.), NanoMaggies(order=list(bs), **fe), e.copy(), NanoMaggies(order=list(bs), **fd), e.copy())
    t = g.getBrightness()
    close(m, [t.getFlux(b) for b in bs], [fe[b] + fd[b] for b in bs], 'c17.source', 'the brightness of a composite galaxy is the sum of its components\'')
    close(m, [[x.getFlux(b) for b in bs] for x in g.getBrightnesses()], [[fe[b] for b in bs], [fd[b] for b in bs]], 'c17.source', 'components keep their own brightness')
    fr = float(rng.uniform(0, 1))
    h = FixedCompositeGalaxy(PixPos(3., 4.), NanoMaggies(order=list(bs), **fe), FracDev(fr), e.copy(), e.copy())
    close(m, [h.getBrightness().getFlux(b) for b in bs], [fe[b] for b in bs], 'c17.source', 'the brightness of a fixed-composite galaxy')
    for src, want in ((PointSource(PixPos(1., 2.), NanoMaggies(order=list(bs), **fe)), fe), (ExpGalaxy(PixPos(1., 2.), NanoMaggies(order=list(bs), **fe), e.copy()), fe)):
        close(m, [src.getBrightness().getFlux(b) for b in bs], [want[b] for b in bs], 'c17.source', 'brightness of a source')
        nb = NanoMaggies(order=list(bs), **fd)
        src.setBrightness(nb)
        close(m, [src.getBrightness().getFlux(b) for b in bs], [fd[b] for b in bs], 'c17.source', 'a brightness that was set')
        close(m, sum(LinearPhotoCal(2., band=bs[0]).brightnessToCounts(b) for b in src.getBrightnesses()), 2 * fd[bs[0]], 'c17.source', 'counts of a source')
    m.event('source sum')
    m.state('source', tuple(bs))


SCENARIOS = {
    'units': (sc_units, 320, 2560),
    'errors': (sc_errors, 640, 5120),
    'counts': (sc_counts, 480, 3840),
    'arith': (sc_arith, 480, 3840),
    'sources': (sc_sources, 320, 2560),
}
QUICK = 5
