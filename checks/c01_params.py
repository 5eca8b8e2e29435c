"""C01: the parameter-vector contract, under any freeze/thaw/edit history.

An independent reference tree shadows the real objects; after every random
operation the whole vector interface is compared with it."""
import numpy as np
import zoo
from zoo import pick, chance
from tractor.utils import ParamList, ScalarParam, MultiParams, NpArrayParams, MogParams
from tractor import (Tractor, PixPos, RaDecPos, Flux, Mag, Fluxes, NanoMaggies, Mags,
                     ConstantSky, LinearPhotoCal, MagsPhotoCal, NullSky, NullPhotoCal,
                     Image, NullWCS, PointSource)
from tractor.ellipses import EllipseE, EllipseESoft
from tractor.galaxy import GalaxyShape, FracDev, ExpGalaxy, DevGalaxy, FixedCompositeGalaxy, CompositeGalaxy
from tractor.sersic import SersicIndex, SersicGalaxy
from tractor.engine import Catalog, Images
from tractor.motion import MovingPointSource, PMRaDec, Parallax
from tractor.tractortime import TAITime

RULE = ('random object trees (library classes and generic nested ones) driven through random '
        'histories of freeze/thaw/set/append/remove operations next to a reference model; '
        'a state is distinct by (tree shape, freeze pattern, operation); non-trivial if it has '
        'at least one thawed parameter or an operation changed the freeze pattern')
NEED = {'op': 1000, 'thawed>0': 500, 'partly frozen': 300, 'wrapped': 250}


class PL2(ParamList):
    @staticmethod
    def getNamedParams():
        return dict(alpha=0, beta=1)


class PL3(ParamList):
    @staticmethod
    def getNamedParams():
        return dict(a=0, c=2)


class SP(ScalarParam):
    pass


class MP2(MultiParams):
    @staticmethod
    def getNamedParams():
        return dict(left=0, right=1)


class MP3(MultiParams):
    @staticmethod
    def getNamedParams():
        return dict(alpha=0, mid=1, a=2)


class MPX(MultiParams):
    pass


# -------- reference model

class Leaf(object):
    def __init__(self, obj, names, freezable, alias=()):
        self.obj = obj
        self.alias = dict(alias)      # extra names
        self.names = list(names)      # None: unnamed
        self.vals = [float(v) for v in obj.getAllParams()]
        self.fz = freezable
        self.liq = [True] * len(self.vals)
        self.steps = [float(s) for s in obj.getStepSizes()]
        self.lo = list(obj.getLowerBounds())
        self.up = list(obj.getUpperBounds())
        self.mx = list(obj.getMaxStep())

    def leaves(self):
        return [self]

    def nodes(self):
        return [self]

    def slots(self):
        """(leaf, index) of each thawed parameter, in order."""
        return [(self, i) for i, l in enumerate(self.liq) if l]

    def allslots(self):
        return [(self, i) for i in range(len(self.vals))]

    def pnames(self):
        r = []
        for k, (s, i) in enumerate(self.slots()):
            r.append(self.names[i] if self.names[i] is not None else 'param%i' % k)
        return r

    def recurse(self, names, val):
        if not self.fz:
            return
        for i, n in enumerate(self.names):
            if n is not None and n in names:
                self.liq[i] = val
        for n, i in self.alias.items():
            if n in names:
                self.liq[i] = val
        if '*' in names:
            self.liq = [val] * len(self.liq)

    def paths(self, names):
        if not self.fz:
            return False
        hit = False
        for n, i in self.alias.items():
            if n in names:
                self.liq[i] = True
                hit = True
        for i, n in enumerate(self.names):
            if n is not None and n in names:
                self.liq[i] = True
                hit = True
        return hit


class Node(object):
    def __init__(self, obj, names, subs, label=None):
        self.obj = obj
        self.fz = True
        self.subs = list(subs)
        self.names = names            # list or None entries; padded with None
        self.liq = [True] * len(self.subs)
        self.label = label            # 'source%i' style labels (never match by name)

    def name(self, i):
        return self.names[i] if i < len(self.names) else None

    def leaves(self):
        return [l for s in self.subs for l in s.leaves()]

    def nodes(self):
        return [self] + [n for s in self.subs for n in s.nodes()]

    def slots(self):
        return [x for s, l in zip(self.subs, self.liq) if l for x in s.slots()]

    def allslots(self):
        return [x for s in self.subs for x in s.allslots()]

    def pnames(self):
        r = []
        for i, (s, l) in enumerate(zip(self.subs, self.liq)):
            if not l:
                continue
            pre = self.label % i if self.label else (self.name(i) or 'param%i' % i)
            r += ['%s.%s' % (pre, n) for n in s.pnames()]
        return r

    def recurse(self, names, val):
        for i, s in enumerate(self.subs):
            s.recurse(names, val)
            if self.name(i) is not None and self.name(i) in names:
                self.liq[i] = val
        if '*' in names:
            self.liq = [val] * len(self.liq)

    def paths(self, names):
        hit = False
        for i, s in enumerate(self.subs):
            if s.paths(names):
                self.liq[i] = True
                hit = True
            if self.name(i) is not None and self.name(i) in names:
                self.liq[i] = True
                hit = True
        return hit


def val(rng):
    return float(rng.normal() * 10.**rng.integers(-2, 3))


def leaf(rng, kind=None):
    kind = kind or pick(rng, ['pl2', 'pl3', 'pl0', 'sp', 'pix', 'radec', 'ee', 'es', 'gs', 'flux',
                              'fluxes', 'nm', 'mags', 'sky', 'lin', 'magscal', 'arr', 'mog', 'gme'])
    if kind == 'pl2':
        return Leaf(PL2(val(rng), val(rng)), ['alpha', 'beta'], True)
    if kind == 'pl3':
        return Leaf(PL3(val(rng), val(rng), val(rng)), ['a', None, 'c'], True)
    if kind == 'pl0':
        n = int(rng.integers(0, 5))
        return Leaf(ParamList(*[val(rng) for i in range(n)]), [None] * n, True)
    if kind == 'sp':
        return Leaf(SP(val(rng)), ['SP'], False)
    if kind == 'pix':
        return Leaf(PixPos(val(rng), val(rng)), ['x', 'y'], True)
    if kind == 'radec':
        return Leaf(RaDecPos(rng.uniform(0, 360), rng.uniform(-80, 80)), ['ra', 'dec'], True)
    if kind == 'ee':
        return Leaf(EllipseE(abs(val(rng)) + .1, 0.1, -0.2), ['re', 'e1', 'e2'], True)
    if kind == 'es':
        return Leaf(EllipseESoft(0.3, 0.1, -0.2), ['logre', 'ee1', 'ee2'], True)
    if kind == 'gs':
        return Leaf(GalaxyShape(1., 0.5, 30.), ['re', 'ab', 'phi'], True)
    if kind == 'flux':
        return Leaf(Flux(val(rng)), ['Flux'], False)
    if kind in ('fluxes', 'nm', 'mags'):
        bands = zoo.sub_bands(rng)
        cls = dict(fluxes=Fluxes, nm=NanoMaggies, mags=Mags)[kind]
        if chance(rng, 0.5):
            return Leaf(cls(order=bands, **{b: abs(val(rng)) for b in bands}), bands, True)
        bands = sorted(bands)
        return Leaf(cls(**{b: abs(val(rng)) for b in bands}), bands, True)
    if kind == 'sky':
        return Leaf(ConstantSky(val(rng)), ['sky'], False)
    if kind == 'lin':
        return Leaf(LinearPhotoCal(val(rng)), ['LinearPhotoCal'], False)
    if kind == 'magscal':
        return Leaf(MagsPhotoCal('r', val(rng)), ['zp'], True)
    if kind == 'arr':
        sh = tuple(int(i) for i in rng.integers(1, 4, int(rng.integers(1, 3))))
        a = rng.normal(size=sh)
        return Leaf(NpArrayParams(a), [None] * a.size, True)
    K = int(rng.integers(1, 4))
    if kind == 'mog':
        names = ['amp%i' % k for k in range(K)]
        for k in range(K):
            names += ['meanx%i' % k, 'meany%i' % k]
        for k in range(K):
            names += ['varxx%i' % k, 'varyy%i' % k, 'varxy%i' % k]
        return Leaf(zoo.gm_psf(rng, K=K), names, True)
    if kind == 'gme':
        names = ['amp%i' % k for k in range(K)]
        for k in range(K):
            names += ['meanx%i' % k, 'meany%i' % k]
        for k in range(K):
            names += ['logr%i' % k, 'ee1-%i' % k, 'ee2-%i' % k]
        return Leaf(zoo.gme_psf(rng, K=K), names, True)
    raise KeyError(kind)


def generic(rng, depth):
    if depth == 0 or chance(rng, 0.3):
        return leaf(rng)
    t = pick(rng, ['2', '3', 'x'])
    n = dict(zip('23x', [2, 3, int(rng.integers(1, 5))]))[t]
    subs = [generic(rng, depth - 1) for i in range(n)]
    objs = [s.obj for s in subs]
    if t == '2':
        return Node(MP2(*objs), ['left', 'right'], subs)
    if t == '3':
        return Node(MP3(*objs), ['alpha', 'mid', 'a'], subs)
    return Node(MPX(*objs), [None] * n, subs)


def src_node(rng, pos=None):
    k = pick(rng, ['pt', 'exp', 'dev', 'fcomp', 'comp', 'ser', 'mov'])
    p = leaf(rng, pick(rng, ['pix', 'radec']))
    b = leaf(rng, pick(rng, ['flux', 'fluxes', 'nm', 'mags']))
    s = leaf(rng, pick(rng, ['ee', 'es', 'gs']))
    if k == 'pt':
        return Node(PointSource(p.obj, b.obj), ['pos', 'brightness'], [p, b])
    if k in ('exp', 'dev'):
        return Node((ExpGalaxy if k == 'exp' else DevGalaxy)(p.obj, b.obj, s.obj),
                    ['pos', 'brightness', 'shape'], [p, b, s])
    if k == 'fcomp':
        f = Leaf(FracDev(0.3), ['FracDev'], False)
        d = leaf(rng, pick(rng, ['ee', 'es', 'gs']))
        return Node(FixedCompositeGalaxy(p.obj, b.obj, f.obj, s.obj, d.obj),
                    ['pos', 'brightness', 'fracDev', 'shapeExp', 'shapeDev'], [p, b, f, s, d])
    if k == 'comp':
        b2 = leaf(rng, 'flux')
        d = leaf(rng, pick(rng, ['ee', 'es', 'gs']))
        return Node(CompositeGalaxy(p.obj, b.obj, s.obj, b2.obj, d.obj),
                    ['pos', 'brightnessExp', 'shapeExp', 'brightnessDev', 'shapeDev'],
                    [p, b, s, b2, d])
    if k == 'ser':
        n = Leaf(SersicIndex(2.5), ['SersicIndex'], False)
        return Node(SersicGalaxy(p.obj, b.obj, s.obj, n.obj),
                    ['pos', 'brightness', 'shape', 'sersicindex'], [p, b, s, n])
    p = leaf(rng, 'radec')
    pm = Leaf(PMRaDec(1e-5, 2e-5), ['pmra', 'pmdec'], True, alias=dict(ra=0, dec=1))
    src = MovingPointSource(p.obj, b.obj, pm.obj, 0.1, epoch=TAITime(0.))
    px = Leaf(src.parallax, ['Parallax'], False)
    return Node(src, ['pos', 'brightness', 'pm', 'parallax'], [p, b, pm, px])


def img_node(rng):
    subs = []
    k = pick(rng, ['mog', 'gme', 'nc'])
    if k == 'nc':
        obj = zoo.nc_psf(rng)
        n = len(obj.sigmas)
        psf = Node(obj, ['sigmas', 'weights'],
                   [Leaf(obj.sigmas, [None] * n, True), Leaf(obj.weights, [None] * n, True)])
    else:
        psf = leaf(rng, k)
    wcs = Leaf(NullWCS(), [], False)
    pc = leaf(rng, pick(rng, ['lin', 'magscal'])) if chance(rng, .7) else Leaf(NullPhotoCal(), [], False)
    sky = leaf(rng, 'sky') if chance(rng, .7) else Leaf(NullSky(), [], False)
    im = Image(data=np.zeros((5, 6)), inverr=np.ones((5, 6)), psf=psf.obj, wcs=wcs.obj,
               photocal=pc.obj, sky=sky.obj)
    return Node(im, ['psf', 'wcs', 'photocal', 'sky'], [psf, wcs, pc, sky])


def tractor_node(rng):
    ims = [img_node(rng) for i in range(int(rng.integers(0, 4)))]
    srcs = [src_node(rng) for i in range(int(rng.integers(0, 4)))]
    tr = Tractor([i.obj for i in ims], [s.obj for s in srcs])
    inode = Node(tr.images, [], ims, label='image%i')
    cnode = Node(tr.catalog, [], srcs, label='source%i')
    return Node(tr, ['images', 'catalog'], [inode, cnode])


# -------- comparison

def fl(x):
    return [float(v) for v in x]


def compare(m, node, what):
    o = node.obj
    t = type(o).__name__
    sl = node.slots()
    vals = [l.vals[i] for l, i in sl]
    n = len(sl)
    m.equal(o.numberOfParams(), n, 'count', '%s after %s: numberOfParams' % (t, what))
    m.equal(fl(o.getParams()), vals, 'getParams', '%s after %s' % (t, what))
    m.equal(list(o.getParamNames()), node.pnames(), 'names', '%s after %s' % (t, what))
    m.equal(fl(o.getAllParams()), [l.vals[i] for l, i in node.allslots()], 'getAllParams',
            '%s after %s' % (t, what))
    m.equal(fl(o.getStepSizes()), [l.steps[i] for l, i in sl], 'steps', '%s after %s' % (t, what))
    m.equal(list(o.getLowerBounds()), [l.lo[i] for l, i in sl], 'bounds', '%s lower after %s' % (t, what))
    m.equal(list(o.getUpperBounds()), [l.up[i] for l, i in sl], 'bounds', '%s upper after %s' % (t, what))
    m.equal(list(o.getMaxStep()), [l.mx[i] for l, i in sl], 'bounds', '%s maxstep after %s' % (t, what))
    m.equal(len(o.getAllStepSizes()), len(node.allslots()), 'steps', '%s allsteps after %s' % (t, what))
    if node.fz:
        th = [i for i, l in enumerate(node.liq) if l]
        fr = [i for i, l in enumerate(node.liq) if not l]
        m.equal(list(o.getThawedParamIndices()), th, 'thawed-idx', t)
        m.equal(list(o.getFrozenParamIndices()), fr, 'frozen-idx', t)
        m.equal([i for i, nm in o.getThawedParamIndicesAndNames()], th, 'thawed-idx', t)
        if isinstance(node, Leaf) and None not in node.names:
            m.equal(list(o.getThawedParams()), [node.names[i] for i in th], 'thawed-names', t)
            m.equal(list(o.getFrozenParams()), [node.names[i] for i in fr], 'frozen-names', t)
        for i, nm in enumerate(node.names):
            if i >= len(node.liq):
                break
            m.equal(o.getLiquidIndexOfIndex(i), th.index(i) if i in th else -1, 'liquid-index', t)
            if nm is None:
                continue
            m.equal(bool(o.isParamFrozen(nm)), i in fr, 'isParamFrozen', '%s.%s' % (t, nm))
            m.equal(bool(o.isParamThawed(nm)), i in th, 'isParamThawed', '%s.%s' % (t, nm))
            m.equal(o.getLiquidIndex(nm), th.index(i) if i in th else -1, 'liquid-index', '%s.%s' % (t, nm))
            m.equal(o.getNamedParamIndex(nm), i, 'named-index', '%s.%s' % (t, nm))
            if isinstance(node, Leaf):
                m.equal(float(getattr(o, nm)) if nm.isidentifier() else node.vals[i], node.vals[i],
                        'named-value', '%s.%s' % (t, nm))
            else:
                m.check(getattr(o, nm) is node.subs[i].obj, 'named-value', '%s.%s' % (t, nm))
        if isinstance(node, Leaf):
            m.equal(len(o), n, 'len', t)
            m.equal([float(v) for v in o], vals, 'iter', t)
            for k in range(n):
                m.equal(float(o[k]), vals[k], 'getitem', t)
    if n:
        m.event('thawed>0')
    if 0 < n < len(node.allslots()):
        m.event('partly frozen')


def sig(node):
    if isinstance(node, Leaf):
        return (type(node.obj).__name__, tuple(node.liq))
    return (type(node.obj).__name__, tuple(node.liq), tuple(sig(s) for s in node.subs))


NAMEPOOL = ['alpha', 'beta', 'a', 'c', 'left', 'right', 'mid', 'x', 'y', 'ra', 'dec', 're', 'e1', 'ee1',
            'logre', 'ab', 'phi', 'pos', 'brightness', 'shape', 'fracDev', 'shapeDev', 'psf', 'sky',
            'photocal', 'images', 'catalog', 'zp', 'sigmas', 'weights', 'amp0', 'r', 'g', 'i', 'pm', 'pmra',
            'nosuchname', 'varxx0', 'meany0', 'brightnessDev', 'wcs', 'sersicindex', 'parallax']


def step(m, rng, root):
    nodes = root.nodes()
    node = pick(rng, nodes)
    o = node.obj
    ops = ['setParam', 'setParams', 'setAll', 'roundtrip', 'steps', 'allsteps', 'badindex']
    if node.fz:
        ops += ['freeze', 'thaw', 'freeze', 'thaw', 'freezeIdx', 'thawIdx', 'freezeAll', 'thawAll', 'allBut',
                'frec', 'trec', 'frec', 'trec', 'paths']
    if isinstance(node, Node) and node.label == 'source%i':
        ops += ['append', 'remove', 'prepend', 'extend']
    op = pick(rng, ops)
    sl = node.slots()
    names = [n for i, n in enumerate(node.names) if n is not None and i < len(getattr(node, 'liq', []))]
    if op == 'setParam':
        if not sl:
            return op + '-none'
        i = int(rng.integers(len(sl)))
        l, j = sl[i]
        v = val(rng)
        old = o.setParam(i, v)
        m.equal(float(old), l.vals[j], 'setParam-old', type(o).__name__)
        l.vals[j] = v
    elif op == 'badindex':
        if isinstance(node, Node) and len(sl):
            before = list(o.getAllParams())
            try:
                o.setParam(len(sl), 1.)
            except Exception:
                pass
            m.equal(list(o.getAllParams()), before, 'out-of-range', 'setParam beyond the end changed a value')
    elif op == 'setParams':
        v = [val(rng) for s in sl]
        o.setParams(np.array(v) if chance(rng, .5) else v)
        for (l, j), x in zip(sl, v):
            l.vals[j] = x
    elif op == 'setAll':
        al = node.allslots()
        v = [val(rng) for s in al]
        o.setAllParams(v)
        for (l, j), x in zip(al, v):
            l.vals[j] = x
    elif op == 'roundtrip':
        p = o.getParams()
        o.setParams(p)
        p2 = o.getParams()
        # returned vector must be a copy
        if isinstance(p2, list) and len(p2):
            p2[0] = 1e99
    elif op == 'steps':
        v = [abs(val(rng)) + 1e-3 for s in sl]
        o.setStepSizes(list(v))
        for (l, j), x in zip(sl, v):
            l.steps[j] = x
    elif op == 'allsteps':
        al = node.allslots()
        v = [abs(val(rng)) + 1e-3 for s in al]
        o.setAllStepSizes(list(v))
        for (l, j), x in zip(al, v):
            l.steps[j] = x
    elif op in ('freeze', 'thaw'):
        if not names:
            return op + '-none'
        nm = pick(rng, names)
        if op == 'freeze':
            (o.freezeParam if chance(rng, .5) else o.freezeParams)(nm)
        else:
            pick(rng, [o.thawParam, o.thawParams, o.unfreezeParam])(nm)
        node.liq[node.names.index(nm)] = (op == 'thaw')
    elif op in ('freezeIdx', 'thawIdx'):
        if not node.liq:
            return op + '-none'
        i = int(rng.integers(len(node.liq)))
        (o.freezeParam if op == 'freezeIdx' else o.thawParam)(i)
        node.liq[i] = (op == 'thawIdx')
    elif op == 'freezeAll':
        o.freezeAllParams()
        node.liq = [False] * len(node.liq)
    elif op == 'thawAll':
        o.thawAllParams()
        node.liq = [True] * len(node.liq)
    elif op == 'allBut':
        if not names:
            return op + '-none'
        keep = [n for n in names if chance(rng, .4)]
        o.freezeAllBut(*keep)
        node.liq = [i < len(node.names) and node.names[i] in keep for i in range(len(node.liq))]
    elif op in ('frec', 'trec', 'paths'):
        nn = [pick(rng, NAMEPOOL) for i in range(int(rng.integers(1, 4)))]
        if chance(rng, .7) and op != 'paths':
            pass
        elif op != 'paths' and chance(rng, .4):
            nn.append('*')
        if op == 'paths':
            r = o.thawPathsTo(*nn)
            m.equal(bool(r), node.paths(nn), 'thawPathsTo', '%s(%s)' % (type(o).__name__, nn))
        elif op == 'frec':
            o.freezeParamsRecursive(*nn)
            node.recurse(nn, False)
        else:
            o.thawParamsRecursive(*nn)
            node.recurse(nn, True)
        op = op + ':' + ','.join(nn)
    elif op in ('append', 'prepend', 'extend'):
        if len(node.subs) > 6:
            return op + '-none'
        s = src_node(rng)
        if op == 'append':
            o.append(s.obj)
            node.subs.append(s)
            node.liq.append(True)
        elif op == 'prepend':
            o.prepend(s.obj)
            node.subs.insert(0, s)
            node.liq.insert(0, True)
        else:
            s2 = src_node(rng)
            o.extend([s.obj, s2.obj])
            node.subs += [s, s2]
            node.liq += [True, True]
    elif op == 'remove':
        if not node.subs:
            return op + '-none'
        i = int(rng.integers(len(node.subs)))
        o.remove(node.subs[i].obj)
        del node.subs[i], node.liq[i]
    return op


def run(m, rng, root, nops):
    compare(m, root, 'construction')
    m.sample(tree=sig(root))
    for k in range(nops):
        op = step(m, rng, root)
        m.op(op)
        m.event('op')
        for n in ([root] if chance(rng, .5) else root.nodes()):
            compare(m, n, op)
        s = sig(root)
        if root.slots() or 'f' in op:
            m.state(s, op.split(':')[0])


def generic_history(m, rng):
    run(m, rng, generic(rng, int(rng.integers(0, 4))), 30)


def source_history(m, rng):
    run(m, rng, src_node(rng), 30)


def tractor_history(m, rng):
    run(m, rng, tractor_node(rng), 40)


def leaf_history(m, rng):
    run(m, rng, leaf(rng), 30)


def state_report(m, rng):
    """Whole-tree freeze report agrees with the vector interface."""
    root = pick(rng, [lambda: src_node(rng), lambda: tractor_node(rng),
                      lambda: generic(rng, 2)])()
    for k in range(12):
        m.op(step(m, rng, root))
    o = root.obj
    if not hasattr(o, 'getParamStateRecursive'):
        import monitor
        raise monitor.Skip()
    rep = o.getParamStateRecursive()

    def expect(node, pre, up):
        r = []
        if isinstance(node, Leaf):
            for i in range(len(node.vals)):
                nm = node.names[i] if node.names[i] is not None else 'param%i' % i
                if node.fz:
                    r.append((pre + nm, bool(node.liq[i]), bool(node.liq[i]) and up))
                else:
                    r.append((pre + nm, True, up))
            return r
        for i, s in enumerate(node.subs):
            nm = node.label % i if node.label else (node.name(i) or 'param%i' % i)
            r.append((pre + nm, bool(node.liq[i]), None))
            r += expect(s, pre + nm + '.', up and node.liq[i])
        return r
    exp = expect(root, '', True)
    m.equal([(a, bool(b)) for a, b, c in rep], [(a, b) for a, b, c in exp], 'state-report', 'names and own flags')
    got = [bool(c) for (a, b, c), e in zip(rep, exp) if e[2] is not None]
    m.equal(got, [bool(c) for a, b, c in exp if c is not None], 'state-report', 'effective flags')
    m.equal(sum(got), o.numberOfParams(), 'state-report', 'count of effectively thawed parameters')
    m.state(sig(root))


def wrapped(m, rng):
    """A calibration wrapped for a cutout or a rescaled image exposes the parameters of what it wraps, alone and inside an image."""
    from tractor import TanWcs, GaussianMixturePSF
    from tractor.shifted import ShiftedPsf, ShiftedWcs, ScaledWcs, ScaledPhotoCal
    k = pick(rng, ['psf', 'psf', 'wcs', 'swcs', 'cal', 'cal'])
    if k == 'psf':
        real = zoo.psf(rng, pick(rng, ['gm', 'nc', 'gme']))
        w = ShiftedPsf(real, int(rng.integers(-20, 20)), int(rng.integers(-20, 20)))
        slot = 'psf'
    elif k in ('wcs', 'swcs'):
        real = TanWcs(zoo.tan_wcs(rng, 40, 40))
        w = ShiftedWcs(real, 3, 5) if k == 'wcs' else ScaledWcs(real, 2.)
        slot = 'wcs'
    else:
        real = LinearPhotoCal(float(rng.uniform(0.5, 2.))) if chance(rng, 0.5) else MagsPhotoCal('r', float(rng.uniform(20, 25)))
        w = ScaledPhotoCal(real, float(rng.uniform(0.5, 3.)))
        slot = 'photocal'
    if chance(rng, 0.4) and hasattr(real, 'addGaussianPrior'):
        nm = real.getParamNames()[0]
        if '.' not in nm:
            real.addGaussianPrior(nm, float(rng.normal()), float(rng.uniform(0.5, 2.)))
            m.event('wrapped prior')
    H = W = 12
    img = Image(np.zeros((H, W)), inverr=np.ones((H, W)), psf=w if slot == 'psf' else zoo.psf(rng, 'gm'),
                wcs=w if slot == 'wcs' else NullWCS(), sky=ConstantSky(0.), photocal=w if slot == 'photocal' else LinearPhotoCal(1.))
    img.freezeAllBut(slot)
    steps0 = dict(zip(real.getParamNames(), map(float, real.getStepSizes())))
    for step in range(int(rng.integers(3, 9))):
        op = pick(rng, ['freeze', 'thaw', 'set', 'setone', 'imgset', 'bulk', 'own'])
        m.op('wrapped ' + op)
        for nm, st in zip(real.getParamNames(), real.getStepSizes()):
            if nm not in steps0 or nm.startswith('param'):
                continue        # without a name of its own
            # (steps may follow the pixel scale)
            m.close(float(st), steps0[nm], 'wrapped-steps', 'the step size of %s whatever else is frozen' % nm, rtol=0.5, atol=0)
        n = real.numberOfParams()
        names = list(real.getParamNames())
        vals = list(map(float, real.getParams()))
        if op == 'freeze' and n > 1:
            nm = pick(rng, names)
            if '.' in nm:
                real.freezeParamsRecursive(nm.split('.')[0])
            else:
                real.freezeParam(pick(rng, list(real.getThawedParamIndices())))
        elif op == 'thaw':
            f = getattr(real, 'thawAllRecursive', None) or getattr(real, 'thawAllParams', None)
            f and f()
        elif op in ('set', 'imgset', 'own') and n:
            new = [v * (1 + 0.01 * float(rng.uniform(0.1, 1.))) + (0 if v else 1e-3) for v in vals]
            {'set': w, 'imgset': img, 'own': real}[op].setParams(new)
            m.close(list(map(float, real.getParams())), new, 'wrapped', 'values set through the wrapper reach what it wraps', rtol=1e-9)
        elif op == 'setone' and n:
            i = int(rng.integers(n))
            v = vals[i] * 1.01 + (0 if vals[i] else 1e-3)
            old = (w if chance(rng, 0.5) else img).setParam(i, v)
            m.close(float(old), vals[i], 'wrapped', 'the old value is reported', rtol=1e-9)
            want = list(vals)
            want[i] = v
            m.close(list(map(float, real.getParams())), want, 'wrapped', 'exactly the addressed parameter is set through the wrapper', rtol=1e-9)
        for o in (w, img):
            m.equal(int(o.numberOfParams()), int(real.numberOfParams()), 'wrapped', 'parameter count')
            m.equal(list(map(float, o.getParams())), list(map(float, real.getParams())), 'wrapped', 'parameter values')
            pre = (slot + '.') if o is img else ''
            m.equal(list(o.getParamNames()), [pre + x for x in real.getParamNames()], 'wrapped', 'parameter names')
            m.equal(list(o.getStepSizes()), list(real.getStepSizes()), 'wrapped', 'step sizes')
            m.equal(list(o.getLowerBounds()), list(real.getLowerBounds()), 'wrapped', 'lower bounds')
            m.equal(list(o.getUpperBounds()), list(real.getUpperBounds()), 'wrapped', 'upper bounds')
            m.equal(list(o.getMaxStep()), list(real.getMaxStep()), 'wrapped', 'maximum steps')
            m.close(float(o.getLogPrior()), float(real.getLogPrior()), 'wrapped', 'log-prior', rtol=1e-12)
        m.event('wrapped')
        m.state('wrapped', k, type(real).__name__, tuple(names), op)


def catalog_history(m, rng):
    """Sources and images added, removed and replaced while some of them are frozen."""
    ims = [img_node(rng) for i in range(int(rng.integers(1, 4)))]
    srcs = [src_node(rng) for i in range(int(rng.integers(2, 6)))]
    tr = Tractor([i.obj for i in ims], [s.obj for s in srcs])
    inode = Node(tr.images, [], ims, label='image%i')
    cnode = Node(tr.catalog, [], srcs, label='source%i')
    root = Node(tr, ['images', 'catalog'], [inode, cnode])
    for k in range(25):
        node, o, make = (cnode, tr.catalog, src_node) if chance(rng, 0.7) else (inode, tr.images, img_node)
        cat = node is cnode
        op = pick(rng, ['freeze', 'thaw', 'freeze', 'thaw', 'append', 'prepend', 'extend', 'remove', 'remove', 'replace', 'set', 'setall'])
        if op in ('append', 'prepend', 'extend') and len(node.subs) > 6 or op in ('freeze', 'thaw', 'remove', 'replace') and not node.subs:
            continue
        i = int(rng.integers(len(node.subs))) if node.subs else 0
        if op in ('freeze', 'thaw'):
            if op == 'freeze':
                o.freezeParam(i)
            else:
                # by index or by the object itself
                (o.thawParam if chance(rng, 0.5) else o.thawParams)(i if chance(rng, 0.5) else node.subs[i].obj)
            node.liq[i] = (op == 'thaw')
        elif op == 'append':
            s = make(rng)
            pick(rng, [o.append, tr.addSource if cat else tr.addImage])(s.obj)
            node.subs.append(s)
            node.liq.append(True)
        elif op == 'prepend':
            s = make(rng)
            o.prepend(s.obj)
            node.subs.insert(0, s)
            node.liq.insert(0, True)
        elif op == 'extend':
            ss = [make(rng) for j in range(int(rng.integers(0, 3)))]
            pick(rng, [o.extend, tr.addSources if cat else o.extend])([s.obj for s in ss])
            node.subs += ss
            node.liq += [True] * len(ss)
        elif op == 'remove':
            pick(rng, [o.remove, tr.removeSource if cat else o.remove])(node.subs[i].obj)
            del node.subs[i], node.liq[i]
        elif op == 'replace':
            s = make(rng)
            o[i] = s.obj
            node.subs[i] = s
        else:
            sl = root.slots()
            if not sl:
                continue
            if op == 'set':
                j = int(rng.integers(len(sl)))
                l, jj = sl[j]
                v = val(rng)
                m.equal(float(tr.setParam(j, v)), l.vals[jj], 'setParam-old', 'Tractor')
                l.vals[jj] = v
            else:
                vs = [val(rng) for x in sl]
                tr.setParams(vs)
                for (l, jj), v in zip(sl, vs):
                    l.vals[jj] = v
        m.op(op, cat)
        m.event('catalog edited')
        for n in (root, inode, cnode):
            compare(m, n, 'catalog ' + op)
        for n, oo in ((inode, tr.images), (cnode, tr.catalog)):
            m.check(len(oo) == len(n.subs) and all(a is b.obj for a, b in zip(oo, n.subs)), 'members', 'members after %s' % op)
            m.check(all(oo[j] is b.obj and oo.index(b.obj) == j for j, b in enumerate(n.subs)), 'members', 'indexing after %s' % op)
        m.check([id(x) for x in tr.catalog.getThawedSources()] == [id(n.obj) for n, l in zip(cnode.subs, cnode.liq) if l], 'members', 'thawed sources')
        m.check([id(x) for x in tr.catalog.getFrozenSources()] == [id(n.obj) for n, l in zip(cnode.subs, cnode.liq) if not l], 'members', 'frozen sources')
        m.state('catalog', op, tuple(cnode.liq), tuple(inode.liq), root.slots() and len(root.slots()))


SCENARIOS = dict(
    catalog_history=(catalog_history, 60, 2000),
    wrapped=(wrapped, 60, 1000),
    generic_history=(generic_history, 250, 6000),
    source_history=(source_history, 200, 4000),
    tractor_history=(tractor_history, 150, 3000),
    leaf_history=(leaf_history, 250, 4000),
    state_report=(state_report, 150, 2000),
)
QUICK = 3
