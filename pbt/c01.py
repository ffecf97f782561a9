"""C01: the flat parameter vector mirrors the thawed part of the tree, for every
history of freeze/thaw/set/append/remove operations."""
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close
from .gen import fl, pick, lst
from .ptree import (Z, S, L, M, freeze_rec, thaw_rec, thaw_paths, check_node, check_list, same)

PROP = 'C01'
RULE = ('A case is a parameter tree (a bare list, a source, a catalog, an image, a tractor or a nested group) '
        'plus a history of up to 14 freeze/thaw/set/append/remove/step/bound operations addressed to any node; '
        'after every operation every node of the tree is compared with an explicit reference model. '
        'Non-trivial: at some point the vector was a strict, non-empty subset of all parameters and a value was '
        'written through a vector view while something was frozen.')
ASSUMPTIONS = ['children of groups are never None']

# ------------------------------------------------------------ leaves

LEAVES = ('pixpos', 'radec', 'flux', 'mag', 'mags', 'fluxes', 'nmgy', 'elle', 'esoft', 'galshape', 'sersicn',
          'frac', 'softfrac', 'magscal', 'lincal', 'nullcal', 'fluxcal', 'csky', 'nullsky', 'nullwcs', 'fitswcs',
          'nparr', 'mog', 'mogell', 'plist', 'scalar', 'ncirc', 'pix', 'spline')


def leaf_spec():
    return st.fixed_dictionaries(dict(t=pick(*LEAVES), v=lst(fl(0.1, 3., 2), 12),
                                      k=st.integers(1, 3), perm=st.integers(0, 5)))


ORDERS = [('g', 'r', 'z'), ('g', 'z', 'r'), ('r', 'g', 'z'), ('r', 'z', 'g'), ('z', 'g', 'r'), ('z', 'r', 'g')]


def make_leaf(s):
    import tractor.basics as B
    from tractor.utils import ParamList, ScalarParam, NpArrayParams
    from tractor.ellipses import EllipseE, EllipseESoft
    from tractor.galaxy import GalaxyShape, FracDev, SoftenedFracDev
    from tractor.sersic import SersicIndex
    from tractor.psf import (NCircularGaussianPSF, GaussianMixturePSF, GaussianMixtureEllipsePSF, PixelizedPSF)
    t, v, k = s['t'], s['v'], s['k']
    o = list(ORDERS[s['perm']])
    if t == 'pixpos':
        return L(B.PixPos(v[0], v[1]), ['x', 'y'], v[:2])
    if t == 'radec':
        return L(B.RaDecPos(v[0], v[1]), ['ra', 'dec'], v[:2])
    if t == 'flux':
        return S(B.Flux(v[0]), 'Flux', v[0])
    if t == 'mag':
        return S(B.Mag(v[0]), 'Mag', v[0])
    if t in ('mags', 'fluxes', 'nmgy'):
        c = dict(mags=B.Mags, fluxes=B.Fluxes, nmgy=B.NanoMaggies)[t]
        return L(c(order=list(o), **dict(zip(o, v))), o, v[:3])
    if t == 'elle':
        return L(EllipseE(v[0], v[1] / 5., -v[2] / 5.), ['re', 'e1', 'e2'], [v[0], v[1] / 5., -v[2] / 5.])
    if t == 'esoft':
        return L(EllipseESoft(v[0], v[1], -v[2]), ['logre', 'ee1', 'ee2'], [v[0], v[1], -v[2]])
    if t == 'galshape':
        return L(GalaxyShape(v[0], v[1], v[2]), ['re', 'ab', 'phi'], v[:3])
    if t == 'sersicn':
        return S(SersicIndex(v[0]), 'SersicIndex', v[0])
    if t == 'frac':
        return S(FracDev(v[0]), 'FracDev', v[0])
    if t == 'softfrac':
        return S(SoftenedFracDev(v[0]), 'SoftenedFracDev', v[0])
    if t == 'magscal':
        return L(B.MagsPhotoCal('r', 20. + v[0]), ['zp'], [20. + v[0]])
    if t == 'lincal':
        return S(B.LinearPhotoCal(v[0], band='r'), 'LinearPhotoCal', v[0])
    if t == 'nullcal':
        return Z(B.NullPhotoCal())
    if t == 'fluxcal':
        return Z(B.FluxesPhotoCal('r'))
    if t == 'csky':
        return S(B.ConstantSky(v[0]), 'sky', v[0])
    if t == 'nullsky':
        return Z(B.NullSky())
    if t == 'nullwcs':
        return Z(B.NullWCS())
    if t == 'fitswcs':
        return Z(gen.build_wcs(dict(t='fits', ra=10., dec=v[0], pixscale=1., rot=0., flip=False, cx=1., cy=1., x0=0, y0=0)))
    if t == 'nparr':
        a = np.array(v[:2 * k]).reshape(2, k)
        return L(NpArrayParams(a), [None] * (2 * k), v[:2 * k])
    if t == 'mog':
        k = min(k, 2)
        amp = np.array(v[:k])
        mean = np.array(v[2:2 + 2 * k]).reshape(k, 2)
        var = np.array([[[1. + v[6 + i], 0.1 * v[8 + i]], [0.1 * v[8 + i], 2. + v[10 + i]]] for i in range(k)])
        nm = (['amp%i' % i for i in range(k)] + sum([['meanx%i' % i, 'meany%i' % i] for i in range(k)], []) +
              sum([['varxx%i' % i, 'varyy%i' % i, 'varxy%i' % i] for i in range(k)], []))
        vals = list(amp) + list(mean.ravel()) + sum([[x[0, 0], x[1, 1], x[0, 1]] for x in var], [])
        return L(GaussianMixturePSF(amp, mean, var), nm, vals)
    if t == 'mogell':
        k = min(k, 2)
        amp = np.array(v[:k])
        mean = np.array(v[2:2 + 2 * k]).reshape(k, 2)
        ell = [[v[6 + i], v[8 + i] / 5., v[10 + i] / 5.] for i in range(k)]
        nm = (['amp%i' % i for i in range(k)] + sum([['meanx%i' % i, 'meany%i' % i] for i in range(k)], []) +
              sum([['logr%i' % i, 'ee1-%i' % i, 'ee2-%i' % i] for i in range(k)], []))
        vals = list(amp) + list(mean.ravel()) + sum(ell, [])
        return L(GaussianMixtureEllipsePSF(amp, mean, [EllipseESoft(*e) for e in ell]), nm, vals)
    if t == 'plist':
        return L(ParamList(*v[:k + 1]), [None] * (k + 1), v[:k + 1])
    if t == 'scalar':
        return S(ScalarParam(v[0]), 'ScalarParam', v[0])
    if t == 'ncirc':
        p = NCircularGaussianPSF(v[:k], v[4:4 + k])
        return M(p, ['sigmas', 'weights'], [L(p.sigmas, [None] * k, v[:k]), L(p.weights, [None] * k, v[4:4 + k])])
    if t == 'none':
        return Z(None)
    if t == 'pix':
        return Z(PixelizedPSF(np.ones((3, 3))))
    if t == 'spline':
        from tractor.splinesky import SplineSky
        X, Y = np.array([0., 10., 20., 30.]), np.array([0., 10., 20., 30.])
        bg = np.array((v + v)[:16]).reshape(4, 4)
        sky = SplineSky(X, Y, bg)
        return L(sky, [None] * sky.numberOfParams(), list(sky.getParams()))
    raise ValueError(t)


def mk(t, v, k=2, perm=0):
    return make_leaf(dict(t=t, v=v, k=k, perm=perm))


SRC = ('ptsrc', 'gauss', 'exp', 'dev', 'sersic', 'comp', 'fcomp', 'devcore', 'sercore', 'csb', 'moving')


def src_spec():
    return st.fixed_dictionaries(dict(t=pick(*SRC), pos=pick('pixpos', 'radec'),
                                      b=pick('flux', 'mag', 'mags', 'nmgy'), sh=pick('elle', 'esoft', 'galshape'),
                                      v=lst(fl(0.1, 3., 2), 12)))


def make_src(s):
    from tractor.pointsource import PointSource
    from tractor.galaxy import GaussianGalaxy, ExpGalaxy, DevGalaxy, CompositeGalaxy, FixedCompositeGalaxy
    from tractor.sersic import SersicGalaxy
    from tractor.devcore import DevCoreGalaxy
    from tractor.sercore import SersicCoreGalaxy
    from tractor.basics import ConstantSurfaceBrightness
    from tractor.motion import MovingPointSource, PMRaDec, Parallax
    v, t = s['v'], s['t']
    pos = mk('radec' if t == 'moving' else s['pos'], v)
    b, b2 = mk(s['b'], v[2:]), mk(s['b'], v[5:])
    sh, sh2 = mk(s['sh'], v[3:]), mk(s['sh'], v[6:])
    n = mk('sersicn', v[4:])
    fr = mk('frac', v[1:])

    def m(cls, names, kids):
        return M(cls(*[k.real for k in kids]), names, kids)
    if t == 'ptsrc':
        return m(PointSource, ['pos', 'brightness'], [pos, b])
    if t in ('gauss', 'exp', 'dev'):
        return m(dict(gauss=GaussianGalaxy, exp=ExpGalaxy, dev=DevGalaxy)[t], ['pos', 'brightness', 'shape'], [pos, b, sh])
    if t == 'sersic':
        return m(SersicGalaxy, ['pos', 'brightness', 'shape', 'sersicindex'], [pos, b, sh, n])
    if t == 'comp':
        return m(CompositeGalaxy, ['pos', 'brightnessExp', 'shapeExp', 'brightnessDev', 'shapeDev'], [pos, b, sh, b2, sh2])
    if t == 'fcomp':
        return m(FixedCompositeGalaxy, ['pos', 'brightness', 'fracDev', 'shapeExp', 'shapeDev'], [pos, b, fr, sh, sh2])
    if t == 'devcore':
        return m(DevCoreGalaxy, ['pos', 'brightnessDev', 'shapeDev', 'brightnessPsf'], [pos, b, sh, b2])
    if t == 'sercore':
        return m(SersicCoreGalaxy, ['pos', 'brightness', 'shape', 'sersicindex', 'brightnessPsf'], [pos, b, sh, n, b2])
    if t == 'csb':
        return m(ConstantSurfaceBrightness, ['brightness'], [b])
    if t == 'moving':
        pm = L(PMRaDec(v[7], v[8]), ['pmra', 'pmdec'], v[7:9], aliases=dict(ra=0, dec=1))
        r = MovingPointSource(pos.real, b.real, pm.real, v[9])
        pl = S(r.parallax, 'Parallax', v[9])
        return M(r, ['pos', 'brightness', 'pm', 'parallax'], [pos, b, pm, pl])
    raise ValueError(t)


def img_spec():
    return st.fixed_dictionaries(dict(psf=pick('ncirc', 'mog', 'mogell', 'pix', 'none'), wcs=pick('nullwcs', 'fitswcs'),
                                      pc=pick('magscal', 'lincal', 'nullcal', 'fluxcal'),
                                      sky=pick('csky', 'nullsky', 'spline'), v=lst(fl(0.1, 3., 2), 12)))


def make_img(s):
    from tractor.image import Image
    v = s['v']
    kids = [mk(s['psf'], v), mk(s['wcs'], v), mk(s['pc'], v), mk(s['sky'], v)]
    im = Image(data=np.zeros((4, 4)), inverr=np.ones((4, 4)), psf=kids[0].real, wcs=kids[1].real,
               photocal=kids[2].real, sky=kids[3].real)
    return M(im, ['psf', 'wcs', 'photocal', 'sky'], kids)


def tree_spec():
    return st.one_of(
        st.fixed_dictionaries(dict(t=st.just('leaf'), leaf=leaf_spec())),
        st.fixed_dictionaries(dict(t=st.just('src'), src=src_spec())),
        st.fixed_dictionaries(dict(t=st.just('cat'), srcs=lst(src_spec(), 1, 3))),
        st.fixed_dictionaries(dict(t=st.just('tractor'), ims=lst(img_spec(), 1, 2), srcs=lst(src_spec(), 1, 3))),
        st.fixed_dictionaries(dict(t=st.just('group'), kids=lst(leaf_spec(), 1, 3), inner=lst(leaf_spec(), 1, 2), none=st.integers(-6, 3))))


def make_tree(s):
    from tractor.engine import Catalog, Images, Tractor
    from tractor.utils import MultiParams
    t = s['t']
    if t == 'leaf':
        return make_leaf(s['leaf'])
    if t == 'src':
        return make_src(s['src'])
    if t == 'group':
        inner = [make_leaf(x) for x in s['inner']]
        kids = [make_leaf(x) for x in s['kids']]
        im = M(MultiParams(*[k.real for k in inner]), None, inner)
        kids.insert(len(kids) // 2, im)
        if s.get('none', -1) >= 0:
            kids.insert(s['none'] % (len(kids) + 1), Z(None))
        return M(MultiParams(*[k.real for k in kids]), None, kids)
    srcs = [make_src(x) for x in s['srcs']]
    cat = M(Catalog(*[k.real for k in srcs]), None, srcs, prefix='source')
    if t == 'cat':
        return cat
    ims = [make_img(x) for x in s['ims']]
    images = M(Images(*[k.real for k in ims]), None, ims, prefix='image')
    tr = Tractor(images.real, cat.real)
    return M(tr, ['images', 'catalog'], [images, cat])


NAMES = ['pos', 'x', 'y', 'ra', 'dec', 'brightness', 'g', 'r', 'z', 'shape', 're', 'e1', 'e2', 'ee1', 'logre', 'ab',
         'sersicindex', 'fracDev', 'shapeDev', 'shapeExp', 'brightnessPsf', 'brightnessDev', 'psf', 'wcs', 'photocal',
         'sky', 'sigmas', 'weights', 'amp0', 'varxy0', 'zp', 'images', 'catalog', 'pm', 'parallax', 'pmra', '*', 'nosuch']

FREEZE = ('freeze', 'freeze', 'freeze', 'thaw', 'freezeAll', 'thawAll', 'allbut', 'allRec')
SET = ('setParams', 'setParams', 'setParam', 'setAll', 'attr', 'replace', 'steps', 'allsteps', 'bounds')


def op_spec():
    v = lst(fl(0.1, 3., 2), 4)
    return st.one_of(
        st.fixed_dictionaries(dict(op=pick(*FREEZE), node=st.integers(0, 15), i=st.integers(0, 6), how=st.integers(0, 2))),
        st.fixed_dictionaries(dict(op=pick('freezeRec', 'thawRec', 'paths'), node=st.integers(0, 15), how=st.integers(0, 2),
                                   names=lst(pick(*NAMES), 1, 3))),
        st.fixed_dictionaries(dict(op=pick(*SET), node=st.integers(0, 15), i=st.integers(0, 9), v=v, how=st.integers(0, 2))),
        st.fixed_dictionaries(dict(op=pick(*SET), node=st.integers(0, 3), i=st.integers(0, 9), v=v, how=st.integers(0, 2))),
        st.fixed_dictionaries(dict(op=pick('append', 'prepend', 'extend', 'remove'), node=st.integers(0, 15), i=st.integers(0, 3),
                                   src=src_spec(), v=v, how=st.integers(0, 2))))


case_strategy = st.fixed_dictionaries(dict(tree=tree_spec(), ops=lst(op_spec(), 3, 14)))


def values(v, n):
    return [v[i % len(v)] + 0.01 * (i // len(v)) for i in range(n)]


def settable(node, e):
    # ellipse components must stay inside the unit disc for the value to be
    # representable; the values we write are always fine for everything else
    return True


def apply(root, op, ctx):
    nodes = [n for n in root.walk() if n.real is not None]
    o = op['op']
    if o in ('append', 'prepend', 'extend', 'remove'):
        cats = [n for n in nodes if isinstance(n, M) and type(n.real).__name__ == 'Catalog']
        if not cats:
            return
        node = cats[op['node'] % len(cats)]
        r = node.real
        tr = root.real if hasattr(root.real, 'addSource') else None
        if o == 'remove':
            if not node.kids:
                return
            i = op['i'] % len(node.kids)
            k = node.kids[i]
            if tr is not None and op['how'] == 1:
                tr.removeSource(k.real)
            else:
                r.remove(k.real)
            del node.kids[i]
            del node.liquid[i]
            ctx.tag('remove')
            return
        new = make_src(op['src'])
        if o == 'append':
            if tr is not None and op['how'] == 1:
                tr.addSource(new.real)
            else:
                r.append(new.real)
            node.kids.append(new)
            node.liquid.append(True)
        elif o == 'prepend':
            r.prepend(new.real)
            node.kids.insert(0, new)
            node.liquid.insert(0, True)
        else:
            news = [new, make_src(dict(op['src'], v=values(op['v'], 12))), make_src(op['src'])][:op['i']]
            if tr is not None and op['how'] == 1:
                tr.addSources([x.real for x in news])
            else:
                r.extend([x.real for x in news])
            node.kids.extend(news)
            node.liquid.extend([True] * len(news))
        ctx.tag(o)
        return
    if o in ('freeze', 'thaw', 'freezeAll', 'thawAll', 'allbut', 'freezeRec', 'thawRec', 'paths', 'allRec'):
        cand = [n for n in nodes if isinstance(n, (L, M))]
    elif o in ('attr',):
        cand = [n for n in nodes if isinstance(n, L) and any(x is not None and x.isidentifier() for x in n.names)]
    elif o == 'replace':
        cand = [n for n in nodes if isinstance(n, M) and n.names is not None and any(isinstance(k, (L, S)) for k in n.kids)
                and not hasattr(n.real, 'mysigmas')]
    elif o == 'bounds':
        cand = [n for n in nodes if isinstance(n, (L, S))]
    else:
        cand = nodes
    if not cand:
        return
    node = cand[op['node'] % len(cand)]
    r = node.real
    ctx.tag(o)
    if o in ('freeze', 'thaw'):
        if node.n() == 0:
            return
        i = op['i'] % node.n()
        key = i
        if op['how'] and node.names is not None and node.names[i] is not None:
            key = node.names[i]
        f = {('freeze', 0): r.freezeParam, ('freeze', 1): r.freezeParam, ('freeze', 2): r.freezeParams,
             ('thaw', 0): r.thawParam, ('thaw', 1): r.unfreezeParam, ('thaw', 2): r.thawParams}[(o, op['how'])]
        f(key)
        node.liquid[i] = (o == 'thaw')
    elif o == 'freezeAll':
        r.freezeAllParams()
        node.liquid = [False] * node.n()
    elif o == 'thawAll':
        (r.thawAllParams if op['how'] else r.unfreezeAllParams)()
        node.liquid = [True] * node.n()
    elif o == 'allbut':
        if node.n() == 0:
            return
        ii = sorted(set([op['i'] % node.n(), (op['i'] * 7 + op['how']) % node.n()]))
        keys = [node.names[i] if (node.names is not None and node.names[i] is not None) else i for i in ii]
        r.freezeAllBut(*keys)
        node.liquid = [i in ii for i in range(node.n())]
    elif o == 'freezeRec':
        r.freezeParamsRecursive(*op['names'])
        freeze_rec(node, op['names'])
    elif o == 'thawRec':
        r.thawParamsRecursive(*op['names'])
        thaw_rec(node, op['names'])
    elif o == 'allRec':
        if not isinstance(node, M):
            return
        if op['how']:
            r.thawAllRecursive()
            thaw_rec(node, ['*'])
        else:
            r.freezeAllRecursive()
            freeze_rec(node, ['*'])
    elif o == 'paths':
        names = [n for n in op['names'] if n != '*']
        got = r.thawPathsTo(*names)
        want = thaw_paths(node, names)
        require(bool(got) == want, lambda: 'thawPathsTo(%s) on %s returned %r, expected %r' %
                (names, type(r).__name__, got, want))
    elif o == 'setParams':
        es = node.entries(True)
        v = values(op['v'], len(es))
        r.setParams(v)
        for e, x in zip(es, v):
            e['val'] = x
        if 0 < len(es) < len(node.entries(False)):
            ctx.nt()
            ctx.tag('set-through-partial-view')
    elif o == 'setParam':
        es = node.entries(True)
        if not es:
            return
        i = op['i'] % len(es)
        old = r.setParam(i, op['v'][0])
        require(same(old, es[i]['val']), lambda: '%s.setParam(%d) returned %r, the old value was %r' %
                (type(r).__name__, i, old, es[i]['val']))
        es[i]['val'] = op['v'][0]
        if len(es) < len(node.entries(False)):
            ctx.nt()
    elif o == 'setAll':
        es = node.entries(False)
        v = values(op['v'], len(es))
        r.setAllParams(v)
        for e, x in zip(es, v):
            e['val'] = x
    elif o == 'attr':
        named = [i for i, n in enumerate(node.names) if n is not None and n.isidentifier()]
        i = named[op['i'] % len(named)]
        setattr(r, node.names[i], op['v'][0])
        node.es[i]['val'] = op['v'][0]
    elif o == 'replace':
        ii = [i for i, k in enumerate(node.kids) if isinstance(k, (L, S))]
        i = ii[op['i'] % len(ii)]
        new = make_leaf(dict(t=pick_leaf(op['how']), v=values(op['v'], 12), k=2, perm=0))
        setattr(r, node.names[i], new.real)
        node.kids[i] = new
    elif o == 'steps':
        es = node.entries(True)
        v = values(op['v'], len(es))
        r.setStepSizes(v)
        for e, x in zip(es, v):
            e['step'] = x
        if 0 < len(es) < len(node.entries(False)):
            ctx.tag('steps-partial')
    elif o == 'allsteps':
        es = node.entries(False)
        v = values(op['v'], len(es))
        r.setAllStepSizes(v)
        for e, x in zip(es, v):
            e['step'] = x
    elif o == 'bounds':
        if isinstance(node, S):
            r.lower, r.upper, r.maxstep = -op['v'][0], op['v'][1], op['v'][2]
            node.e.update(lower=-op['v'][0], upper=op['v'][1], maxstep=op['v'][2])
        else:
            v = values(op['v'], node.n())
            r.lowers = [-x for x in v]
            r.uppers = [x + 5. for x in v]
            r.maxstep = [x + 0.5 for x in v]
            for e, x in zip(node.es, v):
                e.update(lower=-x, upper=x + 5., maxstep=x + 0.5)


def pick_leaf(how):
    return ['pixpos', 'flux', 'nmgy'][how]


def check(case, ctx):
    root = make_tree(case['tree'])
    ctx.tag('tree:' + case['tree']['t'])
    for n in root.walk():
        check_node(n)
    for op in case['ops']:
        apply(root, op, ctx)
        for n in root.walk():
            check_node(n)
    # a full write through the vector is read back exactly, and writing what
    # was read changes nothing
    r = root.real
    p = list(r.getParams())
    r.setParams(p)
    check_list(r.getParams(), p, 'setParams(getParams())')
    for n in root.walk():
        check_node(n)


SUBS = [Sub('history', case_strategy, check, quick=1600, thorough=40000, shards=8,
            doc='random operation histories on a parameter tree vs a reference model')]
