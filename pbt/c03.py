"""C03: copies and pickles are faithful, and independent of the original."""
import copy as copymod
import pickle
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close, Skip
from .gen import fl, pick, lst
from .c11 import leaves
from .c02 import branches
from .c14 import atoms

PROP = 'C03'
RULE = ('A case is a scene (images with every kind of PSF, coordinate map, calibration and sky; sources of every type; custom sizes), some of its '
        'parameters frozen, and one node of its tree (a leaf, a source, an image, the catalog, the whole engine), which is copied, pickled or '
        'deep-copied. The duplicate must have the same type, values, names and frozen state, and render the same pixels when '
        'put in the place of the original; then one of the two is changed in every way (parameters, freezing, pixels, stamps) and the other must not move. '
        'Pickles must also keep step sizes, limits, priors, masks and options. Non-trivial: the node has parameters, some of them frozen.')
ASSUMPTIONS = ['copy() promises values, frozen state and rendering, not priors, limits and step sizes',
               'objects of the astrometry package shared between copies are never modified in place']


def state(n, deep):
    from tractor.utils import MultiParams
    out = [type(n).__name__]
    if isinstance(n, MultiParams):
        out.append(list(n.liquid))
        out.append([state(s, deep) if s is not None else None for s in n.subs])
    else:
        out.append([float(x) for x in (n.getAllParams() if hasattr(n, 'getAllParams') else n.getParams())])
        out.append([bool(x) for x in getattr(n, 'liquid', [])])
        if deep and hasattr(n, 'getGaussianPriors'):
            out.append([tuple(x) for x in n.getGaussianPriors()])
    out.append(list(n.getParamNames()))
    out.append([float(x) for x in n.getParams()])
    if deep:
        out.append([None if x is None else float(x) for x in n.getStepSizes()])
        for f in ('getLowerBounds', 'getUpperBounds', 'getMaxStep'):
            if hasattr(n, f):
                try:
                    out.append(list(getattr(n, f)()))
                except AttributeError:
                    pass
    return out


def alike(a, b):
    """Equal, up to rounding (a copied spline is interpolated anew)."""
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * (1. + abs(a))
    return a == b


def slots(tr):
    """every (parent, index) in the tree"""
    from tractor.utils import MultiParams
    out = []

    def walk(n):
        if isinstance(n, MultiParams):
            for i, s in enumerate(n.subs):
                if s is not None:
                    out.append((n, i))
                    walk(s)
    walk(tr)
    return out


def models(tr):
    return [tr.getModelImage(im).copy() for im in tr.images] + [im.data.copy() for im in tr.images] + [im.inverr.copy() for im in tr.images]


def same(A, B, what, spl=False):
    require(len(A) == len(B), what)
    for a, b in zip(A, B):
        require(a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-6 * np.abs(b).max() if spl else 0.) if spl else np.array_equal(a, b), lambda: '%s: the images differ by up to %s' % (what, np.abs(a.astype(float) - b).max() if a.shape == b.shape else (a.shape, b.shape)))


def spoil(n, seen=None):
    """Change a node in every way it can be changed."""
    from tractor.utils import MultiParams
    from tractor.image import Image
    if isinstance(n, Image):
        n.data += 7.
        n.inverr *= 0.5
    for nm in ('img',):
        a = getattr(n, nm, None)
        if isinstance(a, np.ndarray) and type(n).__name__ in ('PixelizedPSF', 'NormalizedPixelizedPsf'):
            a *= 3.
    for nm in ('pix', 'gauss', 'psf'):
        if nm in getattr(n, '__dict__', {}) and type(n).__name__.startswith('Hybrid'):
            spoil(getattr(n, nm))
    if isinstance(n, MultiParams):
        for i in range(len(n.subs)):
            if n.liquid[i]:
                n.freezeParam(i)
        for i in range(len(n.subs)):
            n.thawParam(i)
        for s in n.subs:
            if s is not None:
                spoil(s)
        return
    if hasattr(n, 'thawAllParams'):
        n.thawAllParams()
    N = n.numberOfParams()
    p = np.array(n.getParams(), float)
    for j in range(N):
        n.setParam(j, p[j] * 1.07 + 0.03)
    for a in ('x0', 'y0', 'dx', 'dy'):
        if a in getattr(n, '__dict__', {}) and type(n).__name__ in ('NullWCS', 'ConstantFitsWcs', 'FitsWcs', 'TanWcs', 'SplineSky'):
            setattr(n, a, getattr(n, a) + 1)
    if N and hasattr(n, 'freezeParam'):
        n.freezeParam(0)


def build(c, ctx):
    tr = gen.build_world(c['w'])
    for s, (a, b) in zip(tr.catalog, c['rad']):
        if hasattr(s, 'fixedRadius') and a:
            s.fixedRadius = a
        elif hasattr(s, 'minRadius') and b:
            s.minRadius = b
        elif not hasattr(s, 'minRadius') and a and not hasattr(s, 'components'):
            s.halfsize = a
    for im, (a, b) in zip(tr.images, c['rad']):
        if a and type(im.psf).__name__.startswith('GaussianMixture'):
            im.psf.radius = a
        if b:
            im.modelMinval = b * 1e-3
    for a in c['frz']:
        L = leaves(tr)
        n, i = L[a % len(L)]
        n.freezeParam(i)
    return tr


def check_copy(c, ctx):
    tr = build(c, ctx)
    m0 = models(tr)
    S = slots(tr)
    # leaves outnumber everything else: choose the class first
    from tractor.utils import MultiParams
    inner = [(p, i) for p, i in S if isinstance(p.subs[i], MultiParams) and p is not tr]
    pool = {'any': S, 'inner': inner or S, 'src': [(p, i) for p, i in S if p is tr.catalog], 'img': [(p, i) for p, i in S if p is tr.images],
            'cat': [(tr, 1)], 'cal': [(p, i) for p, i in S if p in list(tr.images)]}[c['what']]
    par, i = pool[c['k'] % len(pool)]
    n = par.subs[i]
    name = type(n).__name__
    ctx.tag(name)
    deep = c['how'] != 'copy'
    spl = not deep and any(type(im.sky).__name__ == 'SplineSky' for im in tr.images)
    dup = {'copy': lambda x: x.copy(), 'pickle': lambda x: pickle.loads(pickle.dumps(x, c['proto'])), 'deepcopy': copymod.deepcopy}[c['how']]
    s0, s0d = state(n, deep), state(tr, True)
    a, b = dup(n), dup(n)
    require(a is not n, '%s: %s returned the object itself' % (name, c['how']))
    for d in (a, b):
        sd = state(d, deep)
        require(alike(sd, s0), lambda: '%s of a %s: state %s, original %s' % (c['how'], name, sd, s0))
    require(state(tr, True) == s0d, '%s of a %s changed the scene' % (c['how'], name))
    same(models(tr), m0, '%s of a %s: the original afterwards' % (c['how'], name))
    # in place of the original
    par.subs[i] = a
    same(models(tr), m0, 'scene with the %s of a %s in its place' % (c['how'], name), spl=spl)
    par.subs[i] = n
    # change the duplicate
    spoil(a)
    require(state(tr, True) == s0d, lambda: 'changing the %s of a %s changed the original: %s, was %s' % (c['how'], name, state(n, True), s0))
    same(models(tr), m0, 'changing the %s of a %s changed the original' % (c['how'], name))
    # change the original
    spoil(n)
    sd = state(b, deep)
    require(alike(sd, s0), lambda: 'changing the original changed the %s of a %s: %s, was %s' % (c['how'], name, sd, s0))
    par.subs[i] = b
    same(models(tr), m0, 'changing the original changed the %s of a %s' % (c['how'], name), spl=spl)
    ctx.nt(len(n.getParams()) < len(n.getAllParams()) if hasattr(n, 'getAllParams') else False)


def check_pickle(c, ctx):
    """The whole engine."""
    from tractor.patch import ModelMask
    c = copymod.deepcopy(c)
    for i in c['w']['ims']:
        if i['psf']['t'] == 'mog':
            # a step in a covariance keeps it a covariance
            for v in i['psf']['mog']['cov']:
                v[2] *= 0.5
    tr = build(c, ctx)
    r = gen.rng(c['k'])
    for i, (o, k) in enumerate(atoms(tr)):
        if i % 3 == 0 and hasattr(o, 'lowers'):
            v = o.getAllParams()[k]
            o.lowers[k], o.uppers[k], o.maxstep[k] = v - 1., v + 2., 0.5
        if i % 4 == 1 and hasattr(o, 'addGaussianPrior') and hasattr(o, 'getNamedParams') and o.getNamedParams():
            nm = [a for a, b in o.getNamedParams().items() if b == k]
            if nm:
                o.addGaussianPrior(nm[0], o.getAllParams()[k] + 0.1, 0.7)
    tr.modtype = np.float64 if c['proto'] % 2 else np.float32
    if c['masks']:
        H, W = tr.images[0].shape
        tr.setModelMasks([dict((s, ModelMask(1 + k, 2, im.shape[1] - 3 - k, im.shape[0] - 3)) for s in list(tr.catalog)[:1]) for k, im in enumerate(tr.images)], assumeMasks=c['masks'] == 'assume')
    try:
        m0 = models(tr)
    except RuntimeError as e:
        # documented: masked windows need a hybrid PSF when the centre is outside
        if 'sourceOut' in str(e):
            raise Skip()
        raise
    s0, lp = state(tr, True), tr.getLogPrior()
    t2 = pickle.loads(pickle.dumps(tr, c['proto'])) if c['how'] != 'deepcopy' else copymod.deepcopy(tr)
    s2 = state(t2, True)
    require(alike(s2, s0), lambda: 'engine after pickling: %s, before %s' % (s2, s0))
    same(models(t2), m0, 'engine after pickling')
    require(t2.modtype == tr.modtype and type(t2.optimizer) is type(tr.optimizer), 'engine options lost in pickling')
    require(np.array_equal(t2.getLogPrior(), lp), lambda: 'log-prior after pickling %s, before %s' % (t2.getLogPrior(), lp))
    if np.isfinite(lp):
        a, b = tr.getLogProb(), t2.getLogProb()
        require(a == b, lambda: 'log-posterior after pickling %s, before %s' % (b, a))
        if c['opt'] and tr.numberOfParams():
            try:
                X = [t.getDerivs() for t in (tr, t2)]
            except RuntimeError as e:
                if 'sourceOut' in str(e):
                    # (documented refusal: a window without the centre of the source)
                    raise Skip()
                raise
            require([len(x) for x in X[0]] == [len(x) for x in X[1]], 'derivatives after pickling')
            for p, q in zip(*X):
                for (d, im), (e, jm) in zip(p, q):
                    require(list(tr.images).index(im) == list(t2.images).index(jm) and d.extent == e.extent and np.array_equal(d.patch, e.patch), 'derivatives differ after pickling')
    spoil(t2)
    require(state(tr, True) == s0, 'changing the unpickled engine changed the original')
    same(models(tr), m0, 'changing the unpickled engine changed the original')
    ctx.nt(tr.numberOfParams() < len(tr.getAllParams()) and tr.numberOfParams() > 0)


def check_mog(c, ctx):
    """Bare Gaussian mixtures."""
    from tractor.mixture_profiles import MixtureOfGaussians
    amp, mean, var = gen.mog_arrays(c['m'])
    m = MixtureOfGaussians(amp.copy(), mean.copy(), var.copy())
    pos = np.array([[0.3, 0.1], [-1., 2.], [4., -3.]])
    dup = {'copy': lambda x: x.copy(), 'pickle': lambda x: pickle.loads(pickle.dumps(x)), 'deepcopy': copymod.deepcopy}[c['how']]
    d = dup(m)
    objs = {'original': m, 'duplicate': d}

    def intact(k):
        x = objs[k]
        for nm, v in (('amp', amp), ('mean', mean), ('var', var)):
            require(np.array_equal(getattr(x, nm), v), lambda: 'the %s changed in %s: %s, was %s' % (k, nm, getattr(x, nm), v))
        close(x.evaluate(pos), ref_mog(amp, mean, var, pos), 1e-12, 1e-9, 'value of the %s' % k)
    for k in objs:
        intact(k)
    spoilt, other = ('original', 'duplicate') if c['which'] else ('duplicate', 'original')
    x = objs[spoilt]
    for op in c['ops']:
        ctx.tag(op)
        if op == 'normalize':
            x.normalize()
        elif op == 'extend':
            x.extend(dup(objs[other]))
        elif op == 'amp':
            x.amp[0] = 9.
        elif op == 'mean':
            x.mean += 1.
        elif op == 'var':
            x.var[0] *= 2.
        elif op == 'symmetrize':
            x.var[0, 0, 1] += 0.1
            x.symmetrize()
        intact(other)
    ctx.nt(True)


def ref_mog(amp, mean, var, pos):
    out = np.zeros(len(pos))
    for a, m, v in zip(amp, mean, var):
        d = pos - m
        out += a * np.exp(-0.5 * np.einsum('ij,jk,ik->i', d, np.linalg.inv(v), d)) / (2. * np.pi * np.sqrt(np.linalg.det(v)))
    return out


def case(**kw):
    return st.fixed_dictionaries(dict(
        w=gen.world_spec(nim=(1, 2), nsrc=(1, 3), wmin=8, wmax=16, skies=('null', 'const', 'const', 'spline')), frz=lst(st.integers(0, 200), 0, 6),
        rad=lst(st.tuples(pick(0, 0, 4, 7), pick(0, 0, 2, 9)).map(list), 3, 3), k=st.integers(0, 200), proto=pick(2, 3, 4), **kw))


SUBS = [
    Sub('node', case(how=pick('copy', 'copy', 'copy', 'pickle', 'deepcopy'), what=pick('any', 'inner', 'src', 'src', 'img', 'img', 'cat', 'cal', 'cal')), check_copy,
        quick=700, thorough=15000, shards=4),
    Sub('engine', case(how=pick('pickle', 'pickle', 'deepcopy'), masks=pick(None, None, 'some', 'assume'), opt=st.booleans()), check_pickle, quick=250, thorough=5000, shards=2),
    Sub('mixture', st.fixed_dictionaries(dict(m=gen.mog_spec(), how=pick('copy', 'copy', 'pickle', 'deepcopy'), which=st.booleans(),
                                              ops=lst(pick('normalize', 'extend', 'amp', 'mean', 'var', 'symmetrize'), 1, 4))), check_mog, quick=200, thorough=3000, shards=1),
]
