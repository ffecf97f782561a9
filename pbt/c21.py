"""C21: what is computed depends on the current scene only, never on what was computed before."""
import copy
import pickle
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close, Skip
from .gen import fl, pick, lst
from .c11 import leaves

PROP = 'C21'
RULE = ('A case is a scene (one or two images, one to three sources, all PSF and source kinds) and a history of up to 12 operations on it: parameter changes, freezing and thawing, other PSFs, coordinate systems and calibrations (changed in place or replaced), model masks '
        'set and removed, the surface brightness to render to, sources removed and put back, interleaved with evaluations of every kind (models, residuals, posterior, derivatives, unit models, optimizer directions, cut-outs, copies). After each operation the model of '
        'every image is compared with that of a scene built from scratch with the same parameter values; evaluations must leave parameters, data, masks and freezing as they were. The same with the caching Tractor; '
        'and the cache itself against a plain dictionary with eviction; a PSF asked for stamps, mixtures and transforms at and off the image, clipped and masked, answers as before (so does another with the same parameters); the caching Tractor asked to a sequence of depths. Non-trivial: at least one evaluation before a change, and a source visible in an image.')
ASSUMPTIONS = []


def fresh(w, alive, allp, masks, assume):
    """a scene from scratch, at the given parameter values"""
    tr = gen.build_world(w)
    srcs = list(tr.catalog)
    for s in [s for i, s in enumerate(srcs) if i not in alive]:
        tr.removeSource(s)
    tr.setAllParams(list(allp))
    apply_masks(tr, masks, assume)
    return tr


def apply_masks(tr, masks, assume):
    from tractor.patch import ModelMask
    if masks is None:
        tr.setModelMasks(None)
        return
    srcs = list(tr.catalog)
    out = []
    for im in tr.images:
        H, W = im.shape
        d = {}
        for i, s in enumerate(srcs):
            a, b, c, e = masks[i % len(masks)]
            x0, x1 = sorted((int(a * W / 10.), int(b * W / 10.) + 1))
            y0, y1 = sorted((int(c * H / 10.), int(e * H / 10.) + 1))
            if x1 > x0 and y1 > y0:
                d[s] = ModelMask(x0, y0, x1 - x0, y1 - y0)
        out.append(d)
    tr.setModelMasks(out, **({} if assume else dict(assumeMasks=False)))


def frozen_state(n):
    from tractor.utils import MultiParams
    if isinstance(n, MultiParams):
        return (list(n.liquid), [frozen_state(s) for s in n.subs])
    return list(getattr(n, 'liquid', []))


def snapshot(tr):
    m = getattr(tr, 'modelMasks', None)
    return dict(p=list(tr.getAllParams()), f=frozen_state(tr),
                data=[im.data.copy() for im in tr.images], ie=[im.inverr.copy() for im in tr.images],
                psf=[im.psf.img.copy() for im in tr.images if hasattr(im.psf, 'img')],
                m=None if m is None else [{k: (v.x0, v.y0, v.w, v.h) for k, v in d.items()} for d in m])


def same(a, b, what):
    for k in a:
        if k in ('data', 'ie', 'psf'):
            require(all(np.array_equal(x, y) for x, y in zip(a[k], b[k])), '%s changed the %s' % (what, k))
        else:
            require(a[k] == b[k], lambda: '%s changed %s' % (what, dict(p='parameter values', f='what is frozen', m='the model masks')[k]))


def evaluate(tr, how, r):
    ims, srcs = list(tr.images), list(tr.catalog)
    im = ims[int(r.randint(len(ims)))]
    s = srcs[int(r.randint(len(srcs)))] if srcs else None
    if how == 'model':
        tr.getModelImage(im)
        tr.getModelImages()
    elif how == 'chi':
        tr.getChiImage(img=im)
        tr.getChiImages()
    elif how == 'logprob':
        tr.getLogProb()
        tr.getLogLikelihood()
        tr.getLogPrior()
    elif how == 'derivs':
        tr.getDerivs()
    elif how == 'direction':
        if tr.numberOfParams():
            tr.optimizer.getLinearUpdateDirection(tr)
    elif how == 'sub':
        H, W = im.shape
        sub = im.subimage(2, W - 1, 1, H - 2)
        sub.getSky().addTo(np.zeros(sub.shape, np.float32))
        for q in srcs:
            q.getModelPatch(sub)
    elif how == 'copy' and s is not None:
        t = s.copy()
        p = t.getParams()
        if len(p):
            t.setParam(0, p[0] + 1e-3)
        im.copy()
        pickle.loads(pickle.dumps(tr))
    elif s is not None and how == 'unit':
        s.getUnitFluxModelPatches(im)
        s.getUnitFluxModelPatch(im) if hasattr(s, 'getUnitFluxModelPatch') else None
    elif s is not None and how == 'patch':
        p = s.getModelPatch(im)
        if p is not None and p.patch is not None:
            # callers own what they get
            p.patch[...] = -1e6
            p.x0 += 3
    elif s is not None and how == 'sderivs':
        for d in s.getParamDerivatives(im):
            if d is not None and d.patch is not None:
                d.patch[...] = 1e6
    elif how == 'psf':
        psf = im.getPsf()
        p = psf.getPointSourcePatch(3.3, 4.6)
        p.patch[...] = -5.
        psf.getRadius()
        psf.hashkey()


EVALS = ('model', 'chi', 'logprob', 'derivs', 'direction', 'sub', 'copy', 'unit', 'patch', 'sderivs', 'psf')


CachingTractor = None


def legal_move(node, k, amt):
    v = node.getAllParams()[k]
    h = node.getAllStepSizes()[k]
    nm = list(node.getNamedParams().keys())[k] if node.getNamedParams() else ''
    n = v + amt * h
    if nm == 're':
        n = max(n, 0.2)
    elif nm == 'ab':
        n = min(max(n, 0.15), 1.)
    elif nm == 'fracDev':
        n = min(max(n, 0.), 1.)
    elif nm == 'logre':
        n = min(n, 1.5)
    return n


def check(c, ctx):
    try:
        check_history(c, ctx)
    except RuntimeError as e:
        # a pixelized PSF cannot render a galaxy centred outside its mask: documented
        if 'sourceOut' in str(e):
            raise Skip()
        raise


def steady(tr):
    """A mixture PSF has to stay one when a derivative is taken with respect to its covariance."""
    for im in tr.images:
        if hasattr(im.psf, 'mog') and hasattr(im.psf.mog, 'var'):
            v = im.psf.mog.var
            if np.any((v[:, 0, 0] - 0.1) * (v[:, 1, 1] - 0.1) - (np.abs(v[:, 0, 1]) + 0.1)**2 < 0.02):
                raise Skip()


def deep_enough(A, T, i, sb, cached, what):
    B, D = T.getModelImage(i, minsb=sb), T.getModelImage(i, minsb=0.)
    eps = 1e-6 * np.abs(D).max() + 1e-12
    if not cached:
        return close(A, B, eps, 0., what)
    # a cached model may go deeper than was asked for, not less deep
    a, b = np.abs(A - D).max(), np.abs(B - D).max()
    require(a <= 2. * b + eps, lambda: '%s: a cached model is off by up to %g, rendered afresh by %g' % (what, a, b))


def check_history(c, ctx):
    from tractor.engine import Tractor
    from tractor.cache import TractorCacheMixin
    w = copy.deepcopy(c['w'])
    tr = gen.build_world(w)
    cached = c.get('cached')
    if cached:
        from tractor.cache import Cache
        global CachingTractor
        if CachingTractor is None:
            CachingTractor = type('CachingTractor', (TractorCacheMixin, Tractor), dict(__module__=__name__))
        tr = CachingTractor(list(tr.images), list(tr.catalog), cache=Cache(maxsize=c['size']))
    steady(tr)
    srcs = list(tr.catalog)
    alive = list(range(len(srcs)))
    masks, assume = None, False
    evals = changes = seen = False
    keep = []
    r = gen.rng(c['seed'])
    for op in c['ops']:
        k = op['op']
        changed = k not in EVALS
        if not changed:
            before = snapshot(tr)
            evaluate(tr, k, r)
            same(before, snapshot(tr), 'evaluating (%s)' % k)
            evals = True
        elif k == 'set':
            L = leaves(tr.catalog) + [l for im in tr.images for l in leaves(im.psf)] + [l for im in tr.images for l in leaves(im.sky)]
            if L:
                node, j = L[op['i'] % len(L)]
                # by hand, by the tree, or all at once
                v = legal_move(node, j, op['amt'])
                if op['how'] == 0:
                    a = list(node.getAllParams())
                    a[j] = v
                    node.setAllParams(a)
                elif op['how'] == 1:
                    n = list(node.getNamedParams().keys())
                    if n and j < len(n) and np.isscalar(getattr(node, n[j], None)):
                        setattr(node, n[j], v)
                else:
                    p = list(tr.getParams())
                    if len(p):
                        i = op['i'] % len(p)
                        nm = tr.getParamNames()[i]
                        if not nm.endswith(('.ab', '.re', 'fracDev')) and 'psf' not in nm:
                            p[i] += op['amt'] * tr.getStepSizes()[i]
                            tr.setParams(p)
        elif k == 'freeze':
            n = [tr.catalog, tr.images, tr][op['i'] % 3]
            (n.freezeAllParams if op['how'] else n.thawAllParams)()
        elif k == 'newpsf':
            i = op['i'] % len(w['ims'])
            w['ims'][i]['psf'] = c['psfs'][op['i'] % len(c['psfs'])]
            tr.images[i].psf = gen.build_psf(w['ims'][i]['psf'])
        elif k == 'newwcs':
            i = op['i'] % len(w['ims'])
            sp = w['ims'][i]['wcs'] = dict(w['ims'][i]['wcs'])
            old = tr.images[i].wcs
            # (objects are recognised by identity: a dead one's may be given to another)
            keep.append((old, tr.images[i].photocal))
            if sp['t'] == 'null':
                what = ('dx', 'dy', 'pixscale')[op['i'] // 2 % 3]
                sp[what] = sp[what] * 2. if what == 'pixscale' else sp[what] + op['amt']
                if op['how'] == 0:
                    setattr(old, what, sp[what])
                    old.setPixscale(sp['pixscale'])
                else:
                    tr.images[i].wcs = gen.build_wcs(sp)
            elif op['how'] == 0:
                sp['x0'] += int(np.sign(op['amt']))
                old.setX0Y0(sp['x0'], sp['y0'])
            else:
                sp['rot'] += 10. * op['amt']
                tr.images[i].wcs = gen.build_wcs(sp, w['ims'][i]['W'], w['ims'][i]['H'])
        elif k == 'newcal':
            i = op['i'] % len(w['ims'])
            pc = w['ims'][i]['pc'] = dict(w['ims'][i]['pc'])
            keep.append((tr.images[i].wcs, tr.images[i].photocal))
            if op['how']:
                pc['scale'] *= 2.
                pc['zp'] += 0.5
            else:
                pc['band'] = gen.BANDS[op['i'] % 3]
            tr.images[i].photocal = gen.build_photocal(w['system'], pc)
        elif k == 'masks':
            masks, assume = (None, False) if op['how'] == 0 else (c['boxes'], op['how'] == 1)
            apply_masks(tr, masks, assume)
        elif k == 'drop' and len(alive) > 1:
            i = alive[op['i'] % len(alive)]
            tr.removeSource(srcs[i])
            alive.remove(i)
            if masks is not None:
                apply_masks(tr, masks, assume)
        elif k == 'back' and len(alive) < len(srcs):
            # (in the original order, so that parameter vectors compare)
            for i in list(alive):
                tr.removeSource(srcs[i])
            alive = list(range(len(srcs)))
            tr.addSources(srcs)
            if masks is not None:
                apply_masks(tr, masks, assume)
        elif k == 'depth':
            im = tr.images[op['i'] % len(tr.images)]
            im.modelMinval = c['depths'][op['i'] % len(c['depths'])]
        elif k == 'shallow':
            # a look at a given surface brightness, leaving the image's own as it is
            i = op['i'] % len(tr.images)
            sb = c['depths'][op['how'] % len(c['depths'])]
            A = tr.getModelImage(i, minsb=sb)
            T = fresh(w, alive, tr.getAllParams(), masks, assume)
            deep_enough(A, T, i, sb, cached, 'model image to surface brightness %g' % sb)
        elif k == 'data':
            im = tr.images[op['i'] % len(tr.images)]
            im.data += op['amt']
        if changed and evals:
            changes = True
        steady(tr)
        T = fresh(w, alive, tr.getAllParams(), masks, assume)
        # (fresh copy of the data)
        for a, b in zip(T.images, tr.images):
            a.data, a.inverr, a.modelMinval = b.data.copy(), b.inverr.copy(), b.modelMinval
        if cached and any(im.modelMinval for im in tr.images):
            for i, im in enumerate(tr.images):
                deep_enough(tr.getModelImage(i), T, i, im.modelMinval, cached, 'model image %i' % i)
            ctx.tag('depth')
            continue
        for i in range(len(w['ims'])):
            A, B = tr.getModelImage(i), T.getModelImage(i)
            close(A, B, 1e-6 * np.abs(B).max() + 1e-12, 0., 'model image %i after %s' % (i, ', '.join(o['op'] for o in c['ops'][:c['ops'].index(op) + 1])))
            seen = seen or np.ptp(B) > 1e-6 * np.abs(B).max()
        if True:
            a, b = tr.getLogLikelihood(), T.getLogLikelihood()
            require(abs(a - b) <= 1e-5 * abs(b) + 1e-5, lambda: 'log-likelihood %r, in a scene from scratch %r' % (a, b))
    ctx.nt(changes and seen)


def probe(psf, at):
    """what a PSF answers: stamps, mixture, transform (copies)"""
    out = []
    for x, y in at:
        p = psf.getPointSourcePatch(x, y)
        out.append(np.append(p.patch.copy().ravel(), [p.x0, p.y0]))
    m = psf.getMixtureOfGaussians() if hasattr(psf, 'getMixtureOfGaussians') else None
    if m is not None:
        out.extend([np.array(m.amp).copy(), np.array(m.mean).copy(), np.array(m.var).copy()])
    if hasattr(psf, 'getFourierTransform'):
        F, _, _, _ = psf.getFourierTransform(0., 0., 11)
        out.append(np.array(F).copy())
    out.append(np.array([psf.getRadius()], float))
    return out


def check_psf(c, ctx):
    """Asking a PSF for stamps, wherever and however, leaves it (and others like it) as it was."""
    from tractor.patch import ModelMask
    psf = gen.build_psf(c['psf'])
    at = [(20.3, 21.6), (8., 9.5)]
    want = probe(psf, at)
    stamped = empty = 0
    for x, y, box, radius, how in c['ops']:
        kw = {}
        if how == 'clip':
            kw.update(clipExtent=[0, box[0], 0, box[1]])
        elif how == 'mask':
            kw.update(modelMask=ModelMask(box[0] // 3, box[1] // 4, box[0], box[1]))
        if radius is not None:
            kw.update(radius=radius)
        if how == 'ft' and hasattr(psf, 'getFourierTransform'):
            psf.getFourierTransform(x, y, radius or 9)
        elif how == 'image' and hasattr(psf, 'getImage'):
            psf.getImage(x, y)
        elif how == 'mog' and hasattr(psf, 'getMixtureOfGaussians'):
            psf.getMixtureOfGaussians(px=x, py=y) if c['seed'] % 2 else psf.getMixtureOfGaussians()
        elif how == 'derivs':
            psf.getPointSourcePatch(x, y, derivs=True, **kw)
        elif how == 'const' and hasattr(psf, 'constantPsfAt'):
            q = psf.constantPsfAt(x, y)
            if q is not psf and q is not None:
                q.getPointSourcePatch(x, y)
        elif how == 'shift' and hasattr(psf, 'getShifted'):
            psf.getShifted(int(x), int(y)).getPointSourcePatch(1., 2.)
        else:
            p = psf.getPointSourcePatch(x, y, **kw)
            if p is None or p.patch is None:
                empty += 1
            else:
                stamped += 1
                # the caller owns it
                p.patch[...] = 7.
        got, new = probe(psf, at), probe(gen.build_psf(c['psf']), at)
        for a, b, n in zip(want, got, new):
            require(a.shape == b.shape == n.shape, lambda: 'after %s at (%g, %g) the PSF answers differently' % (how, x, y))
            close(b, a, 1e-9, 1e-9, 'answers of the PSF after %s at (%g, %g) %s' % (how, x, y, kw))
            close(n, a, 1e-9, 1e-9, 'answers of another PSF with the same parameters, after %s at (%g, %g) %s' % (how, x, y, kw))
    ctx.tag(c['psf']['t'])
    if empty:
        ctx.tag('off')
    ctx.nt(len(c['ops']) > 1)


def check_depths(c, ctx):
    """The caching Tractor asked for models to a sequence of depths."""
    from tractor.engine import Tractor
    from tractor.cache import TractorCacheMixin, Cache
    global CachingTractor
    if CachingTractor is None:
        CachingTractor = type('CachingTractor', (TractorCacheMixin, Tractor), dict(__module__=__name__))
    w = c['w']
    tr = gen.build_world(w)
    T = CachingTractor(list(tr.images), list(tr.catalog), cache=Cache())
    n = 0
    peak = max(np.abs(tr.getModelImage(i, minsb=0.)).max() for i in range(len(w['ims'])))
    if peak == 0:
        raise Skip()
    for f, how in c['seq']:
        sb = f * peak
        for i, im in enumerate(tr.images):
            if how:
                im.modelMinval = sb
                A = T.getModelImage(i)
            else:
                im.modelMinval = 0.
                A = T.getModelImage(i, minsb=sb)
            deep_enough(A, tr, i, sb, True, 'model image to surface brightness %g, after %s' % (sb, [x * peak for x, _ in c['seq'][:n]]))
        n += 1
    fs = [f for f, _ in c['seq']]
    ctx.nt(any(0 < b < a for a, b in zip(fs, fs[1:])))


def check_lru(c, ctx):
    from tractor.cache import Cache, NullCache
    from collections import OrderedDict
    n = c['size']
    C, M, N = Cache(maxsize=n), OrderedDict(), NullCache()
    hits = misses = 0
    evicted = False
    for op in c['ops']:
        k, key = op['op'], op['k']
        if k == 'put':
            val = np.arange(op['v'])
            (C.put if op['how'] else C.__setitem__)(key, val)
            N.put(key, val)
            if key not in M and len(M) >= n:
                M.popitem(last=False)
                evicted = True
            M.pop(key, None)
            M[key] = val
        elif k == 'get':
            try:
                got = C.get(key) if op['how'] else C[key]
                hits += 1
                require(key in M, 'cache has an item it should not have')
                require(got is M[key], 'cache returned another value')
                M.move_to_end(key)
            except KeyError:
                misses += 1
                require(key not in M, lambda: 'cache lost %r (least recently used first: %s)' % (key, list(M)))
        elif k == 'default':
            got = C.get(key, 'no')
            if key in M:
                hits += 1
                M.move_to_end(key)
                require(got is M[key], 'cache returned another value than was put, or lost it')
            else:
                misses += 1
                require(got == 'no', 'cache has an item it should not have')
            require(N.get(key, 'no') == 'no', 'the null cache holds something')
        elif k == 'clear':
            C.clear()
            M.clear()
            hits = misses = 0
        require(len(C) == len(M) <= n, lambda: 'cache holds %i items, expected %i of at most %i' % (len(C), len(M), n))
        require((C.hits, C.misses) == (hits, misses), 'hits and misses are miscounted')
        require(C.totalSize() == sum(v.size for v in M.values()), 'total size of the cache')
        require(len(N) == 0 and N.totalSize() == 0, 'the null cache holds something')
    str(C)
    ctx.nt(evicted)


def op_of(*kinds):
    return st.fixed_dictionaries(dict(op=pick(*kinds), i=st.integers(0, 40), how=st.integers(0, 2), amt=pick(1., -1., 3., -2., 0.5)))


def case(**kw):
    ops = lst(op_of('set', 'set', 'set', 'set', 'freeze', 'newpsf', 'newwcs', 'newcal', 'masks', 'drop', 'back', 'data', 'depth', 'shallow', *EVALS), 2, 12)
    return st.fixed_dictionaries(dict(w=gen.world_spec(psfs=('ncirc', 'mog', 'mogell', 'pix', 'hybrid', 'norm'), skies=('null', 'const', 'spline'), wmax=28), ops=ops, seed=gen.seeds,
                                      psfs=lst(gen.psf_spec(('ncirc', 'mog', 'pix', 'hybrid')), 1, 2), boxes=lst(lst(fl(0., 9., 1), 4), 1, 3), depths=lst(pick(0., 0.003, 0.05, 0.5, 5.), 2, 3), **kw))


SUBS = [
    Sub('living', case(), check, quick=600, thorough=6000, shards=4),
    Sub('cached', case(cached=st.just(True), size=pick(1000, 3)), check, quick=450, thorough=4000, shards=3),
    Sub('psf', st.fixed_dictionaries(dict(psf=gen.psf_spec(), seed=gen.seeds,
                                          ops=lst(st.tuples(fl(-45., 80., 1), fl(-45., 80., 1), st.tuples(st.integers(5, 40), st.integers(5, 40)), st.one_of(st.none(), st.integers(3, 15)),
                                                            pick('clip', 'clip', 'clip', 'mask', 'plain', 'ft', 'image', 'mog', 'derivs', 'const', 'shift')).map(list), 1, 8))),
        check_psf, quick=250, thorough=4000, doc='PSFs are not changed by what they are asked'),
    Sub('depths', st.fixed_dictionaries(dict(w=gen.world_spec(psfs=('ncirc', 'mog', 'mogell', 'pix', 'hybrid'), skies=('null', 'const'), wmax=40, margin=-6.),
                                             seq=lst(st.tuples(pick(0., 1e-3, 3e-3, 0.01, 0.03, 0.1, 0.3, 0.5), st.booleans()).map(list), 2, 5))),
        check_depths, quick=150, thorough=2000, doc='models asked for to a sequence of depths'),
    Sub('lru', st.fixed_dictionaries(dict(size=st.integers(1, 5), ops=lst(st.fixed_dictionaries(dict(op=pick('put', 'put', 'put', 'get', 'get', 'default', 'clear'), k=st.integers(0, 7), v=st.integers(0, 9),
                                                                                                     how=st.booleans())), 1, 40))), check_lru, quick=500, thorough=10000),
]
