"""C26: the batched (GPU-style) optimizer, run with numpy, does what the ordinary one does."""
import contextlib
import io
import pickle
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close, Skip
from .gen import fl, pick, lst

PROP = 'C26'
RULE = ('A case is 1-3 images (sky rotation, scale, calibration, PSF, bad pixels and mask box of their own; perhaps no mask), a point source or galaxy or '
        'none, optionally a constant surface brightness, priors, frozen parts, a start away from the truth; image parameters perhaps cached while the source was '
        'somewhere else; and, for the line search, a direction and a list of step sizes, perhaps starting at a parameter bound. Non-trivial: a model, an update of '
        'at least two parameters, or a step accepted.')
ASSUMPTIONS = ['the numpy backend stands for the GPU one (no GPU here): same code, other array library',
               'as the module states: hybrid PSFs of unit sampling, LinearPhotoCal, zero sky, frozen images, free brightness, rectangular masks',
               'models compared to 0.5 percent of the peak (1 if the source is off its mask), updates by the linearised objective, line searches to float32 precision']
# Sersic indices within a derivative step of where the mixture of Gaussians changes
PINS = (0.695, 0.993, 1.495, 2.995)
BANDS = ('g', 'r', 'z')


# ---------------------------------------------------------------- worlds

def im_spec():
    return st.fixed_dictionaries(dict(
        W=st.integers(24, 56), H=st.integers(24, 56), rot=fl(0, 360, 0), flip=st.booleans(), dx=fl(-4, 4, 2), dy=fl(-4, 4, 2),
        band=pick(*BANDS), scale=pick(1., 1., 0.5, 3.), sig=fl(1.3, 2.2, 2), e=fl(-0.3, 0.3, 2), halo=pick(0., 0.2), hs=st.integers(11, 18),
        mask=lst(fl(0., 1., 2), 4), full=st.booleans(), bad=pick('none', 'none', 'pix', 'half', 'none'), noise=fl(0.5, 5., 1), seed=gen.seeds,
        side=pick('', '', '', '', 'right', 'below'), nomask=pick(False, False, False, True)))


def world(types=('ptsrc', 'gauss', 'exp', 'dev', 'sersic', 'none'), nim=(1, 3)):
    return st.fixed_dictionaries(dict(
        ims=lst(im_spec(), *nim), ra=fl(0.5, 359.5, 1), dec=fl(-70, 70, 1), pixscale=pick(0.262, 0.4, 1.),
        t=pick(*types), x=fl(-2, 2, 2), y=fl(-2, 2, 2), flux=lst(fl(50., 3000., 0), 3), order=st.permutations(list(BANDS)),
        shape=gen.shape_spec(('e', 'soft'), rmin=0.4, rmax=5.), n=st.one_of(fl(0.4, 5.5, 2), fl(0.4, 5.5, 2), fl(0.4, 5.5, 2), pick(0.29, 1., 1.01, 3., 6.3, 6.295), pick(*PINS)), sb=pick(False, False, True), sbflux=lst(fl(-5., 20., 1), 3),
        prif=st.one_of(st.none(), st.none(), st.tuples(pick(*BANDS), fl(0.5, 1.5, 1), fl(0.01, 0.3, 2)).map(list)),
        prip=st.one_of(st.none(), st.none(), st.tuples(pick('ra', 'dec'), fl(-1, 1, 1), fl(0.02, 0.5, 2)).map(list)),
        frz=pick('', '', '', 'pos', 'shape', 'sersicindex'), kick=lst(fl(-1., 1., 2), 6), pri=lst(st.tuples(st.booleans(), fl(-0.3, 0.3, 2), fl(0.05, 0.5, 2)).map(list), 2)))


def stamp(i):
    s = i['sig']
    v0 = np.array([[s * s * (1. + i['e']), 0.3 * i['e'] * s * s], [0.3 * i['e'] * s * s, s * s * (1. - i['e'])]])
    if not i['halo']:
        return np.array([1.]), np.array([v0])
    amp = np.array([1. - i['halo'], i['halo']])
    return amp, np.array([v0, np.eye(2) * (1.6 * s)**2])


def build(w):
    """-> Tractor whose images are frozen; every image has a mask box (or none)."""
    from astrometry.util.util import Tan
    from tractor.wcs import ConstantFitsWcs, RaDecPos
    from tractor.psf import PixelizedPSF, HybridPixelizedPSF, GaussianMixturePSF
    from tractor.image import Image
    from tractor.sky import ConstantSky
    from tractor.brightness import LinearPhotoCal, NanoMaggies
    from tractor.basics import ConstantSurfaceBrightness
    from tractor.engine import Tractor
    from tractor.patch import ModelMask
    ims, masks = [], []
    for i in w['ims']:
        spec = dict(pixscale=w['pixscale'], rot=i['rot'], flip=i['flip'], ra=w['ra'], dec=w['dec'], cx=i['W'] / 2. + i['dx'], cy=i['H'] / 2. + i['dy'])
        wcs = ConstantFitsWcs(gen.tan_of(spec, i['W'], i['H']))
        amp, var = stamp(i)
        hs = i['hs']
        xx, yy = np.meshgrid(np.arange(-hs, hs + 1), np.arange(-hs, hs + 1))
        img = gen.ref_mog(amp, np.zeros((len(amp), 2)), var, xx, yy)
        psf = HybridPixelizedPSF(PixelizedPSF(img.astype(np.float32)), GaussianMixturePSF(amp, np.zeros((len(amp), 2)), var))
        r = gen.rng(i['seed'])
        data = r.normal(size=(i['H'], i['W'])) * i['noise']
        ie = np.ones((i['H'], i['W'])) / i['noise']
        if i['bad'] == 'pix':
            ie[r.uniform(size=ie.shape) < 0.2] = 0.
        elif i['bad'] == 'half':
            ie[:, :i['W'] // 2] = 0.
        ims.append(Image(data=data.astype(np.float32), inverr=ie.astype(np.float32), psf=psf, wcs=wcs, photocal=LinearPhotoCal(i['scale'], band=i['band']),
                         sky=ConstantSky(0.), name='im'))
        cx, cy = i['W'] / 2. + i['dx'] - 1. + w['x'], i['H'] / 2. + i['dy'] - 1. + w['y']
        if i['full']:
            box = (0, i['W'], 0, i['H'])
        else:
            a, b, c, d = i['mask']
            box = (int(a * (cx - 5)), int(cx + 6 + b * (i['W'] - cx - 6)), int(c * (cy - 5)), int(cy + 6 + d * (i['H'] - cy - 6)))
            if i['side'] == 'right':
                # (the source is to the left of its box)
                box = (int(cx + 3), i['W'], box[2], box[3])
            elif i['side'] == 'below':
                box = (box[0], box[1], 0, int(cy - 2))
        masks.append(None if i['nomask'] else box)
    pos = None
    ra = w['ra'] + w['x'] * w['pixscale'] / 3600. / np.cos(np.deg2rad(w['dec']))
    pos = RaDecPos(ra, w['dec'] + w['y'] * w['pixscale'] / 3600.)
    src = None
    if w['t'] != 'none':
        src = gen.build_source(dict(t=w['t'], flux=w['flux'], flux2=w['flux'], shape=w['shape'], shape2=w['shape'], n=w['n']), 'nmgy', None,
                               w['pixscale'], pos=pos)
        src.brightness = NanoMaggies(order=list(w['order']), **dict(zip(BANDS, w['flux'])))
        if w['frz'] in src.getNamedParams():
            src.freezeParam(w['frz'])
        if w['t'] != 'ptsrc':
            for k, (on, mu, sg) in enumerate(w['pri']):
                if on:
                    src.shape.addGaussianPrior(src.shape.getParamNames()[1 + k], mu, sg)
        if w['prif'] is not None:
            b, dm, sg = w['prif']
            src.brightness.addGaussianPrior(b, src.brightness.getFlux(b) * dm, src.brightness.getFlux(b) * sg)
        if w['prip'] is not None and w['frz'] != 'pos':
            k, dm, sg = w['prip']
            deg = w['pixscale'] / 3600.
            pos.addGaussianPrior(k, getattr(pos, k) + dm * deg, sg * deg)
    cat = [src]
    if w['sb'] or src is None:
        cat.append(ConstantSurfaceBrightness(NanoMaggies(order=list(w['order']), **dict(zip(BANDS, w['sbflux'])))))
    tr = Tractor(ims, cat)
    tr.freezeParam('images')
    tr.setModelMasks([{} if m is None else dict((s, ModelMask(m[0], m[2], m[1] - m[0], m[3] - m[2])) for s in cat if s is not None) for m in masks])
    with_data(tr, w)
    if hasattr(src, 'sersicindex') and w['n'] in PINS:
        src.sersicindex.setValue(w['n'])
    return tr, masks


def scales(tr, w):
    """A natural size of change per free parameter."""
    deg = w['pixscale'] / 3600.
    out = []
    for n in tr.getParamNames():
        f = n.split('.')
        if f[-1] == 'ra':
            out.append(deg / np.cos(np.deg2rad(w['dec'])))
        elif f[-1] == 'dec':
            out.append(deg)
        elif 'brightness' in f:
            out.append(1. if f[1] == 'source1' else 0.2 * w['flux'][BANDS.index(f[-1])])
        elif f[-1] == 're':
            out.append(0.2 * w['shape']['re'] * w['pixscale'])
        elif f[-1] == 'logre':
            out.append(0.2)
        elif f[-1] in ('e1', 'e2', 'ee1', 'ee2'):
            out.append(0.1)
        else:
            out.append(0.2)
    return np.array(out)


def with_data(tr, w):
    """The data are the scene, plus noise; then the parameters are moved away."""
    for im in tr.images:
        mods = [s.getModelPatch(im) for s in tr.catalog if s is not None]
        d = im.data.astype(float)
        for m in mods:
            if m is not None:
                m.addTo(d)
        im.data = d.astype(np.float32)
    if not tr.numberOfParams():
        return
    p = np.array(tr.getParams(), float)
    k = np.resize(np.array(w['kick'], float), len(p))
    move(tr, p + k * scales(tr, w))


def move(tr, p):
    lo, hi = tr.getLowerBounds(), tr.getUpperBounds()
    tr.setParams([min(max(v, -np.inf if a is None else a), np.inf if b is None else b) for v, a, b in zip(p, lo, hi)])


def good(tr, masks):
    return [im for im, m in zip(tr.images, masks) if m is not None]


def gpu(c, tr, w):
    """The optimizer, perhaps with image parameters cached while the source was elsewhere."""
    from tractor.gpu_optimizer import GpuOptimizer
    o = GpuOptimizer('numpy')
    if c['pickle']:
        o = pickle.loads(pickle.dumps(o))
    if c['cache'] is not None:
        src = tr.catalog[0]
        if src is not None:
            pos = src.getPosition()
            ra, dec = pos.ra, pos.dec
            pos.ra = ra + c['cache'][0] * w['pixscale'] / 3600. / np.cos(np.deg2rad(w['dec']))
            pos.dec = dec + c['cache'][1] * w['pixscale'] / 3600.
            o.cache_image_params(tr)
            pos.ra, pos.dec = ra, dec
        else:
            o.cache_image_params(tr)
    return o


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def snr(tr):
    """Signal to noise of the brightest pixel."""
    src = tr.catalog[0]
    if src is None:
        return 0.
    P = [(src.getModelPatch(im), im) for im in tr.images]
    return max([np.abs(p.patch).max() * im.getInvError().max() for p, im in P if p is not None] + [0.])


def truth(im, src, spec, patch):
    """The exact convolution, at the pixels of the patch."""
    x, y = im.getWcs().positionToPixel(src.getPosition(), src)
    amp, var = stamp(spec)
    A, V = list(amp), list(var)
    if hasattr(src, 'shape'):
        pro = src._getShearedProfile(im, x, y)
        A = [a * a2 for a in pro.amp for a2 in amp]
        V = [v + v2 for v in pro.var for v2 in var]
    h, w = patch.shape
    xx, yy = np.meshgrid(np.arange(patch.x0, patch.x0 + w), np.arange(patch.y0, patch.y0 + h))
    return im.getPhotoCal().brightnessToCounts(src.getBrightness()) * gen.ref_mog(A, [(x, y)] * len(A), V, xx, yy)


def check_models(c, ctx):
    w = c['w']
    tr, masks = build(w)
    o = gpu(c, tr, w)
    p0 = tr.getParams()
    P = o.gpu_one_source_models(tr)
    ims = good(tr, masks)
    src = tr.catalog[0]
    if not ims:
        require(P is None, 'models were given though no image has a mask')
        return
    require(len(P) == len(ims), lambda: '%i models for %i images' % (len(P), len(ims)))
    require(tr.getParams() == p0, 'rendering changed the parameters')
    for im, p in zip(ims, P):
        q = tr.getModelPatch(im, src)
        require((p.x0, p.y0) == (q.x0, q.y0) and p.shape == q.shape, lambda: 'patch %s, expected %s' % (p, q))
        pk = np.abs(src.getModelPatch(im).patch).max()
        spec = w['ims'][tr.images.index(im)]
        close(p.patch, q.patch, (1e-2 if spec['side'] else 5e-3) * pk, 0., 'model of %s' % w['t'])
        close(p.patch, truth(im, src, spec, p), 1e-2 * pk, 0., 'model of %s, against the sum of Gaussians it stands for' % w['t'])
    ctx.tag(w['t'], 'cached' if c['cache'] else 'fresh')
    ctx.nt(True)


def shifts(tr, w):
    """d(model)/d(RA), d(model)/d(Dec) per image: central differences over one pixel, by the chain rule."""
    src = tr.catalog[0]
    pos = src.getPosition()
    p0 = (pos.ra, pos.dec)
    out = [[], []]
    for im in tr.images:
        wcs = im.getWcs()
        pos.ra, pos.dec = p0
        x, y = wcs.positionToPixel(pos, src)
        g = []
        for dx, dy in ((1, 0), (0, 1)):
            m = []
            for sgn in (1, -1):
                q = wcs.pixelToPosition(x + sgn * dx, y + sgn * dy)
                pos.ra, pos.dec = q.ra, q.dec
                z = np.zeros(im.shape)
                if tr._getModelMaskFor(im, src) is not None:
                    p = tr.getModelPatch(im, src)
                    if p is not None:
                        p.addTo(z)
                m.append(z)
            g.append((m[0] - m[1]) / 2.)
        h = 1e-6
        for k in range(2):
            e = []
            for sgn in (1, -1):
                pos.ra, pos.dec = p0[0] + sgn * h * (k == 0), p0[1] + sgn * h * (k == 1)
                e.append(np.array(wcs.positionToPixel(pos, src)))
            d = (e[0] - e[1]) / (2. * h)
            out[k].append(g[0] * d[0] + g[1] * d[1])
        pos.ra, pos.dec = p0
    return out


def index_step(tr, im, h):
    """d(model)/d(Sersic index), by a step of that length and sign."""
    src = tr.catalog[0]
    m = []
    n = src.sersicindex.getValue()
    for d in (h, 0.):
        src.sersicindex.setValue(n + d)
        z = np.zeros(im.shape)
        if tr._getModelMaskFor(im, src) is not None:
            p = tr.getModelPatch(im, src)
            if p is not None:
                p.addTo(z)
        m.append(z)
    src.sersicindex.setValue(n)
    return (m[0] - m[1]) / h


def linear(tr, w, priors, sign=0):
    """A, b of the linearised problem: ordinary derivatives for what is not a position.
    sign: which way to step the Sersic index."""
    N = tr.numberOfParams()
    D = tr.getDerivs()
    names = [n.split('.')[-1] for n in tr.getParamNames()]
    A = []
    S = shifts(tr, w) if 'ra' in names else None
    for j in range(N):
        col = []
        for k, im in enumerate(tr.images):
            if names[j] in ('ra', 'dec'):
                m = S[names[j] == 'dec'][k]
            elif sign and names[j] == 'SersicIndex':
                m = index_step(tr, im, sign * tr.catalog[0].sersicindex.stepsize)
            else:
                m = np.zeros(im.shape)
                for d, dim in D[j]:
                    if dim is im and d is not None and d.patch is not None:
                        d.addTo(m)
            col.append((m * im.getInvError()).ravel())
        A.append(np.concatenate(col))
    A = np.array(A).T
    b = np.concatenate([tr.getChiImage(img=im).astype(float).ravel() for im in tr.images])
    if priors:
        P = tr.getLogPriorDerivatives()
        if P is not None:
            R, C, V, B, _ = P
            nr = max([max(r) for r in R]) + 1
            pa = np.zeros((nr, N))
            pb = np.zeros(nr)
            for r, cc, v, bb in zip(R, C, V, B):
                for ri, vi, bi in zip(r, v, bb):
                    pa[ri, cc] += vi
                    pb[ri] += bi
            A = np.vstack([A, pa])
            b = np.append(b, pb)
    return A, b


def smooth(n):
    """Is the mixture of Gaussians for this Sersic index a smooth function of it, over a derivative step?"""
    from tractor.sersic import SersicMixture
    return n > 0.65 and len(set(len(SersicMixture.getProfile(q).amp) for q in (n - 0.011, n, n + 0.011))) == 1


def cut(tr, masks):
    """Leave out the images in which the source has no mask."""
    keep = [i for i, m in enumerate(masks) if m is not None]
    mm = [tr.modelMasks[i] for i in keep]
    return keep, mm


def check_update(c, ctx):
    from .c13 import solve
    w = c['w']
    tr, masks = build(w)
    N = tr.numberOfParams()
    if N == 0:
        raise Skip()
    o = gpu(c, tr, w)
    p0 = tr.getParams()
    X = o.getLinearUpdateDirection(tr, priors=c['priors'], shared_params=False)
    require(tr.getParams() == p0, 'asking for an update changed the parameters')
    ims = good(tr, masks)
    if not ims:
        require(X is None, 'an update was proposed though no image has a mask')
        return
    wing = any(i['side'] and not i['full'] and not i['nomask'] for i in w['ims'])
    signs = [0]
    if hasattr(tr.catalog[0], 'sersicindex') and w['frz'] != 'sersicindex':
        n = tr.catalog[0].sersicindex.getValue()
        if not smooth(n):
            # the mixture of Gaussians changes abruptly: the derivative depends on which way the step goes
            if n < 0.65 or n > 6.28:
                raise Skip()
            signs = [1, -1]
            ctx.tag('abrupt')
    errs = []
    for sign in signs:
        A, b = linear(tr, w, c['priors'], sign)
        Xg, live, cond, sc = solve(A, b)
        if not live.any():
            require(X is None or not np.any(X), 'an update was proposed though nothing can improve')
            return
        require(X is not None and len(X) == N, lambda: 'update has %s entries, for %i parameters' % ('no' if X is None else len(X), N))
        if cond > 100. or wing:
            # (nearly degenerate, or only a wing of the source in view: derivatives are not accurate enough)
            raise Skip()
        X = np.asarray(X, float)
        require(not np.any(X[~live]), lambda: 'a change was proposed for parameters %s, which influence nothing' % [n for n, l in zip(tr.getParamNames(), live) if not l])
        o0 = 0.5 * np.sum(b**2)
        best = 0.5 * np.sum((b - np.dot(A, Xg))**2)
        obj = 0.5 * np.sum((b - np.dot(A, X))**2)
        if obj - best <= (5e-3 if w['t'] == 'sersic' else 1e-3) * (o0 - best) + 3e-2 + (0.01 * snr(tr))**2:
            break
        errs.append('the proposed update gives linearised objective %.9g; the minimum is %.9g (no update: %.9g, condition %.2g); update %s, expected %s' % (obj, best, o0, cond, X, Xg))
    else:
        require(False, lambda: ' / '.join(errs))
    ctx.tag(w['t'], 'cached' if c['cache'] else 'fresh')
    ctx.nt(live.sum() >= 2)


def check_try(c, ctx):
    from tractor.smarter_dense_optimizer import SmarterDenseOptimizer
    w = c['w']
    tr, masks = build(w)
    N = tr.numberOfParams()
    if N == 0:
        raise Skip()
    p0 = tr.getParams()
    if c.get('jump') is not None:
        # begin many pixels away from where the source is; the direction points there
        src = tr.catalog[0]
        src.thawParam('pos')
        N = tr.numberOfParams()
        deg = w['pixscale'] / 3600.
        p1 = np.array(tr.getParams())
        j = tr.getParamNames().index('catalog.source0.pos.ra')
        d = np.array(c['jump']) * deg / np.array([np.cos(np.deg2rad(w['dec'])), 1.])
        p1[j:j + 2] += d
        tr.setParams(p1)
        p0 = tr.getParams()
        for im, m in zip(tr.images, masks):
            x, y = im.getWcs().positionToPixel(src.getPosition(), src)
            if m is not None and not (m[0] + 1 < x < m[1] - 2 and m[2] + 1 < y < m[3] - 2):
                raise Skip()
        if c['cache'] is not None:
            # (cached around where the source really is)
            c = dict(c, cache=[a - b for a, b in zip(c['cache'], c['jump'])])
    o = gpu(c, tr, w)
    redo = [0]
    inner = getattr(o, 'gpu_one_source_try_updates', None)
    if inner is not None:
        # (only counted, for the record)
        def count(*a, **k):
            redo[0] += 1
            return inner(*a, **k)
        o.gpu_one_source_try_updates = count
    if c.get('jump') is not None:
        X = np.zeros(N)
        X[j:j + 2] = -d
    elif c['dir'] is None:
        X = o.getLinearUpdateDirection(tr, priors=c['priors'], shared_params=False)
        if X is None:
            raise Skip()
        if cap(tr, w, X) * (c['alphas'] or [2.])[-1] > (14. if w['t'] == 'ptsrc' else 4.):
            raise Skip()
    else:
        X = np.resize(np.array(c['dir'], float), N) * scales(tr, w)
        X *= min(1., (14. if w['t'] == 'ptsrc' else 4.) / max(1e-9, cap(tr, w, X) * (c['alphas'] or [2.])[-1]))
    if c['edge'] and hasattr(tr.catalog[0], 'sersicindex') and w['frz'] != 'sersicindex':
        # begin on a bound, or within a step of it
        n = tr.catalog[0].sersicindex
        p0 = list(p0)
        i = tr.getParamNames().index('catalog.source0.sersicindex.SersicIndex')
        p0[i] = {'hi': n.upper, 'lo': n.lower, 'nearhi': n.upper - 0.03, 'nearlo': n.lower + 0.03}[c['edge']]
        tr.setParams(p0)
    cpu = SmarterDenseOptimizer()
    for q in (o, cpu):
        q.hit_limit = q.last_step_hit_limit = q.stepLimited = False
    steps = cpu.getParameterSteps(tr, X, c['alphas'])
    cpu.hit_limit = cpu.last_step_hit_limit = cpu.stepLimited = False
    lnp0 = tr.getLogProb()
    # the change of log-posterior along the line, from the optimizer's own models of the scene
    want = []
    for q in ([gpu(dict(c, cache=[0., 0.]), tr, w)] + ([gpu(c, tr, w)] if c['cache'] else [])):
        L = [lnlike(q, tr, masks)]
        for _, p, _, _ in steps:
            tr.setParams(p)
            L.append(lnlike(q, tr, masks))
        tr.setParams(p0)
        want.append(L)
    with quiet():
        d, a = o.tryUpdates(tr, X, alphas=c['alphas'])
    p1 = tr.getParams()
    lnp1 = tr.getLogProb()
    ctx.tag(w['t'], 'cached' if c['cache'] else 'fresh')
    if redo[0] > 1:
        ctx.tag('redone')
    if not good(tr, masks):
        require(d == 0. and a == 0. and p1 == p0, 'something was changed though no image has a mask')
        return
    if not steps:
        require(d == 0. and a == 0. and p1 == p0, 'no step is possible, but one was taken')
        require(o.hit_limit and o.last_step_hit_limit, 'no step is possible because of the bounds, but hitting them was not reported')
        ctx.tag('no-step')
        return
    k = 0
    if a > 0:
        ks = [i for i, t in enumerate(steps) if t[0] == a]
        require(len(ks) >= 1 and any(p1 == steps[i][1] for i in ks), lambda: 'parameters after a step of alpha=%g: %s; expected %s' % (a, p1, [steps[i][1] for i in ks]))
        k = ks[0] + 1
        require(o.last_step_hit_limit == steps[k - 1][3], 'whether the accepted step hit a bound was reported wrong')
    else:
        require(p1 == p0 and d == 0., 'no step was accepted, but the parameters changed')
    errs = []
    for L in want:
        e = judge(L, k, d)
        if e is None:
            break
        errs.append(e)
    else:
        require(False, lambda: ' / '.join(errs))
    require(a == 0. or lnp1 - lnp0 > -0.5 - 0.05 * d - 1e-3 * snr(tr) * np.sqrt(-2. * lnp0), lambda: 'the accepted step is said to gain %g, but log-posterior went from %g to %g' % (d, lnp0, lnp1))
    if a > 0.:
        ctx.tag('accepted')
        if steps[k - 1][3]:
            ctx.tag('hit-limit')
    ctx.nt(a > 0)


def lnlike(o, tr, masks):
    """-> the residuals, and the log-prior"""
    src = tr.catalog[0]
    ims = good(tr, masks)
    chi = []
    P = o.gpu_one_source_models(tr) if (src is not None and ims) else [None] * len(ims)
    for im, p in zip(ims, P):
        mod = np.zeros(im.shape)
        if p is not None:
            p.addTo(mod)
        if len(tr.catalog) == 2:
            m = tr.getModelPatch(im, tr.catalog[1])
            m.addTo(mod)
        x = np.zeros(im.shape)
        box = tr._getModelMaskFor(im, src if src is not None else tr.catalog[1])
        sl = (slice(box.y0, box.y1), slice(box.x0, box.x1))
        x[sl] = ((im.getImage() - mod) * im.getInvError())[sl]
        chi.append(x.ravel())
    return (np.concatenate(chi) if chi else np.zeros(1)), tr.getLogPrior()


def judge(L, k, d):
    """L: state 0, then one state per step; k: which was accepted; d: the gain that was reported."""
    c0, l0 = L[0]
    gains, tols = [], []
    for c, l in L:
        dc = c - c0
        gains.append((l - l0) - 0.5 * (2. * np.sum(c0 * dc) + np.sum(dc**2)))
        tols.append(2e-3 + 1e-4 * (np.sum(np.abs(c0 * dc)) + np.sum(dc**2)) + 1e-5 * abs(l0))
    if k and abs(gains[k] - d) > tols[k]:
        return 'the accepted step gains %g, but %g was reported' % (gains[k], d)
    best, reached = 0., True
    for i in range(1, len(L)):
        if not np.isfinite(gains[i]):
            break
        if reached and i > k and gains[i] > gains[k] + tols[i] + tols[k]:
            return 'step %i gains %g, but step %i was taken, which gains %g (all: %s)' % (i, gains[i], k, gains[k], gains)
        if i <= k and gains[i] > gains[k] + tols[i] + tols[k]:
            return 'step %i gains %g, but step %i was taken, which gains %g (all: %s)' % (i, gains[i], k, gains[k], gains)
        if gains[i] < best - 1. + tols[i]:
            # (perhaps) the end of the search
            if i < k and gains[i] < best - 1. - 2. * tols[i]:
                return 'the search went on after step %i, which is worse by %g' % (i, best - gains[i])
            break
        best = max(best, gains[i])
    return None


def check_loop(c, ctx):
    from tractor.smarter_dense_optimizer import SmarterDenseOptimizer
    # (with only a wing of the source in view, it may run away)
    w = dict(c['w'], ims=[dict(i, side='', bad='pix' if i['bad'] == 'half' else i['bad']) for i in c['w']['ims']])
    tr, masks = build(w)
    if tr.numberOfParams() == 0 or not good(tr, masks):
        raise Skip()
    p0 = tr.getParams()
    lnp0 = tr.getLogProb()
    kw = dict(priors=c['priors'], shared_params=False, alphas=[0.1, 0.3, 1.], dchisq=0.1)
    res = []
    for o in (gpu(c, tr, w), SmarterDenseOptimizer()):
        tr.setParams(p0)
        tr.optimizer = o
        with quiet():
            R = tr.optimize_loop(**kw)
        res.append((tr.getLogProb(), R, tr.getParams()))
    (l1, R1, p1), (l2, R2, p2) = res
    lo, hi = tr.getLowerBounds(), tr.getUpperBounds()
    require(all((a is None or v >= a) and (b is None or v <= b) for v, a, b in zip(p1, lo, hi)), lambda: 'parameters %s outside their bounds' % p1)
    require(l1 > lnp0 - 0.5 - 1e-3 * snr(tr) * np.sqrt(-2. * lnp0), lambda: 'the fit made log-posterior worse: %g to %g' % (lnp0, l1))
    # (a free Sersic index creeps by small steps, and which ones is delicate)
    creep = w['t'] == 'sersic' and w['frz'] != 'sersicindex'
    require(creep or l1 >= l2 - 2. - 0.1 * (l2 - lnp0), lambda: 'the fit went from log-posterior %g to %g only; the ordinary optimizer gets to %g' % (lnp0, l1, l2))
    ctx.tag(w['t'])
    ctx.nt(True)


def check_lanczos(c, ctx):
    from tractor.gpu_optimizer import GpuOptimizer
    o = GpuOptimizer('numpy')
    r = gen.rng(c['seed'])
    img = r.normal(size=(c['nim'], c['nmod'], c['H'], c['W'])).astype(np.float32)
    shape = (c['nim'], c['nmod']) if c['each'] else (c['nim'],)
    x = np.round(r.uniform(-0.5, 0.5, size=shape), 2)
    y = np.round(r.uniform(-0.5, 0.5, size=shape), 2)
    x.flat[0], y.flat[0] = c['x0'], c['y0']
    x, y = x.astype(np.float32), y.astype(np.float32)

    def kern(d):
        t = np.arange(-3, 4) + float(d)
        k = np.where(np.abs(t) < 3, np.sinc(t) * np.sinc(t / 3.), 0.)
        return k / k.sum()
    want = np.zeros(img.shape)
    for i in range(c['nim']):
        for j in range(c['nmod']):
            kx = kern(x[i, j] if c['each'] else x[i])
            ky = kern(y[i, j] if c['each'] else y[i])
            P = np.pad(img[i, j].astype(float), 3)
            P = sum(k * P[:, a:a + c['W']] for a, k in enumerate(kx))
            want[i, j] = sum(k * P[a:a + c['H'], :] for a, k in enumerate(ky))
    inp = img.copy()
    if c['inplace']:
        out = inp
    else:
        out = np.full(img.shape, 7., np.float32)
    o.lanczos_shift_images_gpu(inp, out, x, y, work=np.full(img.shape, 3., np.float32) if c['work'] else None)
    close(out, want, 1e-4, 0., 'image shifted by a sub-pixel amount')
    if not c['inplace']:
        require(np.array_equal(inp, img), 'shifting changed the input image')
    ctx.nt(c['nim'] * c['nmod'] > 1)


def check_fallback(c, ctx):
    """What the batched code does not handle goes to the ordinary optimizer."""
    from tractor.gpu_optimizer import GpuOptimizer, GpuFriendlyOptimizer
    from tractor.smarter_dense_optimizer import SmarterDenseOptimizer
    from .c13 import full_masks
    w = c['w']
    tr = gen.build_world(w)
    for im in tr.images:
        im.freezeAllBut('sky')
    if not c['fitsky']:
        tr.freezeParam('images')
    full_masks(tr)
    if tr.numberOfParams() == 0:
        raise Skip()
    if c['which'] == 'gpu' and not c['fitsky'] and len(tr.catalog) == 1 and w['srcs'][0]['t'] in ('ptsrc', 'exp', 'dev', 'sersic', 'fcomp'):
        raise Skip()
    p0 = tr.getParams()
    res = []
    for o in (GpuOptimizer('numpy') if c['which'] == 'gpu' else GpuFriendlyOptimizer(), SmarterDenseOptimizer()):
        tr.setParams(p0)
        try:
            with quiet():
                X = o.getLinearUpdateDirection(tr, priors=True, shared_params=False)
                t = (0., 0.) if X is None else o.tryUpdates(tr, X, alphas=[0.1, 0.3, 1.])
        except RuntimeError as e:
            if 'sourceOut' in str(e) or 'modelmasks' in str(e):
                raise Skip()
            raise
        res.append((None if X is None else list(X), t, tr.getParams()))
    require(res[0] == res[1], lambda: 'fallback gave %s; the ordinary optimizer %s' % (res[0], res[1]))
    ctx.nt(res[0][0] is not None)


def cap(tr, w, X):
    """The largest motion of the source, in pixels."""
    s = scales(tr, w)
    m = [abs(x / q) for n, x, q in zip(tr.getParamNames(), X, s) if n.split('.')[-1] in ('ra', 'dec')]
    return sum(m)


def case(far=False, **kw):
    near = st.tuples(fl(-3, 3, 1), fl(-3, 3, 1)).map(list)
    c = [st.none(), near]
    if far:
        c.append(st.tuples(fl(-30, 30, 1), fl(-30, 30, 1)).map(list))
    return dict(w=world(**kw), cache=st.one_of(c), pickle=st.booleans(), priors=pick(True, True, False))


def trycase():
    return st.fixed_dictionaries(dict(case(far=True, types=('ptsrc', 'gauss', 'exp', 'dev', 'sersic', 'sersic', 'none')), dir=st.one_of(st.none(), lst(fl(-1., 1., 2), 6), st.tuples(lst(fl(-9., 9., 1), 2), lst(fl(-1., 1., 2), 4)).map(lambda t: t[0] + t[1])),
                                      edge=pick(None, None, 'hi', 'lo', 'nearhi', 'nearlo'), alphas=pick(None, [0.1, 0.3, 1.], [1.], [0.5, 1., 1.5, 3.])))


def whole(c):
    for i in c['w']['ims']:
        i.update(side='', W=max(i['W'], 40), H=max(i['H'], 40))
        if i['seed'] % 3:
            i['full'] = True
    return c


SUBS = [
    Sub('models', st.fixed_dictionaries(case(types=('ptsrc', 'gauss', 'exp', 'dev', 'sersic'))), check_models, quick=500, thorough=2000, shards=2),
    Sub('update', st.fixed_dictionaries(case(far=True)), check_update, quick=600, thorough=2000, shards=2),
    Sub('index', st.fixed_dictionaries(case(far=True, types=('sersic',), nim=(1, 2))), check_update, quick=400, thorough=4000, shards=2),
    Sub('lanczos', st.fixed_dictionaries(dict(nim=st.integers(1, 3), nmod=st.integers(1, 3), H=st.integers(7, 14), W=st.integers(7, 14), seed=gen.seeds, each=st.booleans(),
                                              x0=pick(0., 0.5, -0.5, 0.25), y0=pick(0., 0.5, -0.5, -0.1), inplace=st.booleans(), work=st.booleans())),
        check_lanczos, quick=300, thorough=2000, shards=1),
    Sub('fallback', st.fixed_dictionaries(dict(
        w=gen.world_spec(nim=(1, 2), nsrc=(1, 3), systems=('flux', 'nmgy'), types=('ptsrc', 'exp', 'dev', 'comp', 'fcomp', 'sersic'), psfs=('ncirc', 'mog', 'hybrid'),
                         wmin=12, wmax=26, rmax=3., margin=-2.),
        which=pick('gpu', 'friendly'), fitsky=st.booleans())), check_fallback, quick=120, thorough=600, shards=1),
    Sub('loop', st.fixed_dictionaries(case(far=True)), check_loop, quick=240, thorough=1500, shards=2),
    Sub('jump', st.fixed_dictionaries(dict(case(types=('ptsrc', 'ptsrc', 'gauss', 'exp'), nim=(1, 2)), dir=st.none(), edge=st.none(),
                                           jump=st.tuples(fl(-18., 18., 1), fl(-18., 18., 1)).map(list), alphas=pick([0.5, 1., 1.5], [1.], [0.3, 1.]))).map(whole),
        check_try, quick=300, thorough=3000, shards=2),
    Sub('try', trycase(), check_try, quick=500, thorough=2000, shards=2),
]
