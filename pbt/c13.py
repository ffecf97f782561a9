"""C13: on linear problems every optimizer finds the exact weighted least-squares answer."""
import functools
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close, Skip
from .gen import fl, pick, lst

PROP = 'C13'
RULE = ('A case is 1-3 images (masked pixels, different noise, calibration, PSF), 1-4 sources of any type whose free parameters are '
        'linear (fluxes, constant skies), some frozen, some shared between images or sources, some with Gaussian priors, some off '
        'the image; and one optimizer with one setting. The design matrix is measured by rendering the model at moved '
        'parameters, and solved with plain float64 linear algebra. A second family gives each optimizer the linearised '
        'problem of a nonlinear scene. Non-trivial: at least two free parameters that influence unmasked pixels.')
ASSUMPTIONS = ['posterior compared to 0.1 percent of the possible improvement; parameters to 3 percent of their own standard deviation',
               'parameters are compared only when the column-scaled design matrix has condition number below 1e3']

WIN = st.one_of(st.none(), lst(fl(0., 1., 2), 4))
OPTS = ('lsqr', 'lsqr-noscale', 'lsqr-noshare', 'constrained', 'dense', 'dense-noscale', 'smarter', 'ceres')


def optimizer(name):
    if name.startswith('lsqr'):
        from tractor.lsqr_optimizer import LsqrOptimizer
        o = LsqrOptimizer()
    elif name.startswith('dense'):
        from tractor.dense_optimizer import ConstrainedDenseOptimizer
        o = ConstrainedDenseOptimizer()
    elif name.startswith('smarter'):
        from tractor.smarter_dense_optimizer import SmarterDenseOptimizer
        o = SmarterDenseOptimizer()
    elif name == 'constrained':
        from tractor.constrained_optimizer import ConstrainedOptimizer
        o = ConstrainedOptimizer()
    else:
        from tractor.ceres_optimizer import CeresOptimizer
        o = CeresOptimizer()
    kw = {}
    if name.startswith(('dense', 'smarter')) or name.endswith('noshare'):
        kw['shared_params'] = False
    if name.endswith('noscale'):
        kw['scale_columns'] = False
    if name == 'ceres':
        kw['print_progress'] = False
        kw['dlnp'] = 1e-8
    return o, kw


def roam(check):
    """A fit with whole-image masks may move a galaxy out of the image, which a pixelized PSF refuses."""
    @functools.wraps(check)
    def wrapped(c, ctx):
        try:
            return check(c, ctx)
        except RuntimeError as e:
            if c['opt'] == 'smarter' and 'sourceOut' in str(e):
                raise Skip()
            raise
    return wrapped


def full_masks(tr, win=None):
    """Every source gets a whole-image mask (or one common window) in every image."""
    from tractor.patch import ModelMask
    from tractor.psf import PixelizedPSF, HybridPSF
    for im in tr.images:
        psf = im.getPsf()
        if isinstance(psf, PixelizedPSF) and not isinstance(psf, HybridPSF):
            for src in tr.catalog:
                x, y = im.getWcs().positionToPixel(src.getPosition(), src)
                if not (0 < x < im.getWidth() - 1 and 0 < y < im.getHeight() - 1):
                    # documented as impossible: a galaxy centred outside its mask
                    raise Skip()
    boxes = []
    for im in tr.images:
        W, H = im.getWidth(), im.getHeight()
        box = (0, 0, W, H)
        if win is not None:
            x0, y0 = int(win[0] * W / 2), int(win[1] * H / 2)
            box = (x0, y0, max(3, int(win[2] * (W - x0))), max(3, int(win[3] * (H - y0))))
            psf = im.getPsf()
            if isinstance(psf, PixelizedPSF) and not isinstance(psf, HybridPSF):
                for src in tr.catalog:
                    x, y = im.getWcs().positionToPixel(src.getPosition(), src)
                    if not (box[0] < x < box[0] + box[2] - 1 and box[1] < y < box[1] + box[3] - 1):
                        box = (0, 0, W, H)
        boxes.append(box)
    tr.setModelMasks([dict((src, ModelMask(*box)) for src in tr.catalog) for box in boxes])


def linear_world(c):
    """A Tractor whose thawed parameters all enter the model linearly."""
    w = c['w']
    tr = gen.build_world(w)
    if c['sharesky'] and len(tr.images) > 1:
        for im in list(tr.images)[1:]:
            im.sky = tr.images[0].sky
    if c['shareflux'] and len(tr.catalog) > 1:
        a, b = tr.catalog[0], tr.catalog[1]
        if hasattr(a, 'brightness') and hasattr(b, 'brightness'):
            b.brightness = a.brightness
    for src in tr.catalog:
        names = [n for n in ('brightness', 'brightnessExp', 'brightnessDev', 'brightnessPsf')
                 if n in src.getNamedParams()]
        src.freezeAllBut(*names)
    for im in tr.images:
        im.freezeAllBut('sky')
    if not c['fitsky']:
        tr.freezeParam('images')
    for i, f in enumerate(c['frz']):
        if f == 1 and i < len(tr.catalog) - 1 and not c['shareflux']:
            tr.catalog.freezeParam(i)
        if f == 2 and i < len(tr.catalog):
            b = tr.catalog[i].getBrightnesses()[0]
            if b.numberOfParams() > 1:
                b.freezeParam(0)
    # data: a noisy scene of other fluxes
    true = [im for im in tr.images]
    for k, im in enumerate(true):
        im.data = (im.data + c['amp'] * tr.getModelImage(im, sky=False) + c['dsky']).astype(im.data.dtype)
    # priors
    pri = []
    for i, (on, mu, sg) in enumerate(c['pri']):
        if not on or i >= len(tr.catalog):
            continue
        b = tr.catalog[i].getBrightnesses()[-1]
        if hasattr(b, 'addGaussianPrior'):
            b.addGaussianPrior(list(b.getNamedParams().keys())[-1] if b.getNamedParams() else b.getParamNames()[0], mu, sg)
            pri.append(i)
    tr.haspriors = len(pri) > 0
    return tr


def groups(tr):
    """Lists of parameter indices that are one and the same parameter."""
    p0 = tr.getParams()
    tr.setParams(list(range(len(p0))))
    p1 = tr.getParams()
    tr.setParams(p0)
    g = {}
    for i, v in enumerate(p1):
        g.setdefault(v, []).append(i)
    return list(g.values())


def models(tr):
    """float64 concatenated model of all images, as the sum of its parts."""
    from .c11 import model
    return np.concatenate([model(tr, im).ravel() for im in tr.images])


def design(tr, gs, priors):
    """A, b, in units of sigma: one column per group; prior rows appended."""
    p0 = np.array(tr.getParams(), float)
    ie = np.concatenate([im.getInvError().astype(float).ravel() for im in tr.images])
    d = np.concatenate([im.getImage().astype(float).ravel() for im in tr.images])
    m0 = models(tr)
    cols = []
    h = 500.
    for g in gs:
        p = p0.copy()
        p[g] += h
        tr.setParams(p)
        cols.append((models(tr) - m0) / h * ie)
    tr.setParams(p0)
    A = np.array(cols).T
    b = (d - m0) * ie
    if priors:
        # the log-prior is -1/2 sum ((p-mu)/sigma)^2: its rows follow from its values
        rows, rhs = [], []
        L0 = tr.getLogPrior()
        for j, g in enumerate(gs):
            p = p0.copy()
            p[g] += h
            tr.setParams(p)
            Lp = tr.getLogPrior()
            p[g] -= 2. * h
            tr.setParams(p)
            Lm = tr.getLogPrior()
            c2 = -(Lp + Lm - 2. * L0) / h**2
            c1 = (Lp - Lm) / (2. * h)
            if c2 > 1e-14:
                r = np.zeros(len(gs))
                r[j] = np.sqrt(c2)
                rows.append(r)
                rhs.append(c1 / np.sqrt(c2))
        tr.setParams(p0)
        if rows:
            A = np.vstack([A, rows])
            b = np.append(b, rhs)
    return A, b


def solve(A, b):
    sc = np.sqrt((A**2).sum(axis=0))
    live = sc > 0
    X = np.zeros(A.shape[1])
    cond = 1.
    if live.any():
        B = A[:, live] / sc[live]
        u, s, vt = np.linalg.svd(B, full_matrices=False)
        cond = s[0] / max(s[-1], 1e-30)
        keep = s > 1e-6 * s[0]
        X[live] = np.dot(vt[keep].T, np.dot(u[:, keep].T, b) / s[keep]) / sc[live]
    return X, live, cond, sc


def reaches(d, im):
    m = np.zeros(im.shape)
    if d.patch is not None:
        d.addTo(m)
    return np.any(m * im.getInvError() != 0)


def check_linear(c, ctx):
    tr = linear_world(c)
    np0 = tr.numberOfParams()
    if np0 == 0:
        raise Skip()
    gs = groups(tr)
    shared = any(len(g) > 1 for g in gs)
    name = c['opt']
    o, kw = optimizer(name)
    if shared and not (name in ('lsqr', 'lsqr-noscale', 'constrained')):
        raise Skip()
    if name == 'smarter':
        full_masks(tr, None if c['fitsky'] else c['win'])
    tr.optimizer = o
    kw['priors'] = c['priors']
    p0 = np.array(tr.getParams())
    all0 = np.array(tr.getAllParams(), float)
    lnl0 = tr.getLogLikelihood()
    lpr0 = tr.getLogPrior()
    A, b = design(tr, gs, c['priors'])
    Xg, live, cond, sc = solve(A, b)
    obj0 = 0.5 * np.sum(b**2)
    best = 0.5 * np.sum((b - np.dot(A, Xg))**2)
    gain = obj0 - best
    if name.endswith('noscale') and live.any() and sc[live].max() / sc[live].min() * cond > 300.:
        raise Skip()
    # sources whose faintest wings only reach the image are rendered less accurately
    unit = max(gen.ref_counts(c['w']['system'], i['pc'], [1.] * 3) / i['sig'] for i in c['w']['ims'])
    weak = live.any() and sc[live].min() < 0.02 * unit
    if live.any() and sc[live].min() < 1e-4 * unit:
        raise Skip()
    wantvar = c['var'] and name in ('lsqr', 'lsqr-noshare', 'constrained', 'ceres')
    if wantvar:
        kw['variance'] = True
        if name != 'ceres' and c['priors']:
            V = tr.optimize(just_variance=True, **kw)
            require(not live.any() or len(V) == np0, lambda: 'just_variance gave %i variances for %i parameters' % (len(V), np0))
            require(np.array_equal(tr.getParams(), p0), 'asking for variances only changed the parameters')
    D = tr.getDerivs()
    r = tr.optimize(**kw)
    ctx.tag(name)
    if not live.any():
        close(tr.getParams(), p0, 0., 1e-9, 'parameters that influence nothing, after the step')
        ctx.tag('nothing-live')
        return
    p1 = np.array(tr.getParams(), float)
    Xs = np.array([p1[g[-1]] - p0[g[-1]] for g in gs])
    for j, g in enumerate(gs):
        require(np.all(p1[g] == p1[g[0]]), 'a shared parameter ended with two values')
        if not live[j]:
            if any(reaches(d, im) for k in g for d, im in D[k]):
                # (an influence too small to show in the model)
                raise Skip()
            require(abs(p1[g[0]] - p0[g[0]]) <= 1e-9 * (1. + np.abs(p1).max()), lambda: 'parameter %s influences no pixel and has no prior, but was changed by %g'
                    % (tr.getParamNames()[g[0]], p1[g[0]] - p0[g[0]]))
    obj = 0.5 * np.sum((b - np.dot(A, Xs))**2)
    tol = 1e-3 * gain + 1e-3 + 3e-6 * abs(obj0)
    if weak:
        tol += 0.02 * gain
        ctx.tag('weak')
    if cond > 1e4:
        tol += 0.05 * gain
    if cond > 1e6:
        raise Skip()
    if name == 'ceres' and sc[live].min() < 1e-3:
        # (a trust-region solver stops early along directions that hardly matter)
        raise Skip()
    if name == 'ceres' and (~live).any():
        ctx.tag('ceres-dead')
    # the line search judges by the full posterior: when told to leave the prior
    # out of the step, the two disagree
    pri_matters = tr.haspriors and not c['priors']
    if pri_matters and name != 'ceres':
        ctx.tag('prior-ignored')
        return
    require(obj - best <= tol, lambda: '%s: one step on a linear problem left -log(posterior) at %.9g; the minimum is %.9g (start %.9g; condition %.2g; '
            'step taken %s; exact step %s)' % (name, obj, best, obj0, cond, Xs, Xg))
    # what the code itself says about it
    lnl1 = tr.getLogLikelihood()
    close((lnl1 + (tr.getLogPrior() if c['priors'] else 0.)) - (lnl0 + (lpr0 if c['priors'] else 0.)), obj0 - obj,
          tol + 1e-3, 0., 'change of log-posterior over the step')
    if cond < 1e3 and not weak:
        C = np.linalg.inv(np.dot(A[:, live].T, A[:, live]))
        sig = np.sqrt(np.diag(C))
        # float32 residuals
        slop = 3e-6 * np.linalg.norm(b)
        close(Xs[live], Xg[live], sig * (0.03 + slop + np.sqrt(2. * 1e-6 * gain)), 1e-4, '%s: parameters of the solution' % name)
        if wantvar:
            var = np.array(r[-1])
            require(len(var) == np0, lambda: '%i variances for %i parameters' % (len(var), np0))
            if name == 'ceres':
                want = np.diag(C)
                what = 'marginal variance (diagonal of the inverse of the normal matrix)'
                if not live.all():
                    raise Skip()
            else:
                want = 1. / sc[live]**2
                what = 'variance (inverse of the curvature of the posterior in that parameter)'
            got = np.array([var[g[0]] for g in gs])[live]
            close(got, want, 0., 2e-3, '%s: %s' % (name, what))
            ctx.tag('variance')
    ctx.nt(live.sum() >= 2)
    if shared:
        ctx.tag('shared')
    if (~live).any():
        ctx.tag('dead-column')
    if tr.haspriors and c['priors']:
        ctx.tag('priors')


def check_direction(c, ctx):
    """The step each optimizer proposes minimises the linearised problem that the
    published derivatives and residuals define."""
    from .c11 import leaves, soften
    w = c['w']
    tr = gen.build_world(w)
    for s in tr.catalog:
        soften(s)
    for i, v in enumerate(leaves(tr.catalog)):
        node, k = v
        if c['frz'][i % len(c['frz'])]:
            node.freezeParam(k)
    for im in tr.images:
        im.freezeAllBut('sky')
        if not c['fitsky']:
            im.freezeAllParams()
    for i, (on, mu, sg) in enumerate(c['pri']):
        if on and i < len(tr.catalog):
            b = tr.catalog[i].getBrightnesses()[0]
            if hasattr(b, 'addGaussianPrior') and b.getNamedParams():
                b.addGaussianPrior(list(b.getNamedParams().keys())[0], mu, sg)
            pos = tr.catalog[i].getPosition()
            pos.addGaussianPrior(list(pos.getNamedParams().keys())[0], pos.getAllParams()[0] + 1e-4, 0.01)
    N = tr.numberOfParams()
    if N == 0:
        raise Skip()
    name = c['opt']
    o, kw = optimizer(name)
    if name == 'smarter' or c['full']:
        full_masks(tr, None if c['fitsky'] else c['win'])
    A = []
    D = tr.getDerivs()
    require(len(D) == N, lambda: '%i derivatives for %i parameters' % (len(D), N))
    for j in range(N):
        col = []
        for im in tr.images:
            m = np.zeros(im.shape)
            for d, dim in D[j]:
                if dim is im and d is not None and d.patch is not None:
                    d.addTo(m)
            col.append((m * im.getInvError()).ravel())
        A.append(np.concatenate(col))
    A = np.array(A).T
    b = np.concatenate([tr.getChiImage(img=im).astype(float).ravel() for im in tr.images])
    if c['priors']:
        P = tr.getLogPriorDerivatives()
        if P is not None:
            R, C, V, B, _ = P
            nr = max([max(r) for r in R]) + 1
            pa = np.zeros((nr, N))
            pb = np.zeros(nr)
            for r, cc, v, bb in zip(R, C, V, B):
                for ri, vi, bi in zip(r, v, bb):
                    pa[ri, cc] += vi
                    pb[ri] += bi
            A = np.vstack([A, pa])
            b = np.append(b, pb)
            ctx.tag('priors')
    Xg, live, cond, sc = solve(A, b)
    if not np.all(np.isfinite(A)) or cond > 1e4:
        raise Skip()
    damp = 0.
    if name.endswith('noscale') and live.any() and sc[live].max() / sc[live].min() * cond > 300.:
        raise Skip()
    if name == 'lsqr-noscale':
        if not live.any() or sc[live].max() / sc[live].min() * cond > 300.:
            raise Skip()
        damp = c['damp']
        kw['damp'] = damp
        if damp:
            Ad = np.vstack([A, damp * np.eye(N)])
            bd = np.append(b, np.zeros(N))
            A, b = Ad, bd
            Xg, live, cond, sc = solve(A, b)
    kw.pop('print_progress', None)
    kw.pop('dlnp', None)
    X = o.getLinearUpdateDirection(tr, priors=c['priors'], **kw)
    ctx.tag(name)
    if not live.any():
        require(X is None or len(X) == 0 or not np.any(np.asarray(X) != 0), 'a step was proposed though nothing can improve')
        return
    require(X is not None and len(X) == N, lambda: '%s: step has %s entries, for %i parameters' % (name, 'no' if X is None else len(X), N))
    X = np.asarray(X, float)
    require(np.all(np.abs(X[~live]) <= 1e-9 * (1. + np.abs(X).max())), 'a step was proposed for a parameter that influences nothing')
    o0 = 0.5 * np.sum(b**2)
    best = 0.5 * np.sum((b - np.dot(A, Xg))**2)
    obj = 0.5 * np.sum((b - np.dot(A, X))**2)
    # (iterative solvers stop short along the flattest directions)
    rel = 1e-2 if (cond > 100. and name.startswith(('lsqr', 'constrained'))) else 1e-3
    require(obj - best <= rel * (o0 - best) + 1e-3 + 3e-6 * o0,
            lambda: '%s: the proposed step gives linearised objective %.9g; the minimum is %.9g (no step: %.9g, condition %.2g)' % (name, obj, best, o0, cond))
    if name == 'smarter' and live.all():
        # the inverse covariance (normal matrix) it offers
        R = o.getUpdateDirection(tr, tr.getDerivs(), priors=c['priors'], shared_params=False, get_cov=True)
        require(R is not None and len(R) == 3, 'no inverse covariance was given')
        X2, ic, cols = R
        require(sorted(cols) == list(range(N)), lambda: 'the columns of the inverse covariance are %s, of %i' % (list(cols), N))
        close(X2, X[np.array(cols)], 1e-4 * np.abs(X).max(), 1e-3, 'step given along with the inverse covariance')
        S = sc[np.array(cols)]
        want = np.dot(A.T, A)[np.ix_(cols, cols)]
        close(np.asarray(ic, float) / np.outer(S, S), want / np.outer(S, S), 1e-3, 0., 'inverse covariance, relative to the curvature along each parameter')
        ctx.tag('covariance')
        if c['priors'] and tr.getLogPriorDerivatives() is not None:
            npix = sum(im.shape[0] * im.shape[1] for im in tr.images)
            H, G = o.getPriorsHessianAndGradient(tr)
            pa, pb = A[npix:], b[npix:]
            close(H, np.dot(pa.T, pa), 1e-5 * np.abs(pa).max()**2, 1e-4, 'Hessian of the priors')
            close(G, np.dot(pa.T, pb), 1e-5 * (1. + np.abs(np.dot(pa.T, pb)).max()), 1e-4, 'gradient of the priors')
    ctx.nt(live.sum() >= 2)
    if damp:
        ctx.tag('damped')


def case(opts=OPTS, **kw):
    d = dict(nim=(1, 3), nsrc=(1, 4), systems=('flux', 'fluxlin', 'fluxes', 'nmgy'), psfs=('ncirc', 'mog', 'pix', 'hybrid'), wmin=12, wmax=26, rmax=3.)
    d.update(kw)
    return st.fixed_dictionaries(dict(
        w=gen.world_spec(**d),
        opt=pick(*opts), win=WIN, sharesky=st.booleans(), shareflux=pick(False, False, True), fitsky=st.booleans(),
        frz=lst(pick(0, 0, 0, 1, 2), 4), amp=fl(0.2, 3., 1), dsky=fl(-5, 5, 1), priors=pick(True, True, True, False), var=st.booleans(),
        pri=lst(st.tuples(st.booleans(), fl(-50, 150, 1), fl(0.5, 20, 1)).map(list), 4)))


def dircase():
    return st.fixed_dictionaries(dict(
        w=gen.world_spec(nim=(1, 2), nsrc=(1, 2), systems=('flux', 'fluxlin', 'nmgy'), types=('ptsrc', 'exp', 'dev', 'comp', 'fcomp', 'sersic'),
                         psfs=('ncirc', 'mog', 'pix', 'hybrid'), wmin=12, wmax=26, rmax=3., margin=-2.),
        opt=pick(*[o for o in OPTS if o != 'ceres'], 'smarter'), win=WIN, full=st.booleans(), fitsky=st.booleans(),
        frz=lst(st.booleans(), 7), damp=pick(0., 0.5, 3.), priors=pick(True, True, False),
        pri=lst(st.tuples(st.booleans(), fl(-50, 150, 1), fl(0.5, 20, 1)).map(list), 2)))


def inside(c):
    for s in c['w']['srcs']:
        s['x'] = min(max(s['x'], 1.), c['w']['ims'][0]['W'] - 2.)
        s['y'] = min(max(s['y'], 1.), c['w']['ims'][0]['H'] - 2.)
    return c


SUBS = [
    Sub('linear', case(('lsqr', 'lsqr-noscale', 'lsqr-noshare', 'constrained', 'dense', 'dense-noscale')), check_linear, quick=500, thorough=8000, shards=4),
    Sub('many', case(('lsqr', 'lsqr-noshare', 'constrained', 'dense', 'smarter'), nim=(3, 6), nsrc=(4, 9), wmin=20, wmax=70, margin=-2.), check_linear, quick=100, thorough=2000, shards=2,
        doc='more and larger images, more sources'),
    Sub('smarter', case(('smarter',), margin=-2.), check_linear, quick=100, thorough=2000, shards=1),
    Sub('ceres', case(('ceres',)), check_linear, quick=100, thorough=2000, shards=1),
    Sub('direction', dircase(), check_direction, quick=300, thorough=5000, shards=2),
]
