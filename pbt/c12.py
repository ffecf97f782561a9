"""C12: an optimizer never makes things worse, and reports what it did."""
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close, Skip
from .gen import fl, pick, lst
from .c11 import leaves, soften
from .c13 import optimizer, full_masks, roam

PROP = 'C12'
RULE = ('A case is a nonlinear scene (1-2 images, 1-3 sources of any type, some parameters frozen, some with Gaussian priors, '
        'start values off the truth), one optimizer and a number of steps (single steps and the optimize loop). After every step the '
        'log-posterior, the parameters, the frozen values and the pixels are compared with those before. '
        'Non-trivial: at least one step improved the posterior by more than 1e-3.')
ASSUMPTIONS = ['histories in which a galaxy radius without bounds runs away beyond 60 arcsec, or an axis ratio or magnitude without bounds does, are dropped',
               'Ceres is run on sources whose every real parameter vector is legal (point sources, softened ellipses of fixed radius)']

OPTS = ('lsqr', 'lsqr-noshare', 'constrained', 'dense', 'smarter')


def scene(c):
    w = c['w']
    tr = gen.build_world(w)
    for s in tr.catalog:
        soften(s)
    # data drawn from the scene as specified
    for im in tr.images:
        im.data = (im.data + tr.getModelImage(im)).astype(im.data.dtype)
    L = leaves(tr.catalog)
    for i, (node, k) in enumerate(L):
        if c['frz'][i % len(c['frz'])]:
            node.freezeParam(k)
    for im in tr.images:
        im.freezeAllBut('sky')
        if not c['fitsky']:
            im.freezeAllParams()
    for i, (on, mu, sg) in enumerate(c['pri']):
        if on and i < len(tr.catalog):
            b = tr.catalog[i].getBrightnesses()[0]
            if hasattr(b, 'addGaussianPrior') and b.getNamedParams():
                n = list(b.getNamedParams().keys())[0]
                b.addGaussianPrior(n, mu if c['w']['system'] != 'mags' else 22., sg if c['w']['system'] != 'mags' else 0.3)
            pos = tr.catalog[i].getPosition()
            pos.addGaussianPrior(list(pos.getNamedParams().keys())[0], pos.getAllParams()[0] + 1e-5, 1e-4)
    # start somewhere else
    p = np.array(tr.getParams(), float)
    if len(p):
        h = np.array(tr.getStepSizes(), float)
        r = gen.rng(c['seed'])
        q = p + r.normal(size=len(p)) * np.abs(h) * c['off']
        for nm, j in zip(tr.getParamNames(), range(len(p))):
            lo, up = tr.getLowerBounds()[j], tr.getUpperBounds()[j]
            if (lo is not None and q[j] <= lo) or (up is not None and q[j] >= up):
                q[j] = p[j]
            if nm.endswith(('.ab', '.re', 'fracDev')):
                q[j] = p[j]
        tr.setParams(list(q))
    return tr


def frozen(tr):
    """Values of all parameters that are not thawed, by position in the tree."""
    out = []
    def walk(n, path, cold):
        from tractor.utils import MultiParams
        if n is None:
            return
        if isinstance(n, MultiParams):
            for i, s in enumerate(n.subs):
                walk(s, path + (i,), cold or not n.liquid[i])
        else:
            vals = n.getAllParams() if hasattr(n, 'getAllParams') else n.getParams()
            liq = getattr(n, 'liquid', [True] * len(vals))
            for i, v in enumerate(vals):
                if cold or not liq[i]:
                    out.append((path + (i,), v))
    walk(tr, (), False)
    return out


def lnp_by_hand(tr):
    L = 0.
    for im in tr.images:
        chi = (im.getImage().astype(float) - tr.getModelImage(im).astype(float)) * im.getInvError()
        L += -0.5 * np.sum(chi**2)
    return L + tr.getLogPrior()


def sane(tr):
    """Give up on histories in which an unbounded radius or magnitude runs away."""
    from tractor.brightness import Mags
    for s in tr.catalog:
        for sh in (getattr(s, n, None) for n in ('shape', 'shapeExp', 'shapeDev')):
            if sh is not None and not (sh.logre < 4.1 if hasattr(sh, 'logre') else abs(sh.re) < 60.):
                # nothing bounds the radius: the renderer has no room for it
                raise Skip()
            if hasattr(sh, 'ab') and not (0.02 < abs(sh.ab) < 50. and abs(sh.re) > 1e-3):
                # (nothing bounds these either)
                raise Skip()
        for b in s.getBrightnesses():
            if isinstance(b, Mags) and not all(m > -20. for m in b.getAllParams()):
                # nor the magnitude: counts beyond single precision
                raise Skip()


def spy(tr):
    """Record the (parameters, value) of each posterior evaluation."""
    seen = []
    real = tr.getLogProb

    def getLogProb(*a, **k):
        sane(tr)
        v = real(*a, **k)
        seen.append((list(tr.getParams()), v))
        return v
    tr.getLogProb = getLogProb
    return seen


@roam
def check_step(c, ctx):
    tr = scene(c)
    name = c['opt']
    o, kw = optimizer(name)
    if name == 'smarter':
        full_masks(tr)
    tr.optimizer = o
    if c['alphas']:
        kw['alphas'] = c['alphas']
    kw['priors'] = c['priors']
    if not np.isfinite(tr.getLogProb()):
        raise Skip()
    cold = frozen(tr)
    pix = [(im.getImage().copy(), im.getInvError().copy()) for im in tr.images]
    ctx.tag(name)
    for step in range(c['steps']):
        p0 = list(tr.getParams())
        L0 = tr.getLogProb()
        close(L0, lnp_by_hand(tr), 1e-4 + 1e-5 * abs(L0), 0., 'log-posterior before the step')
        seen = spy(tr)
        r = tr.optimize(**kw)
        del tr.getLogProb
        require(len(r) == 3, lambda: 'optimize() returned %i values' % len(r))
        dlnp, X, alpha = r
        L1 = tr.getLogProb()
        eps = 1e-9 * (1. + abs(L0))
        require(np.isfinite(L1), lambda: '%s left the posterior at %s' % (name, L1))
        require(L1 >= L0 - eps, lambda: '%s lowered the log-posterior from %.12g to %.12g' % (name, L0, L1))
        close(dlnp, L1 - L0, 10. * eps, 0., '%s: reported change of log-posterior' % name)
        close(L1, lnp_by_hand(tr), 1e-4 + 1e-5 * abs(L1), 0., 'log-posterior after the step')
        ok = [v for _, v in seen if np.isfinite(v)]
        if ok:
            require(L1 >= max(ok) - eps, lambda: '%s evaluated a point with log-posterior %.12g and settled for %.12g' % (name, max(ok), L1))
        p1 = list(tr.getParams())
        if dlnp == 0:
            require(p1 == p0, lambda: '%s reports no improvement but moved the parameters: %s -> %s' % (name, p0, p1))
            require(alpha == 0, lambda: '%s reports no improvement with step %s' % (name, alpha))
            ctx.tag('stuck')
        else:
            require(len(X) == len(p0), lambda: 'update direction has %i entries for %i parameters' % (len(X), len(p0)))
            want = np.array(p0) + alpha * np.array(X)
            for j, (lo, up) in enumerate(zip(tr.getLowerBounds(), tr.getUpperBounds())):
                if name not in ('lsqr', 'lsqr-noshare'):
                    # (a step that ends on a limit may be trimmed by rounding)
                    if lo is not None:
                        want[j] = max(want[j], lo)
                    if up is not None:
                        want[j] = min(want[j], up)
            close(p1, want, 1e-6 * (1e-6 + np.abs(np.array(X))), 1e-12, '%s: new parameters are old + alpha x direction' % name)
            if c['alphas'] and name in ('lsqr', 'lsqr-noshare'):
                require(alpha in c['alphas'], lambda: 'step length %s is none of the offered %s' % (alpha, c['alphas']))
        ctx.nt(dlnp > 1e-3)
        require(frozen(tr) == cold, 'frozen parameters changed')
        if dlnp == 0:
            break
        if name in ('constrained', 'dense', 'smarter') and step == 0:
            ctx.tag('stepped')
    for im, (d, e) in zip(tr.images, pix):
        require(np.array_equal(im.getImage(), d) and np.array_equal(im.getInvError(), e), 'the pixels of an image were changed')


@roam
def check_loop(c, ctx):
    tr = scene(c)
    name = c['opt']
    o, kw = optimizer(name)
    if name == 'smarter':
        full_masks(tr)
    tr.optimizer = o
    L0 = tr.getLogProb()
    if not np.isfinite(L0):
        raise Skip()
    cold = frozen(tr)
    seen = spy(tr)
    path = []
    if name not in ('lsqr', 'lsqr-noshare'):
        def cb(optimizer, tractor, dlnp, X, alpha):
            path.append((dlnp, list(tr.getParams())))
            return len(path) != c['veto']
        kw.update(check_step=cb, dchisq=c['dchisq'])
    r = tr.optimize_loop(steps=c['steps'], **kw)
    del tr.getLogProb
    L1 = tr.getLogProb()
    if path:
        last = path[-1][0]
        require(len(path) == r['steps'] + 1, lambda: '%s: called back %i times, %s reported' % (name, len(path), r))
        require(path[-1][1] == list(tr.getParams()), 'the parameters moved after the last step of the loop')
        require(len(path) <= c['veto'], lambda: '%s: asked to stop after step %i, but took %i' % (name, c['veto'], len(path)))
        if len(path) < min(c['steps'], c['veto']):
            require(last <= max(c['dchisq'], 1e-6), lambda: '%s: optimize_loop stopped at a step that gained %g (threshold %g)' % (name, last, c['dchisq']))
        free = all(v is None for f in (tr.getLowerBounds, tr.getUpperBounds, tr.getMaxStep) for v in f())
        for d, _ in path[:-1]:
            require(d > (c['dchisq'] if free else min(c['dchisq'], 1e-6)), lambda: '%s: optimize_loop carried on after a step that gained %g (threshold %g)' % (name, d, c['dchisq']))
        if len(path) > 1:
            ctx.tag('free' if free else 'limited')
    eps = 1e-9 * (1. + abs(L0))
    ctx.tag(name)
    require(np.isfinite(L1) and L1 >= L0 - eps, lambda: '%s: optimize_loop lowered the log-posterior from %.12g to %.12g' % (name, L0, L1))
    ok = [v for _, v in seen if np.isfinite(v)]
    if ok:
        require(L1 >= max(ok) - eps, lambda: '%s evaluated a point with log-posterior %.12g and settled for %.12g' % (name, max(ok), L1))
    require('steps' in r and 0 <= r['steps'] < c['steps'], lambda: 'steps reported: %s of at most %s' % (r, c['steps']))
    require(frozen(tr) == cold, 'frozen parameters changed')
    if r['steps'] < c['steps'] - 1 and name in ('lsqr', 'lsqr-noshare'):
        # it stopped because a step no longer improved: another one does not either
        p1 = list(tr.getParams())
        dlnp, X, alpha = tr.optimize(**kw)
        require(dlnp == 0 and list(tr.getParams()) == p1, lambda: '%s: optimize_loop stopped after step %i but the next step gains %g' % (name, r['steps'], dlnp))
        ctx.tag('converged')
    ctx.nt(L1 - L0 > 1e-3)


def check_ceres(c, ctx):
    tr = scene(c)
    for src in tr.catalog:
        # an unconstrained log-radius can overflow on the way
        if hasattr(src, 'shape') and 'logre' in src.shape.getNamedParams():
            src.shape.freezeParam('logre')
    if tr.numberOfParams() == 0:
        raise Skip()
    from tractor.ceres_optimizer import CeresOptimizer
    tr.optimizer = CeresOptimizer()
    kw = dict(print_progress=False, priors=c['priors'], scaled=c['scaled'], dynamic_scale=c['dyn'], numeric=c['numeric'],
              scale_columns=c['colscale'], max_iterations=c['steps'] * 5)
    if c['numeric']:
        kw['numeric_stepsize'] = 1e-2

    def lnp():
        return tr.getLogLikelihood() + (tr.getLogPrior() if c['priors'] else 0.)
    L0 = lnp()
    if not np.isfinite(L0):
        raise Skip()
    cold = frozen(tr)
    if not any(np.any(im.getInvError() > 0) for im in tr.images):
        raise Skip()
    dlnp, X, alpha = tr.optimize(**kw)
    L1 = lnp()
    tol = 1e-4 + 1e-5 * abs(L0)
    require(np.isfinite(L1) and L1 >= L0 - tol, lambda: 'Ceres lowered the log-posterior from %.12g to %.12g' % (L0, L1))
    close(dlnp, L1 - L0, tol, 1e-5, 'Ceres: reported change of log-posterior')
    require(frozen(tr) == cold, 'frozen parameters changed')
    ctx.nt(dlnp > 1e-3)
    for k in ('scaled', 'dyn', 'numeric', 'priors'):
        if c[k]:
            ctx.tag(k)


def case(opts=OPTS, **kw):
    d = dict(nim=(1, 2), nsrc=(1, 3), psfs=('ncirc', 'mog', 'pix', 'hybrid'), wmin=12, wmax=26, rmax=3., margin=0.)
    d.update(kw)
    return st.fixed_dictionaries(dict(
        w=gen.world_spec(**d),
        opt=pick(*opts), fitsky=st.booleans(), frz=lst(st.booleans(), 7), seed=gen.seeds, off=pick(0., 1., 3., 10.),
        steps=st.integers(1, 4), veto=pick(99, 99, 99, 1, 2), dchisq=pick(0., 0., 0.3, 5.), priors=pick(True, True, False), alphas=pick(None, None, None, [0.1, 0.3, 1.], [1.], [0.01, 3.]),
        pri=lst(st.tuples(st.booleans(), fl(-50, 150, 1), fl(0.5, 20, 1)).map(list), 2)))


@st.composite
def ceres_case(draw):
    c = draw(case(('ceres',), types=('ptsrc', 'exp', 'dev', 'gauss'), systems=('flux', 'fluxlin', 'nmgy'), margin=-3.))
    for s in c['w']['srcs']:
        s['shape']['t'] = s['shape2']['t'] = 'soft'
        s['shape']['re'] = max(s['shape']['re'], 1.)
    c['off'] = min(c['off'], 3.)
    for k in ('scaled', 'dyn', 'colscale'):
        c[k] = draw(pick(True, True, False))
    c['numeric'] = draw(pick(False, False, True))
    return c


SUBS = [
    Sub('step', case(), check_step, quick=300, thorough=6000, shards=4),
    Sub('loop', case(), check_loop, quick=120, thorough=2500, shards=3),
    Sub('ceres', ceres_case(), check_ceres, quick=100, thorough=2000, shards=1),
]
