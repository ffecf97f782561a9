"""C14: bounds and maximum step sizes are honoured by the optimizers that promise to."""
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close, Skip
from .gen import fl, pick, lst
from .c12 import scene, sane, case as scene_case, frozen
from .c13 import optimizer, full_masks, linear_world, groups, design, solve, case as linear_case, roam

PROP = 'C14'
RULE = ('A case is a scene (as for C12), with lower/upper limits and maximum steps put on some of its free parameters, at distances '
        'from zero to many step sizes from the start; and a bounded optimizer, one call or the loop. Every parameter vector at which the '
        'posterior is evaluated, and the final one, is compared with the limits. A second family has one free linear parameter, where the '
        'constrained optimum is known exactly. Non-trivial: a limit or maximum step was binding.')
ASSUMPTIONS = ['the start point satisfies the limits']

BOUNDED = ('constrained', 'dense', 'smarter')


def atoms(node, cold=False):
    """(object, index) of every thawed scalar below node, in parameter order."""
    from tractor.utils import MultiParams
    out = []
    if node is None:
        return out
    if isinstance(node, MultiParams):
        for i, s in enumerate(node.subs):
            if s is not None and node.liquid[i]:
                out.extend(atoms(s))
    elif node.numberOfParams():
        if hasattr(node, 'getThawedParamIndices'):
            out.extend((node, i) for i in node.getThawedParamIndices())
        else:
            out.append((node, 0))
    return out


def limit(obj, k, lo=0, up=0, mx=0):
    """Set limits: 0 means leave alone."""
    if hasattr(obj, 'lowers'):
        if lo != 0:
            obj.lowers[k] = lo[0]
        if up != 0:
            obj.uppers[k] = up[0]
        if mx != 0:
            obj.maxstep[k] = mx[0]
    elif hasattr(obj, 'lower'):
        if lo != 0:
            obj.lower = lo[0]
        if up != 0:
            obj.upper = up[0]
        if mx != 0:
            obj.maxstep = mx[0]


def put_limits(tr, lims):
    A = atoms(tr)
    p = tr.getParams()
    require(len(A) == len(p), 'harness: atoms')
    h = tr.getStepSizes()
    names = tr.getParamNames()
    n = 0
    for i, (kind, d, m) in enumerate(lims):
        j = (i * 7 + 3) % len(p) if len(p) else None
        if j is None:
            break
        obj, k = A[j]
        hard = names[j].endswith(('.ab', '.re', '.e1', '.e2', 'SersicIndex'))
        s = abs(h[j]) * d
        lo = up = mx = 0
        cl, cu = tr.getLowerBounds()[j], tr.getUpperBounds()[j]
        if kind in ('lo', 'both'):
            lo = [max(p[j] - s, cl) if cl is not None else p[j] - s]
        if kind in ('up', 'both'):
            up = [min(p[j] + s, cu) if cu is not None else p[j] + s]
        if m is not None:
            mx = [abs(h[j]) * m]
        limit(obj, k, lo, up, mx)
        n += 1
    return n


def inside(p, lo, up):
    return all((l is None or v >= l) and (u is None or v <= u) for v, l, u in zip(p, lo, up))


def watch(tr):
    seen = []
    real = tr.getLogProb

    def getLogProb(*a, **k):
        sane(tr)
        seen.append(list(tr.getParams()))
        return real(*a, **k)
    tr.getLogProb = getLogProb
    return seen


@roam
def check_path(c, ctx):
    tr = scene(c)
    N = tr.numberOfParams()
    if N == 0:
        raise Skip()
    put_limits(tr, c['lims'])
    name = c['opt']
    o, kw = optimizer(name)
    if name == 'smarter':
        full_masks(tr)
    tr.optimizer = o
    kw['priors'] = c['priors']
    if c['alphas'] is not None:
        kw['alphas'] = c['alphas']
    lo, up, mx = list(tr.getLowerBounds()), list(tr.getUpperBounds()), list(tr.getMaxStep())
    if not inside(tr.getParams(), lo, up) or not np.isfinite(tr.getLogProb()):
        raise Skip()
    cold = frozen(tr)
    ctx.tag(name)

    def judge(p0, seen, p1, what):
        for p in seen + [p1]:
            for v, a, l, u, m, n in zip(p, p0, lo, up, mx, tr.getParamNames()):
                require(l is None or v >= l, lambda: '%s: %s = %.17g is below its lower limit %.17g' % (what, n, v, l))
                require(u is None or v <= u, lambda: '%s: %s = %.17g is above its upper limit %.17g' % (what, n, v, u))
                require(m is None or abs(v - a) <= m * (1. + 1e-6) + 1e-9 * abs(a), lambda: '%s: %s moved from %.17g to %.17g in one step; the maximum is %g' % (what, n, a, v, m))
                if (l is not None and v == l) or (u is not None and v == u):
                    ctx.tag('on-limit')
                    ctx.nt(v != a)
                if m is not None and abs(v - a) >= m * (1. - 1e-6) and m > 0:
                    ctx.tag('max-step')
                    ctx.nt()
    if not c['loop']:
        for k in range(c['steps']):
            p0 = list(tr.getParams())
            L0 = tr.getLogProb()
            seen = watch(tr)
            if c['ask'] is None:
                dlnp, X, alpha = tr.optimize(**kw)
            else:
                # the caller may refuse the trial points from some step length on
                X = np.array(tr.optimizer.getLinearUpdateDirection(tr, **dict((k, kw[k]) for k in kw if k in ('priors', 'shared_params'))), float)
                if X.shape != (N,) or not np.all(np.isfinite(X)) or not np.any(X):
                    raise Skip()
                asked = []

                def ask(optimizer, tractor, X, alpha):
                    asked.append((alpha, list(tractor.getParams())))
                    return alpha < c['ask']
                dlnp, alpha = tr.optimizer.tryUpdates(tr, X, alphas=c['alphas'], check_step=ask)
                require(alpha < c['ask'] or alpha == dlnp == 0, lambda: 'a step of length %g was taken, which the caller refused' % alpha)
                require(all(a < c['ask'] for a, _ in asked[:-1]), lambda: 'the line search carried on past a refused step: %s' % [a for a, _ in asked])
                require(seen == [p for a, p in asked if a < c['ask']] or seen[1:] == [p for a, p in asked if a < c['ask']], 'a point was evaluated that the caller did not see, or refused')
                ctx.tag('ask')
            del tr.getLogProb
            judge(p0, seen, list(tr.getParams()), name)
            require(tr.getLogProb() >= L0 - 1e-9 * (1 + abs(L0)), 'the posterior got worse')
            if dlnp == 0:
                break
    else:
        path = []
        seen = watch(tr)
        start = [list(tr.getParams())]

        def cb(optimizer, tractor, dlnp, X, alpha):
            path.append((start[0], list(seen), list(tractor.getParams()), dlnp))
            del seen[:]
            start[0] = list(tractor.getParams())
            return True
        R = tr.optimize_loop(steps=c['steps'], check_step=cb, **kw)
        del tr.getLogProb
        require(len(path) == R['steps'] + 1, lambda: 'the loop called back %i times in %s' % (len(path), R))
        for p0, s, p1, d in path:
            judge(p0, s, p1, name + ' (loop)')
        ctx.tag('loop')
        require(path[-1][2] == list(tr.getParams()), 'the parameters moved after the last step of the loop')
        # the last accepted step ended exactly on a limit only if it is reported
        moved = [x for x in path if x[3] > 0]
        if moved:
            a, _, b, _ = moved[-1]
            # (not when the maximum step happens to end there too)
            new = [(b[j] == lo[j] or b[j] == up[j]) and b[j] != a[j] for j in range(N)]
            if any(mx[j] is not None and abs(b[j] - a[j]) >= mx[j] * (1. - 1e-6) for j in range(N)):
                new = []
            if any(new):
                require(R['hit_limit'] and R['ever_hit_limit'], lambda: 'a parameter was stopped by its limit but the loop reports %s' % R)
                ctx.tag('reported')
        if not any(l is not None or u is not None for l, u in zip(lo, up)) and path[-1][3] > 0:
            require(not R['ever_hit_limit'] or any(m is not None for m in mx), lambda: 'there are no limits but the loop reports %s' % R)
    require(tr.getLowerBounds() == lo and tr.getUpperBounds() == up and tr.getMaxStep() == mx, 'the limits themselves were changed')
    require(frozen(tr) == cold, 'frozen parameters changed')


@roam
def check_one(c, ctx):
    """One free linear parameter: the answer is known."""
    c['shareflux'] = c['sharesky'] = c['fitsky'] = False
    tr = linear_world(c)
    A = atoms(tr)
    if not A:
        raise Skip()
    obj, k = A[c['which'] % len(A)]
    # freeze all the others
    for o2, k2 in A:
        if (o2 is obj and k2 == k):
            continue
        if hasattr(o2, 'freezeParam'):
            o2.freezeParam(k2)
    if tr.numberOfParams() != 1:
        for i, src in enumerate(tr.catalog):
            if not any(o2 is obj for o2, _ in atoms(src)):
                tr.catalog.freezeParam(i)
            else:
                for j, s in enumerate(src.subs):
                    if src.liquid[j] and s is not obj:
                        src.freezeParam(j)
    if tr.numberOfParams() != 1:
        raise Skip()
    name = c['opt']
    o, kw = optimizer(name)
    if name == 'smarter':
        full_masks(tr)
    tr.optimizer = o
    D, b = design(tr, [[0]], True)
    X, live, cond, sc = solve(D, b)
    unit = max(gen.ref_counts(c['w']['system'], i['pc'], [1.] * 3) / i['sig'] for i in c['w']['ims'])
    if not live[0] or sc[0] < 0.02 * unit or abs(X[0]) * sc[0] < 0.3:
        raise Skip()
    X = X[0]
    p0 = tr.getParams()[0]
    lo, up, mx = None, None, None
    # limits as a fraction of the way to the optimum
    f = c['f']
    if c['kind'] == 'limit':
        if X < 0:
            lo = p0 + f * X
        else:
            up = p0 + f * X
        if c['both']:
            lo, up = (lo, p0 + 3.) if X < 0 else (p0 - 3., up)
    elif c['kind'] == 'step':
        mx = f * abs(X)
    elif c['kind'] == 'away':
        # a limit on the other side does not matter
        if X < 0:
            up = p0 + abs(X) * f
        else:
            lo = p0 - abs(X) * f
    limit(obj, k, [lo], [up], [mx])
    kw.pop('dlnp', None)
    if name == 'ceres':
        kw['bounds'] = True
        kw['priors'] = True
        kw['dlnp'] = 1e-9
        if c['kind'] == 'step':
            raise Skip()
    tr.getLogProb()
    if c['loop'] and name != 'ceres':
        R = tr.optimize_loop(steps=60, **kw)
    else:
        R = None
        tr.optimize(**kw)
    p1 = tr.getParams()[0]
    tol = 0.05 / sc[0] + 3e-3 * abs(X)
    want = X
    if c['kind'] == 'limit':
        want = X * min(1., f)
    if c['kind'] == 'step':
        want = X * min(1., f * (1 if R is None else 60))
    ctx.tag(name)
    ctx.tag(c['kind'])
    if f == 0 and c['kind'] == 'step':
        require(p1 == p0, lambda: '%s: a parameter that may not move (maximum step 0) went from %g to %g' % (name, p0, p1))
        ctx.nt()
        return
    close(p1 - p0, want, tol, 0., '%s: change of a linear parameter from %g (unconstrained %g; lower %s, upper %s, max step %s)' % (name, p0, X, lo, up, mx))
    ulp = 1e-14 * (abs(p0) + abs(X)) if name == 'ceres' else 0.
    require((lo is None or p1 >= lo - ulp) and (up is None or p1 <= up + ulp), lambda: '%s: ended at %.17g outside [%s, %s]' % (name, p1, lo, up))
    if c['kind'] == 'limit' and f < 0.9:
        ctx.nt()
        if name != 'ceres':
            require(abs(p1 - (lo if X < 0 else up)) <= 1e-13 * (abs(p0) + abs(X)), lambda: '%s: stopped at %.17g short of its limit' % (name, p1))
            if R is not None:
                require(R['hit_limit'] and R['ever_hit_limit'], lambda: 'a limit stopped the fit but the loop reports %s' % R)
    if c['kind'] == 'step' and f < 0.9:
        ctx.nt()
    if R is not None and (c['kind'] in ('none', 'step') or c['kind'] == 'limit' and f > 2.2):
        require(not R['hit_limit'] and not R['ever_hit_limit'] or f < 1e-6, lambda: 'no limit was met but the loop reports %s' % R)
    if R is not None:
        # again, with the limits taken away: what the first run met is forgotten
        limit(obj, k, [None], [None], [None])
        R2 = tr.optimize_loop(steps=60, **kw)
        require(not R2['hit_limit'] and not R2['ever_hit_limit'], lambda: 'there are no limits any more but the loop, run again, reports %s' % R2)
        close(tr.getParams()[0] - p0, X, tol, 0., '%s: change of a linear parameter from %g, run again without limits' % (name, p0))


def check_ceres(c, ctx):
    """Ceres with bounds on a linear problem: every evaluated point and the answer are inside;
    when no bound is in the way the answer is the optimum."""
    from scipy.optimize import lsq_linear
    c['shareflux'] = False
    c['sharesky'] = False
    tr = linear_world(c)
    N = tr.numberOfParams()
    if N == 0:
        raise Skip()
    put_limits(tr, c['lims'])
    gs = [[i] for i in range(N)]
    o, kw = optimizer('ceres')
    tr.optimizer = o
    lo, up = tr.getLowerBounds(), tr.getUpperBounds()
    p0 = np.array(tr.getParams(), float)
    A, b = design(tr, gs, True)
    X, live, cond, sc = solve(A, b)
    unit = max(gen.ref_counts(c['w']['system'], i['pc'], [1.] * 3) / i['sig'] for i in c['w']['ims'])
    if not live.any() or sc[live].min() < 0.02 * unit or cond > 300:
        raise Skip()
    l = np.array([-np.inf if v is None else v for v in lo]) - p0
    u = np.array([np.inf if v is None else v for v in up]) - p0
    for i in range(N):
        if l[i] >= u[i]:
            raise Skip()
    best = lsq_linear(A[:, live] / sc[live], b, bounds=((l * sc)[live], (u * sc)[live]), tol=1e-12)
    seen = []
    real = tr.setParams

    def setParams(p):
        seen.append(np.array(p, float))
        return real(p)
    tr.setParams = setParams
    kw.update(bounds=True, priors=True, scaled=c['scaled'], dynamic_scale=c['dyn'])
    tr.optimize(**kw)
    del tr.setParams
    p1 = np.array(tr.getParams(), float)
    h = 1e-9 * (1. + np.abs(p0) + np.where(np.isfinite(l), np.abs(l), 0) + np.where(np.isfinite(u), np.abs(u), 0))
    for p in seen + [p1]:
        require(np.all(p - p0 >= l - h) and np.all(p - p0 <= u + h), lambda: 'Ceres with bounds=True evaluated %s, outside [%s, %s]' % (p, lo, up))
    Y = p1 - p0
    Y = np.where(live, Y, 0.)
    obj = 0.5 * np.sum((b - np.dot(A, Y))**2)
    o0 = 0.5 * np.sum(b**2)
    require(obj <= o0 + 1e-3 + 1e-5 * o0, lambda: 'Ceres with bounds made things worse: %.9g -> %.9g' % (o0, obj))
    # (against an active bound Ceres crawls and may stop early)
    if not np.any(best.active_mask != 0):
        require(obj - best.cost <= 5e-3 * (o0 - best.cost) + 1e-2 + 1e-5 * o0, lambda: 'Ceres with bounds ended at %.9g; the constrained minimum is %.9g (start %.9g)' % (obj, best.cost, o0))
    ctx.nt(np.any(best.active_mask != 0))
    ctx.tag('active-%i' % min(2, np.sum(best.active_mask != 0)))


def lims():
    return lst(st.tuples(pick('lo', 'up', 'both', 'none'), pick(0., 0.3, 1., 5., 50.), pick(None, None, None, 0.2, 1., 10., 0.)).map(list), 1, 5)


@st.composite
def path_case(draw):
    c = draw(scene_case(BOUNDED, margin=-1.))
    c['lims'] = draw(lims())
    c['loop'] = draw(st.booleans())
    c['steps'] = draw(st.integers(1, 6))
    c['ask'] = draw(pick(None, None, 0., 0.1, 0.5, 1.3, 9.))
    return c


@st.composite
def one_case(draw):
    c = draw(linear_case(BOUNDED + ('ceres', 'constrained'), margin=-1.))
    c['f'] = draw(pick(0., 0.01, 0.1, 0.37, 0.8, 1.2, 1.7, 2.5, 5.))
    c['kind'] = draw(pick('limit', 'limit', 'step', 'away', 'none'))
    c['both'] = draw(st.booleans())
    c['loop'] = draw(st.booleans())
    c['which'] = draw(st.integers(0, 20))
    return c


@st.composite
def ceres_case(draw):
    c = draw(linear_case(('ceres',), margin=-1.))
    c['lims'] = draw(lst(st.tuples(pick('lo', 'up', 'both', 'none'), pick(0.3, 1., 5., 50., 500.), st.none()).map(list), 1, 5))
    c['scaled'] = draw(st.booleans())
    c['dyn'] = draw(st.booleans())
    return c


SUBS = [
    Sub('path', path_case(), check_path, quick=300, thorough=6000, shards=4),
    Sub('one', one_case(), check_one, quick=300, thorough=5000, shards=2),
    Sub('ceres', ceres_case(), check_ceres, quick=150, thorough=3000, shards=2),
]
