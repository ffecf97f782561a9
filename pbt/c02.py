"""C02: priors: value, linearised form and list agree, whatever is frozen."""
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close, Skip
from .gen import fl, pick, lst
from .c11 import leaves

PROP = 'C02'
RULE = ('A case is a scene (images with skies, PSFs and calibrations; a catalog of mixed sources) and a sequence of operations: put a Gaussian prior '
        '(possibly several on one parameter) on a parameter of any node that takes them, freeze or thaw a parameter or a whole branch, move '
        'parameters (now and then to illegal values). After each operation the log-prior of every level is compared with the sum of the terms put there, '
        'and the linearised rows and the list of Gaussian priors with the actual change of the log-prior under a random move. '
        'Non-trivial: at least two terms on thawed parameters and one parameter frozen.')
ASSUMPTIONS = []


def legal(node):
    """Whether the leaf's values are allowed at all."""
    from tractor.ellipses import EllipseE, EllipseESoft
    from tractor.sersic import SersicIndex
    from tractor.utils import MogParams
    if isinstance(node, EllipseE) and not isinstance(node, EllipseESoft):
        return node.e1**2 + node.e2**2 < 1. and node.re >= 0.
    if isinstance(node, SersicIndex):
        return 0.29 <= node.getValue() <= 6.3
    if isinstance(node, MogParams):
        return bool(np.all(node.mog.var[:, 0, 0] >= 0) and np.all(node.mog.var[:, 1, 1] >= 0))
    return True


def bad(nodes, a, b):
    """A node and values for it that are not allowed (or: the way back)."""
    from tractor.ellipses import EllipseE, EllipseESoft
    from tractor.sersic import SersicIndex
    can = [n for n in nodes if (isinstance(n, EllipseE) and not isinstance(n, EllipseESoft)) or isinstance(n, SersicIndex)]
    if not can:
        return None, None
    n = can[a % len(can)]
    if isinstance(n, SersicIndex):
        return n, [[0.28, 6.31, 2.5, 0.3, 6.29, -1.][b % 6]]
    return n, [[1.2, 0.9, 0.9], [1.2, -1.01, 0.], [-0.1, 0.2, 0.1], [0.8, 0.3, 0.1], [0.8, 0., 1.], [0.8, -0.6, 0.79]][b % 6]


def branches(node):
    from tractor.utils import MultiParams
    yield node
    if isinstance(node, MultiParams):
        for s in node.subs:
            if s is not None:
                for x in branches(s):
                    yield x


def expect(node, terms):
    """(log-prior of the thawed part of the tree)"""
    from tractor.utils import MultiParams
    if isinstance(node, MultiParams):
        return sum(expect(s, terms) for i, s in enumerate(node.subs) if s is not None and node.liquid[i])
    if not legal(node):
        return -np.inf
    from tractor.splinesky import SplineSky
    if isinstance(node, SplineSky):
        if node.prior_smooth_sigma is None:
            return 0.
        # neighbouring coefficients
        g = np.array(node.spl.get_coeffs()).reshape(len(node.xgrid), len(node.ygrid))
        return -0.5 * (np.sum(np.diff(g, axis=0)**2) + np.sum(np.diff(g, axis=1)**2)) / node.prior_smooth_sigma**2
    p = node.getAllParams() if hasattr(node, 'getAllParams') else []
    return -0.5 * sum(((p[i] - mu) / sg)**2 for i, mu, sg in terms.get(id(node), []))


def splines(node):
    from tractor.splinesky import SplineSky
    return any(isinstance(n, SplineSky) and n.prior_smooth_sigma is not None for n in branches(node))


def judge(node, terms, r, ctx):
    what = type(node).__name__
    want = expect(node, terms)
    close(node.getLogPrior(), want, 1e-9, 1e-9, 'log-prior of %s' % what)
    if not np.isfinite(want):
        ctx.tag('ruled out')
        return
    N = node.numberOfParams()
    X = node.getLogPriorDerivatives()
    A, b, mu = np.zeros((0, N)), np.zeros(0), np.zeros(0)
    if X is not None and len(X[0]):
        R, C, V, B, M = X
        require(len(R) == len(C) == len(V), lambda: '%s: lists of prior entries have lengths %s' % (what, [len(x) for x in X]))
        n = max(max(x) for x in R) + 1
        A, b, mu = np.zeros((n, N)), np.hstack(B), np.hstack(M)
        require(len(b) == len(mu) == n, lambda: '%s: %i prior rows, with %i residuals and %i means' % (what, n, len(b), len(mu)))
        for ri, ci, vi in zip(R, C, V):
            require(0 <= ci < N, lambda: '%s: prior term for parameter %s of %i' % (what, ci, N))
            for rij, vij in zip(ri, vi):
                A[rij, ci] += vij
    p0 = np.array(node.getParams(), float)
    sg = np.array([abs(s) for s in node.getStepSizes()], float)
    G = node.getGaussianPriors()
    for i, m, s in G:
        require(0 <= i < N, lambda: '%s: Gaussian prior listed for parameter %s of %i' % (what, i, N))
    L0 = node.getLogPrior()
    for k in range(2):
        d = r.normal(size=N) * sg * 0.3
        node.setParams(list(p0 + d))
        d = np.array(node.getParams(), float) - p0
        L1 = node.getLogPrior()
        if np.isfinite(L1):
            tol = 1e-8 * (1. + abs(L0) + abs(L1))
            lin = -0.5 * np.sum((b - np.dot(A, d))**2) + 0.5 * np.sum(b**2)
            close(lin, L1 - L0, tol, 1e-6, '%s: change of log-prior according to the linearised rows, over a move %s' % (what, d))
            if splines(node):
                # not one Gaussian per parameter
                node.setParams(list(p0))
                continue
            lst_ = sum(-0.5 * ((p0[i] + d[i] - m) / s)**2 + 0.5 * ((p0[i] - m) / s)**2 for i, m, s in G)
            close(lst_, L1 - L0, tol, 1e-6, '%s: change of log-prior according to getGaussianPriors(), over a move' % what)
        node.setParams(list(p0))
    for row in range(len(b)):
        if splines(node):
            break
        j = int(np.flatnonzero(A[row])[0])
        close(A[row, j] * (mu[row] - p0[j]), b[row], 1e-9, 1e-6, '%s: mean of a prior row, as a residual' % what)


def check(c, ctx):
    tr = gen.build_world(c['w'])
    terms = {}
    r = gen.rng(c['seed'])
    takers = [n for n in branches(tr) if hasattr(n, 'addGaussianPrior') and len(n.getAllParams())]
    L = leaves(tr)
    nodes = list(branches(tr))
    nt = 0
    for op in c['ops']:
        k, a, b, mu, sg = op
        if k == 'prior' and takers:
            n = takers[a % len(takers)]
            names = [(n.getNamedParamName(i), i) for i in range(len(n.getAllParams()))] if hasattr(n, 'getNamedParamName') else []
            names = [x for x in names if x[0] is not None]
            if not names:
                continue
            nm, i = names[b % len(names)]
            s = abs(n.getAllStepSizes()[i]) if hasattr(n, 'getAllStepSizes') else 1.
            v = n.getAllParams()[i] + mu * s
            n.addGaussianPrior(nm, v, sg * s)
            terms.setdefault(id(n), []).append((i, v, sg * s))
        elif k == 'freeze':
            n, i = L[a % len(L)]
            n.freezeParam(i)
        elif k == 'thaw':
            n, i = L[a % len(L)]
            n.thawParam(i)
        elif k == 'thawall':
            nodes[a % len(nodes)].thawAllParams() if hasattr(nodes[a % len(nodes)], 'thawAllParams') else None
        elif k == 'move':
            p = np.array(tr.getParams(), float)
            h = np.array(tr.getStepSizes(), float)
            if len(p):
                j = a % len(p)
                if tr.getParamNames()[j].endswith(('.ab', '.re')) or 'var' in tr.getParamNames()[j]:
                    continue
                tr.setParam(j, p[j] + 0.2 * mu * h[j])
        elif k == 'illegal':
            n, vals = bad(nodes, a, b)
            if n is not None:
                if len(vals) == 1:
                    n.setParams(vals)
                else:
                    n.re, n.e1, n.e2 = vals
        level = [tr, tr.catalog, tr.catalog[a % len(tr.catalog)], tr.images[b % len(tr.images)], nodes[b % len(nodes)]]
        for n in level:
            judge(n, terms, r, ctx)
        ctx.tag(k)
    judge(tr, terms, r, ctx)
    for n in takers:
        if id(n) in terms:
            judge(n, terms, r, ctx)
    lp = tr.getLogPrior()
    if np.isfinite(lp) and not all(legal(n) for n in nodes):
        # out of range, but frozen: whether it can be rendered is another matter
        raise Skip()
    got = tr.getLogProb()
    if np.isfinite(lp):
        close(got, lp + tr.getLogLikelihood(), 1e-6, 1e-9, 'log-posterior = log-likelihood + log-prior')
    else:
        require(got == -np.inf, lambda: 'the parameters are illegal but the log-posterior is %s' % got)
    X = tr.getLogPriorDerivatives()
    ctx.nt(X is not None and len(X[0]) >= 2 and tr.numberOfParams() < len(tr.getAllParams()))


def case():
    op = st.tuples(pick('prior', 'prior', 'prior', 'prior', 'prior', 'prior', 'freeze', 'freeze', 'thaw', 'move', 'thawall', 'illegal'), st.integers(0, 200), st.integers(0, 200),
                   fl(-5, 5, 2), pick(0.1, 1., 3., 20.)).map(list)
    return st.fixed_dictionaries(dict(
        w=gen.world_spec(nim=(1, 2), nsrc=(1, 3), wmin=8, wmax=14, skies=('null', 'const', 'const', 'spline')), ops=lst(op, 3, 16), seed=gen.seeds))


SUBS = [
    Sub('tree', case(), check, quick=400, thorough=10000, shards=4),
]
