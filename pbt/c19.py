"""C19: sky models: what they add, how they shift, scale, save and fit."""
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close, Skip
from .gen import fl, pick, lst

PROP = 'C19'
RULE = ('A case is a constant or spline sky (4-6 x 4-7 control points, whole or fractional positions, orders 1-3, the image reaching beyond the grid) '
        'and a sequence of operations (shift, offset, scale, subtract, set parameters, freeze, copy, save to a table and reload), whose rendering at any scale '
        'and onto any image is compared after each step with an independent spline (tensor product of one-dimensional interpolations, '
        'held constant outside the grid); or an image whose sky is estimated in boxes; or an image whose sky parameters are fitted. '
        'Non-trivial: the sky varies over the image and at least two operations change it (estimate: several boxes, some pixels masked; '
        'fit: the fitted coefficients differ from the start).')
ASSUMPTIONS = ['tables hold 32-bit grid values']


class Model(object):
    """What the sky should be."""

    def __init__(self, X, Y, v, order):
        self.X, self.Y, self.v, self.order = np.array(X, float), np.array(Y, float), np.array(v, float), order
        self.x0 = self.y0 = 0.
        self.prec = 1e-10

    def copy(self):
        m = Model(self.X, self.Y, self.v, self.order)
        m.x0, m.y0, m.prec = self.x0, self.y0, self.prec
        return m

    def at(self, x, y):
        from scipy.interpolate import make_interp_spline
        x = np.clip(np.asarray(x, float) + self.x0, self.X[0], self.X[-1])
        y = np.clip(np.asarray(y, float) + self.y0, self.Y[0], self.Y[-1])
        a = make_interp_spline(self.X, self.v, k=self.order, axis=1)(x)
        return make_interp_spline(self.Y, a, k=self.order, axis=0)(y)

    def size(self):
        return 1. + np.abs(self.v).max()


def render_check(sky, m, c, ctx, what):
    H, W = c['H'], c['W']
    r = gen.rng(c['seed'])
    for dt in (np.float64, np.float32):
        base = r.normal(size=(H, W)).astype(dt)
        got = base.copy()
        sky.addTo(got, scale=c['scale'])
        want = base + c['scale'] * m.at(np.arange(W), np.arange(H))
        tol = (m.prec if dt == np.float64 else max(m.prec, 3e-7)) * 100. * m.size() * (1. + abs(c['scale']))
        close(got, want, tol, 0., '%s: image after adding %s times the sky' % (what, c['scale']))
    xv, yv = np.sort(r.uniform(-3., W + 3., size=3)), np.sort(r.uniform(-3., H + 3., size=4))
    close(sky.evaluateGrid(xv, yv), m.at(xv, yv), 100. * m.prec * m.size(), 0., '%s: sky at fractional positions' % what)


def check_spline(c, ctx):
    X, Y, v = gen.spline_grid(c['s'], c['W'], c['H'])
    sky = gen.build_spline(c['s'], c['W'], c['H'])
    m = Model(X, Y, v, c['s']['order'])
    render_check(sky, m, c, ctx, 'new')
    # reproduces its control points
    close(sky.get_grid(), v, 1e-9 * m.size(), 0., 'grid values')
    keep = []
    n = 0
    for op, a, b in c['ops']:
        ctx.tag(op)
        if op == 'shift':
            sky.shift(a, b)
            m.x0 += a
            m.y0 += b
        elif op == 'shifted':
            keep.append((sky, m.copy(), 'the sky that was shifted'))
            sky = sky.shifted(a, b)
            m.x0 += a
            m.y0 += b
        elif op == 'offset':
            sky.offset(a)
            m.v += a
        elif op == 'scale':
            sky.scale(b)
            m.v *= b
        elif op == 'copy':
            keep.append((sky, m.copy(), 'the sky that was copied'))
            sky = sky.copy()
        elif op == 'leavecopy':
            keep.append((sky.copy(), m.copy(), 'the copy'))
        elif op == 'param':
            # one coefficient moves the model by its own basis function
            k = int(abs(a * 10)) % len(sky.getAllParams())
            if not sky.liquid[k]:
                continue
            j = list(sky.getThawedParamIndices()).index(k)
            old = sky.getParams()[j]
            g0 = sky.evaluateGrid(np.arange(-2, c['W'] + 2), np.arange(-2, c['H'] + 2))
            o = sky.setParam(j, old + b)
            require(o == old, lambda: 'setParam returned %s, parameter was %s' % (o, old))
            g1 = sky.evaluateGrid(np.arange(-2, c['W'] + 2), np.arange(-2, c['H'] + 2))
            close(sky.getParams()[j], old + b, 0., 1e-12, 'parameter after setting it')
            d = g1 - g0
            require(np.abs(d).max() <= abs(b) * (1 + 1e-9) + 1e-8 * m.size() and np.all(d * b >= -1e-8 * m.size()),
                    lambda: 'moving one coefficient by %s moved the sky by %s to %s' % (b, d.min(), d.max()))
            # re-derive the control values
            sx, sy = sky.x0, sky.y0
            m.v = sky.evaluateGrid(m.X - sx, m.Y - sy)
        elif op == 'freeze':
            k = int(abs(a * 10)) % len(sky.getAllParams())
            sky.freezeParam(k)
        elif op == 'table':
            from tractor.splinesky import SplineSky
            T = sky.to_fits_table()
            sky = SplineSky.from_fits_row(T[0])
            m.prec = max(m.prec, 1e-7)
        elif op == 'file':
            import os
            import shutil
            import tempfile
            from tractor.splinesky import SplineSky
            d = tempfile.mkdtemp(prefix='c19')
            try:
                fn = os.path.join(d, 'sky.fits')
                sky.write_fits(fn)
                import fitsio
                sky = SplineSky.from_fits(fn, fitsio.read_header(fn))
            finally:
                shutil.rmtree(d)
            m.prec = max(m.prec, 1e-7)
        n += op in ('shift', 'shifted', 'offset', 'scale', 'param')
        render_check(sky, m, c, ctx, 'after %s' % op)
        if op in ('copy', 'shifted'):
            require(list(sky.liquid) == list(keep[-1][0].liquid), 'a %s sky has other frozen parameters' % op)
            require(sky.prior_smooth_sigma == keep[-1][0].prior_smooth_sigma, 'a %s sky lost its smoothness prior' % op)
        if op == 'smooth':
            sky.setPriorSmoothness(abs(b) + 0.1)
    for s, mm, what in keep:
        render_check(s, mm, c, ctx, what + ', at the end')
    ctx.nt(n >= 2 and c['s']['amp'] > 0)


def check_const(c, ctx):
    from tractor.sky import ConstantSky, NullSky
    H, W = c['H'], c['W']
    r = gen.rng(c['seed'])
    base = r.normal(size=(H, W)).astype(np.float32)
    a = base.copy()
    NullSky().addTo(a)
    NullSky().addTo(a, scale=c['scale'])
    require(np.array_equal(a, base), 'the null sky changed the image')
    v = c['v']
    sky = ConstantSky(v)
    keep = []
    n = 0
    for op, x, y in c['ops']:
        if op == 'shift':
            sky.shift(x, y)
        elif op == 'shifted':
            keep.append((sky, v))
            sky = sky.shifted(x, y)
        elif op == 'copy':
            keep.append((sky, v))
            sky = sky.copy()
        elif op == 'leavecopy':
            keep.append((sky.copy(), v))
        elif op == 'offset':
            sky.subtract(-x)
            v += x
        elif op == 'scale':
            sky.scale(y)
            v *= y
        elif op == 'param':
            o = sky.setParam(0, x)
            close(o, v, 1e-9 * (1 + abs(v)), 0., 'old value')
            v = x
        elif op == 'table':
            sky = ConstantSky.from_fits_row(sky.to_fits_table()[0])
        elif op == 'file':
            import os
            import shutil
            import tempfile
            import fitsio
            d = tempfile.mkdtemp(prefix='c19')
            try:
                fn = os.path.join(d, 'sky.fits')
                sky.write_fits(fn)
                hdr = fitsio.read_header(fn)
                require(hdr['SKY'].strip() == 'tractor.sky.ConstantSky', lambda: 'class in the file: %r' % hdr['SKY'])
                sky = ConstantSky.fromFitsHeader(hdr, prefix='SKY_')
            finally:
                shutil.rmtree(d)
        else:
            continue
        ctx.tag(op)
        n += op in ('offset', 'scale', 'param')
        for s, val in keep + [(sky, v)]:
            tol = 1e-12 * (1. + abs(val))
            close(s.getConstant(), val, tol, 1e-12, 'constant sky after %s' % op)
            a = base.astype(float)
            s.addTo(a, scale=c['scale'])
            close(a, base.astype(float) + val * c['scale'], 100 * tol, 1e-10, 'image after adding a constant sky')
    ctx.nt(n >= 2)


def check_blanton(c, ctx):
    from tractor.splinesky import SplineSky, median_estimator
    H, W = c['H'], c['W']
    r = gen.rng(c['seed'])
    img = c['lev'] + c['amp'] * r.normal(size=(H, W)) + c['slope'] * np.arange(W)[np.newaxis, :]
    mask = None
    if c['mask'] != 'none':
        mask = r.uniform(size=(H, W)) < (0.3 if c['mask'] == 'most' else 0.8)
        if c['mask'] == 'half':
            mask[:, :W // 2] = False
    if min(W, H) // (c['g'] // 2) < 2:
        raise Skip()
    before = img.copy()
    kw = dict(min_fraction=c['mf']) if c['mf'] else {}
    sky = SplineSky.BlantonMethod(img, mask, c['g'], **kw)
    require(np.array_equal(img, before), 'estimating the sky changed the image')
    X, Y = np.asarray(sky.xgrid), np.asarray(sky.ygrid)
    half = c['g'] // 2
    for nm, G, n in (('x', X, W), ('y', Y, H)):
        require(G[0] <= half and G[-1] >= n - 1 - half and np.all(np.diff(G) > 0) and np.all(np.diff(G) <= half + 1),
                lambda: 'boxes at %s = %s do not cover 0..%i' % (nm, G, n))
    want = np.zeros((len(Y), len(X)))
    for iy, y in enumerate(Y):
        for ix, x in enumerate(X):
            sl = slice(max(0, y - half), min(H, y + half)), slice(max(0, x - half), min(W, x + half))
            p = img[sl].ravel()
            n = len(p)
            if mask is not None:
                p = p[mask[sl].ravel()]
                if c['mf'] and len(p) <= n * c['mf']:
                    p = p[:0]
            want[iy, ix] = np.median(p) if len(p) else 0.
    close(sky.get_grid(), want, 1e-9 * (1. + np.abs(want).max()), 0., 'sky at the grid points vs medians of the boxes')
    if mask is not None:
        other = img.copy()
        other[~mask] = 1e6
        s2 = SplineSky.BlantonMethod(other, mask, c['g'], **kw)
        require(np.array_equal(s2.get_grid(), sky.get_grid()), 'masked pixels enter the sky estimate')
    est = []
    SplineSky.BlantonMethod(img, mask, c['g'], estimator=lambda im, msk, **k: est.append((im.shape, None if msk is None else msk.shape)) or 1.)
    require(len(est) == want.size and all(b is None or a == b for a, b in est), 'estimator called with other boxes than the grid has')
    ctx.nt(len(X) * len(Y) >= 9 and mask is not None and not mask.all())


def check_fit(c, ctx):
    from tractor import Image, Tractor, Catalog
    from tractor.basics import NullPhotoCal
    from tractor.wcs import NullWCS
    from tractor.psf import NCircularGaussianPSF
    from .c13 import optimizer
    W, H = c['W'], c['H']
    r = gen.rng(c['seed'])
    ims, N = [], 0
    for k in range(c['nim']):
        if c['const'][k]:
            sky = gen.build_sky(dict(t='const', val=3.))
        else:
            sky = gen.build_spline(dict(c['s'], seed=c['s']['seed'] + k), W, H)
            if c['smooth']:
                sky.setPriorSmoothness(c['smooth'])
            for i in c['frz']:
                sky.freezeParam(i % len(sky.getAllParams()))
        ie = np.where(r.uniform(size=(H, W)) < 0.9, r.uniform(0.2, 2., size=(H, W)), 0.)
        d = c['s']['lev'] + r.normal(size=(H, W)) + 0.3 * np.arange(W)
        im = Image(data=d.astype(np.float32), inverr=ie.astype(np.float32), psf=NCircularGaussianPSF([1.], [1.]), wcs=NullWCS(), sky=sky,
                   photocal=NullPhotoCal(), name='im')
        im.freezeAllBut('sky')
        ims.append(im)
    tr = Tractor(ims, [])
    tr.freezeParam('catalog')
    N = tr.numberOfParams()
    p0 = np.array(tr.getParams(), float)
    # design: skies are linear in their parameters
    A = np.zeros((H * W * len(ims), N))
    b = np.hstack([((im.data.astype(float) - sk) * im.inverr).ravel() for im, sk in zip(ims, render(ims))])
    for j in range(N):
        tr.setParam(j, p0[j] + 1.)
        m1 = render(ims)
        tr.setParam(j, p0[j])
        m0 = render(ims)
        A[:, j] = np.hstack([((y - x) * im.inverr).ravel() for im, x, y in zip(ims, m0, m1)])
    rows, res = [], []
    j = 0
    for im in ims:
        sky = im.sky
        n = sky.numberOfParams()
        if getattr(sky, 'prior_smooth_sigma', None) is not None:
            nx, ny = len(sky.xgrid), len(sky.ygrid)
            cf = np.array(sky.getAllParams()).reshape(nx, ny)
            col = np.full(nx * ny, -1)
            col[list(sky.getThawedParamIndices())] = j + np.arange(n)
            col = col.reshape(nx, ny)
            for u in range(nx):
                for v in range(ny):
                    for du, dv in ((1, 0), (0, 1)):
                        if u + du < nx and v + dv < ny:
                            row = np.zeros(N)
                            if col[u, v] >= 0:
                                row[col[u, v]] += 1.
                            if col[u + du, v + dv] >= 0:
                                row[col[u + du, v + dv]] -= 1.
                            rows.append(row / sky.prior_smooth_sigma)
                            res.append((cf[u + du, v + dv] - cf[u, v]) / sky.prior_smooth_sigma)
        j += n
    if rows:
        A, b = np.vstack([A] + rows), np.append(b, res)
    sc = np.sqrt((A**2).sum(axis=0))
    if N == 0 or np.any(sc < 1e-2):
        # a coefficient the pixels do not see
        raise Skip()
    An = A / sc
    sv = np.linalg.svd(An, compute_uv=False)
    if sv[-1] < 1e-2:
        raise Skip()
    x = np.linalg.lstsq(An, b, rcond=None)[0] / sc
    o, kw = optimizer(c['opt'])
    tr.optimizer = o
    want_lnp = -0.5 * np.sum((np.dot(A, x) - b)**2)
    close(tr.getLogProb(), -0.5 * np.sum(b**2), 1e-6 * (1. + np.sum(b**2)), 0., 'log-posterior before fitting')
    for k in range(3):
        tr.optimize(**kw)
    got = np.array(tr.getParams(), float) - p0
    tol = 2e-4 * (1. + np.abs(x).max()) / sv[-1]
    close(got, x, tol, 0., 'fitted sky parameters (change) vs least squares')
    lp = tr.getLogProb()
    require(abs(lp - want_lnp) <= 1e-4 * (1. + abs(want_lnp)), lambda: 'log-posterior at the fit is %s, least squares reaches %s' % (lp, want_lnp))
    ctx.tag(c['opt'])
    ctx.nt(np.abs(x).max() > 0.1)


def render(ims):
    out = []
    for im in ims:
        m = np.zeros(im.shape)
        im.getSky().addTo(m)
        out.append(m)
    return out


def ops(kinds):
    return lst(st.tuples(pick(*kinds), fl(-8, 8, 1), pick(-1.5, 0.5, 2., 1.3, -0.3)).map(list), 1, 7)


SPL = ('shift', 'shifted', 'offset', 'scale', 'copy', 'leavecopy', 'param', 'freeze', 'table', 'file', 'smooth')
SIZE = st.one_of(st.integers(5, 30), st.integers(5, 30), st.integers(5, 30), st.integers(31, 400))
dims = dict(W=SIZE, H=SIZE, seed=gen.seeds, scale=pick(1., 1., -1., 0.5, 2.5))

SUBS = [
    Sub('spline', st.fixed_dictionaries(dict(dims, s=gen.spline_spec(), ops=ops(SPL))), check_spline, quick=900, thorough=15000, shards=3),
    Sub('const', st.fixed_dictionaries(dict(dims, v=fl(-50, 50, 2), ops=ops(SPL))), check_const, quick=300, thorough=4000, shards=1),
    Sub('estimate', st.fixed_dictionaries(dict(seed=gen.seeds, W=st.one_of(st.integers(10, 60), st.integers(10, 60), st.integers(60, 300)), H=st.one_of(st.integers(10, 60), st.integers(10, 60), st.integers(60, 300)), g=st.integers(6, 24), lev=fl(-20, 20, 1), amp=pick(0., 1., 5.), slope=pick(0., 0.2),
                                               mask=pick('none', 'some', 'most', 'half'), mf=pick(None, None, 0.1, 0.5))), check_blanton, quick=300, thorough=5000, shards=1),
    Sub('fit', st.fixed_dictionaries(dict(W=st.integers(8, 20), H=st.integers(8, 20), seed=gen.seeds, s=gen.spline_spec(), nim=pick(1, 1, 2), const=lst(st.booleans(), 2, 2),
                                          smooth=pick(None, 0.5, 2., 20.), frz=lst(st.integers(0, 40), 0, 4), opt=pick('lsqr', 'lsqr-noshare', 'dense'))), check_fit, quick=300, thorough=6000, shards=3),
]
