"""C05: every way of evaluating a mixture of Gaussians gives the mathematical
sum of Gaussians."""
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close
from .gen import fl, pick, lst

PROP = 'C05'
RULE = ('A case is a random 2-d mixture (1-4 components, correlated covariances), a pixel box of 1-30 pixels a side '
        'that may be off-centre or miss the peak, a sub-pixel offset and a threshold/mask. Non-trivial: the box has at '
        'least 2x2 pixels and the reference holds a value above 1e-6 of the peak inside it.')
ASSUMPTIONS = ['thresholded evaluation is judged only for mixtures whose component centres lie within 1 pixel of each '
               'other (the region-growing search promises nothing about separated peaks)']


def box():
    at = st.one_of(st.integers(-25, 20), st.integers(-25, 20), st.integers(-25, 20), st.integers(-3000, 30000))
    size = st.one_of(st.integers(1, 30), st.integers(1, 30), st.integers(1, 30), st.integers(31, 110))
    return st.fixed_dictionaries(dict(x0=at, y0=at, w=size, h=size))


def base(off=2., **kw):
    """(fx,fy) is drawn relative to the box: mostly inside, sometimes around it or far away"""
    d = dict(mog=st.one_of(gen.mog_spec(kmax=4, smin=0.7, smax=5., off=off), gen.mog_spec(kmax=4, smin=0.7, smax=5., off=off), gen.mog_spec(kmax=14, smin=0.7, smax=9., off=off)), box=box(),
             ux=fl(0, 1, 3), uy=fl(0, 1, 3), where=pick('in', 'in', 'in', 'near', 'near', 'far', 'edge'),
             scale=pick(1., 1e3, 1e-3), **kw)

    def fix(c):
        c = dict(c)
        b = c['box']
        if c['where'] == 'edge':
            # the first component's centre on, or one pixel off, an edge or a corner
            c.pop('where')
            m = c['mog']['mean'][0]
            ux, uy = c.pop('ux'), c.pop('uy')
            ex = [-1., 0., b['w'] // 2, b['w'] - 1., b['w']][int(ux * 4.99)] + (ux * 4.99) % 1
            ey = [-1., 0., b['h'] // 2, b['h'] - 1., b['h']][int(uy * 4.99)] + (uy * 4.99) % 1
            c['fx'], c['fy'] = round(b['x0'] + ex - m[0], 3), round(b['y0'] + ey - m[1], 3)
            return c
        k, o = dict(**{'in': (1., 0.), 'near': (1.6, -0.3), 'far': (5., -2.)})[c.pop('where')]
        c['fx'] = round(b['x0'] + (o + k * c.pop('ux')) * b['w'], 3)
        c['fy'] = round(b['y0'] + (o + k * c.pop('uy')) * b['h'], 3)
        return c
    return st.fixed_dictionaries(d).map(fix)


def derivs_ref(amp, mean, var, xx, yy):
    """d/dx and d/dy (w.r.t. the evaluation point) of the mixture."""
    gx = np.zeros(np.broadcast(xx, yy).shape)
    gy = np.zeros_like(gx)
    for a, m, v in zip(amp, mean, var):
        iv = np.linalg.inv(v)
        dx = xx - m[0]
        dy = yy - m[1]
        g = gen.ref_mog([a], [m], [v], xx, yy)
        gx += -g * (iv[0, 0] * dx + iv[0, 1] * dy)
        gy += -g * (iv[1, 1] * dy + iv[0, 1] * dx)
    return gx, gy


def setup(c, ctx, soften=0.):
    from tractor.mixture_profiles import MixtureOfGaussians
    a, m, v = gen.mog_arrays(c['mog'])
    a = a * c['scale']
    v = v + soften * np.eye(2)
    mog = MixtureOfGaussians(a.copy(), m.copy(), v.copy())
    b = c['box']
    x0, y0 = b['x0'], b['y0']
    x1, y1 = x0 + b['w'], y0 + b['h']
    xx, yy = np.meshgrid(np.arange(x0, x1, dtype=float), np.arange(y0, y1, dtype=float))
    ref = gen.ref_mog(a, m, v, xx - c['fx'], yy - c['fy'])
    pk = gen.ref_mog(a, m, v, m[:, 0], m[:, 1]).max()
    ctx.nt(b['w'] > 1 and b['h'] > 1 and ref.max() > 1e-6 * pk)
    ctx.tag('K%i' % len(a))
    if ref.max() < 1e-10 * pk:
        ctx.tag('far')
    if not ((x0 <= c['fx'] < x1) and (y0 <= c['fy'] < y1)):
        ctx.tag('peak-outside')
    return mog, (a, m, v), (x0, x1, y0, y1), xx, yy, ref, pk


def unchanged(mog, amv, what):
    a, m, v = amv
    require(np.array_equal(mog.amp, a) and np.array_equal(mog.mean, m) and np.array_equal(mog.var, v),
            '%s changed the mixture it evaluated' % what)


def place(patch, x0, x1, y0, y1):
    """Patch -> full box array (zero outside the patch); the patch must lie inside the box."""
    out = np.zeros((y1 - y0, x1 - x0))
    px0, py0 = patch.x0, patch.y0
    h, w = patch.patch.shape
    require(px0 >= x0 and py0 >= y0 and px0 + w <= x1 and py0 + h <= y1,
            'returned patch %s sticks out of requested box %s' % ((px0, px0 + w, py0, py0 + h), (x0, x1, y0, y1)))
    out[py0 - y0:py0 - y0 + h, px0 - x0:px0 - x0 + w] = patch.patch
    return out


def check_exact(c, ctx):
    mog, amv, (x0, x1, y0, y1), xx, yy, ref, pk = setup(c, ctx)
    a, m, v = amv
    # beyond 10 sigma the evaluators may return zero
    tol = pk * 1e-12 + np.abs(a).sum() * np.exp(-49.) / np.sqrt(np.linalg.det(v)).min()
    p = mog.evaluate_grid(x0, x1, y0, y1, c['fx'], c['fy'])
    require(tuple(p.getExtent()) == (x0, x1, y0, y1), 'evaluate_grid extent %s' % (p.getExtent(),))
    close(p.patch, ref, tol, 1e-10, 'evaluate_grid')
    pos = np.vstack((xx.ravel() - c['fx'], yy.ravel() - c['fy'])).T
    for nm in ('evaluate', 'evaluate_1', 'evaluate_2', 'evaluate_3'):
        close(getattr(mog, nm)(pos), ref.ravel(), tol, 1e-9, nm)
    close(mog.evaluate(pos[0]), ref.ravel()[:1], tol, 1e-9, 'evaluate, single point')
    ix, iy = int(np.floor(c['fx'])), int(np.floor(c['fy']))
    h = mog.evaluate_grid_hogg(x0 - ix, x1 - ix, y0 - iy, y1 - iy)
    close(h, gen.ref_mog(a, m, v, xx - ix, yy - iy), tol, 1e-9, 'evaluate_grid_hogg')
    from tractor.mixture_profiles import mixture_to_patch
    for mv in (0., None):
        p = mixture_to_patch(mog.apply_affine(np.array([c['fx'], c['fy']]), np.eye(2)), x0, x1, y0, y1, minval=mv)
        close(place(p, x0, x1, y0, y1), ref, tol, 1e-10, 'mixture_to_patch(minval=%s)' % mv)
    unchanged(mog, amv, 'evaluation')


def check_approx(c, ctx):
    from tractor.mixture_profiles import mixture_to_patch
    # (needle-thin Gaussians, below the pixel scale, are not connected on the pixel grid)
    mog, amv, (x0, x1, y0, y1), xx, yy, ref, pk = setup(c, ctx, soften=0.5)
    a, m, v = amv
    minval = c['rel'] * pk
    gx, gy = derivs_ref(a, m, v, xx - c['fx'], yy - c['fy'])
    # In an evaluated pixel each dropped term is below its share of the threshold.  A pixel is left unevaluated (zero)
    # when growth from the centre stopped at the threshold; on the pixel grid a tilted Gaussian can be a few times the
    # threshold just beyond a pixel that was below it.
    tol = minval * (1. + 1e-6) + pk * 1e-12
    inside = (x0 <= c['fx'] < x1) and (y0 <= c['fy'] < y1)
    tol0 = (10. if inside else 300.) * minval
    tight = pk * 1e-12 + np.abs(a).sum() * np.exp(-49.) / np.sqrt(np.linalg.det(v)).min()

    def judge(arr, what, full=None):
        close(arr, ref, np.where(arr == 0., tol0, tol), 0., what)

    r = mog.evaluate_grid_approx(x0, x1, y0, y1, c['fx'], c['fy'], minval)
    if inside:
        judge(r, 'evaluate_grid_approx')
    else:
        # starts from the brightest component only: what it does evaluate is right
        close(r[r != 0], ref[r != 0], tol, 0., 'evaluate_grid_approx, evaluated pixels')
    sliced = {}
    for doslice in (True, False):
        kw = dict(minradius=c['minradius'], doslice=doslice)
        p = mog.evaluate_grid_approx3(x0, x1, y0, y1, c['fx'], c['fy'], minval, **kw)
        if p is None:
            # only promised for sources far (100 pixels) outside the box
            require(ref.max() <= minval, 'evaluate_grid_approx3 returned nothing although the box holds flux')
            continue
        if not doslice:
            require(tuple(p.getExtent()) == (x0, x1, y0, y1), 'extent of unsliced result')
        full = place(p, x0, x1, y0, y1)
        judge(full, 'evaluate_grid_approx3(doslice=%s)' % doslice)
        # the sliced result leaves out zeros only
        sliced[doslice] = full
        if len(sliced) == 2:
            close(sliced[True], sliced[False], 0., 0., 'evaluate_grid_approx3: sliced vs whole')
        q, qx, qy = mog.evaluate_grid_approx3(x0, x1, y0, y1, c['fx'], c['fy'], minval, derivs=True, **kw)
        close(place(q, x0, x1, y0, y1), full, 0., 0., 'approx3 with derivs vs without')
        X = place(qx, x0, x1, y0, y1)
        Y = place(qy, x0, x1, y0, y1)
        # where the pixel was evaluated, the derivative is that of the retained terms;
        # a dropped term is below minval, its derivative below minval * |delta|/sigma^2
        smin = np.sqrt(np.linalg.eigvalsh(v).min())
        dmax = np.max(np.hypot(xx - c['fx'], yy - c['fy'])) + 3.
        dt = minval * (dmax / smin**2) + pk / smin * 1e-10
        ev = (full != 0.)
        # sign convention: derivative with respect to the *source position*
        close(X[ev], -gx[ev], dt, 1e-6, 'x derivative')
        close(Y[ev], -gy[ev], dt, 1e-6, 'y derivative')
        require(np.all(X[~ev] == 0.) or minval > 0, 'derivative outside evaluated pixels')
    # threshold zero: everything inside the box is evaluated
    p = mog.evaluate_grid_approx3(x0, x1, y0, y1, c['fx'], c['fy'], 0., derivs=True, doslice=False)
    if p is None:
        require(ref.max() <= 1e-9 * pk, 'evaluate_grid_approx3 with zero threshold returned nothing although the box holds flux')
        return
    p, px, py = p
    close(p.patch, ref, tight, 1e-9, 'approx3 with zero threshold')
    smin = np.sqrt(np.linalg.eigvalsh(v).min())
    close(px.patch, -gx, tight * 100 / smin, 1e-8, 'approx3 x derivative, zero threshold')
    close(py.patch, -gy, tight * 100 / smin, 1e-8, 'approx3 y derivative, zero threshold')
    mm = mog.apply_affine(np.array([c['fx'], c['fy']]), np.eye(2))
    for ee in (True, False):
        p = mixture_to_patch(mm, x0, x1, y0, y1, minval=minval, exactExtent=ee)
        if ee:
            require(tuple(p.getExtent()) == (x0, x1, y0, y1), 'exactExtent not honoured')
        judge(place(p, x0, x1, y0, y1), 'mixture_to_patch(exactExtent=%s)' % ee)
    unchanged(mog, amv, 'evaluation')


def check_masked(c, ctx):
    mog, amv, (x0, x1, y0, y1), xx, yy, ref, pk = setup(c, ctx)
    a, m, v = amv
    h, w = ref.shape
    r = gen.rng(c['seed'])
    mask = r.uniform(size=(h, w)) < c['fill']
    ctx.nt(0 < mask.sum() < mask.size and ref[mask].max() > 1e-4 * pk)
    gx, gy = derivs_ref(a, m, v, xx - c['fx'], yy - c['fy'])
    p = mog.evaluate_grid_masked(x0, y0, mask, c['fx'], c['fy'])
    require(p.x0 == x0 and p.y0 == y0 and p.patch.shape == (h, w), 'masked evaluation: extent')
    # float32 arithmetic, in pixel coordinates
    smin = np.sqrt(np.linalg.eigvalsh(v).min())
    dpos = 3e-7 * max(abs(x0), abs(x1), abs(y0), abs(y1), abs(c['fx']), abs(c['fy'])) / smin
    close(p.patch, ref * mask, pk * (2e-5 + dpos), 1e-3, 'evaluate_grid_masked')
    require(np.all(p.patch[~mask] == 0.), 'value outside the mask')
    q, qx, qy = mog.evaluate_grid_masked(x0, y0, mask, c['fx'], c['fy'], derivs=True)
    close(q.patch, p.patch, 0., 0., 'masked with derivs vs without')
    close(qx.patch, -gx * mask, pk / smin * (1e-4 + dpos), 3e-3, 'masked x derivative')
    close(qy.patch, -gy * mask, pk / smin * (1e-4 + dpos), 3e-3, 'masked y derivative')
    unchanged(mog, amv, 'masked evaluation')


def check_fourier(c, ctx):
    """Fourier transform = exact transform of the mixture; both code paths agree."""
    from tractor.mixture_profiles import MixtureOfGaussians
    a, m, v = gen.mog_arrays(c['mog'])
    mog = MixtureOfGaussians(a.copy(), m.copy(), v.copy())
    H, W = c['H'], c['W']
    fv = np.fft.rfftfreq(W)
    fw = np.fft.fftfreq(H)
    V, Wm = fv[np.newaxis, :], fw[:, np.newaxis]
    for zm in (False, True):
        ref = np.zeros((H, len(fv)), complex)
        for k in range(len(a)):
            F = np.exp(-2. * np.pi**2 * (v[k, 0, 0] * V**2 + v[k, 1, 1] * Wm**2 + 2 * v[k, 0, 1] * V * Wm))
            if not zm:
                F = F * np.exp(-2j * np.pi * (m[k, 0] * V + m[k, 1] * Wm))
            ref += a[k] * F
        tot = np.abs(a).sum()
        if zm:
            f = mog.getFourierTransform(fv, fw, zero_mean=True)
            close(np.real(f), np.real(ref), 1e-9 * tot, 1e-9, 'fourier transform, zero mean')
            require(np.all(np.imag(f) == 0), 'zero-mean transform is not real')
            mz = MixtureOfGaussians(a.copy(), np.zeros_like(m), v.copy())
            g = mz.getFourierTransform(fv, fw, use_mp_fourier=False)
            close(np.real(g), np.real(ref), 1e-9 * tot, 1e-9, 'python path, zero mean')
            g = mz.getFourierTransform(fv, fw)
            close(np.real(g), np.real(ref), 1e-9 * tot, 1e-9, 'zero means, default path')
        else:
            for mp in (True, False):
                f = mog.getFourierTransform(fv, fw, use_mp_fourier=mp)
                close(np.real(f), ref.real, 1e-9 * tot, 1e-9, 'fourier transform (real)')
                close(np.imag(f), ref.imag, 1e-9 * tot, 1e-9, 'fourier transform (imag)')
    # pixel space and Fourier space describe the same thing
    if np.linalg.eigvalsh(v).min() > 2.5 and min(H, W) >= 64:
        cx, cy = W // 2, H // 2
        f = mog.getFourierTransform(fv, fw) * np.exp(-2j * np.pi * (cx * V + cy * Wm))
        im = np.fft.irfft2(f, s=(H, W))
        p = mog.evaluate_grid(0, W, 0, H, cx, cy)
        if np.linalg.eigvalsh(v).max() < 16.:
            pk = p.patch.max()
            close(im, p.patch, 2e-3 * pk, 0., 'inverse FFT of transform vs pixel evaluation')
            ctx.tag('pixel-vs-fourier')
    unchanged(mog, (a, m, v), 'transforming')
    ctx.nt(H > 4 and W > 4)


def check_algebra(c, ctx):
    """Convolution, affine maps, shears, concatenation."""
    from tractor.mixture_profiles import MixtureOfGaussians
    A = gen.mog_arrays(c['mog'])
    B = gen.mog_arrays(c['mog2'])
    ma = MixtureOfGaussians(*[x.copy() for x in A])
    mb = MixtureOfGaussians(*[x.copy() for x in B])
    r = gen.rng(c['seed'])
    pts = r.uniform(-8, 8, size=(20, 2))
    S = np.array(c['S']).reshape(2, 2)
    S = S + np.eye(2) * (2.5 if abs(np.linalg.det(S)) < 0.3 else 0.)
    sh = np.array([c['fx'], c['fy']])

    def ref(amv, p):
        return gen.ref_mog(amv[0], amv[1], amv[2], p[:, 0], p[:, 1])
    # convolution: exact components
    amp = np.array([x * y for y in B[0] for x in A[0]])
    mean = np.array([x + y for y in B[1] for x in A[1]])
    var = np.array([x + y for y in B[2] for x in A[2]])
    for u, w in ((ma, mb), (mb, ma)):
        cv = u.convolve(w)
        require(cv.K == len(amp), 'convolution has %s components, expected %d' % (cv.K, len(amp)))
        close(cv.evaluate(pts), ref((amp, mean, var), pts), 1e-12 * amp.sum(), 1e-9, 'convolution')
        close(cv.amp.sum(), A[0].sum() * B[0].sum(), 0., 1e-12, 'flux of convolution')
    aff = ma.apply_affine(sh, S)
    v2 = np.array([S.dot(x).dot(S.T) for x in A[2]])
    close(aff.evaluate(pts), ref((A[0], A[1] + sh, v2), pts), 1e-12 * A[0].sum(), 1e-8, 'affine map')
    she = ma.apply_shear(S)
    close(she.evaluate(pts), ref((A[0], A[1], v2), pts), 1e-12 * A[0].sum(), 1e-8, 'shear')
    # concatenation: sum of the two, normalised to unit total
    add = ma + mb
    tot = A[0].sum() + B[0].sum()
    close(add.evaluate(pts), (ref(A, pts) + ref(B, pts)) / tot, 1e-13, 1e-9, 'sum of mixtures (unit total)')
    close(add.amp.sum(), 1., 1e-12, 0, 'normalised total')
    unchanged(ma, A, 'an operation')
    unchanged(mb, B, 'an operation')
    ex = MixtureOfGaussians(*[x.copy() for x in A])
    ex.extend(mb)
    require(ex.K == len(A[0]) + len(B[0]), 'K after extend')
    close(ex.evaluate(pts), ref(A, pts) + ref(B, pts), 1e-12, 1e-9, 'extend')
    unchanged(mb, B, 'extend')
    no = MixtureOfGaussians(*[x.copy() for x in A])
    no.normalize()
    close(no.amp, A[0] / A[0].sum(), 0., 1e-14, 'normalize')
    # isotropic variances given as a vector
    iso = MixtureOfGaussians(A[0], A[1], A[2][:, 0, 0])
    vi = np.array([np.eye(2) * x[0, 0] for x in A[2]])
    close(iso.evaluate(pts), ref((A[0], A[1], vi), pts), 1e-12 * A[0].sum(), 1e-9, 'isotropic variances')
    # unsymmetric covariance input is symmetrised
    asy = A[2].copy()
    asy[:, 0, 1] += 0.01
    asy[:, 1, 0] -= 0.01
    close(MixtureOfGaussians(A[0], A[1], asy).var, A[2], 1e-14, 1e-14, 'symmetrised covariance')
    ctx.nt(len(A[0]) > 1 or len(B[0]) > 1)
    ctx.tag('K%ix%i' % (len(A[0]), len(B[0])))


SUBS = [
    Sub('exact', base(), check_exact, quick=800, thorough=20000, shards=2,
        doc='pointwise, grid and single-point evaluation vs a float64 numpy sum'),
    Sub('approx', base(off=0.5, rel=pick(1e-3, 1e-4, 1e-6, 1e-9, 0.03), minradius=st.integers(0, 12)),
        check_approx, quick=1000, thorough=20000, shards=2,
        doc='thresholded evaluation within the threshold everywhere in the box; derivatives'),
    Sub('masked', base(seed=gen.seeds, fill=pick(0.1, 0.5, 0.9, 1.)),
        check_masked, quick=800, thorough=20000, shards=2, doc='masked float32 evaluation and derivatives'),
    Sub('fourier', st.fixed_dictionaries(dict(mog=gen.mog_spec(kmax=4, smin=0.5, smax=4., off=3.),
                                              H=pick(1, 2, 7, 16, 33, 64, 65, 96), W=pick(1, 2, 8, 17, 64, 81))),
        check_fourier, quick=400, thorough=8000, doc='Fourier transform, native and python'),
    Sub('algebra', st.fixed_dictionaries(dict(mog=gen.mog_spec(kmax=3), mog2=gen.mog_spec(kmax=3), seed=gen.seeds,
                                              S=lst(fl(-2, 2, 2), 4), fx=fl(-5, 5, 2), fy=fl(-5, 5, 2))),
        check_algebra, quick=400, thorough=8000, doc='convolve, affine, shear, add, extend, normalize'),
]
