"""C23: Gaussian approximations fitted to a PSF image describe that image."""
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close, Skip
from .gen import fl, pick, lst

PROP = 'C23'
RULE = ('A case is a PSF stamp (a known mixture of one to three Gaussians, possibly with noise or negative pixels), a number of components, a starting guess, a number of EM '
        'steps and a fitting method; or a pixelized PSF turned into a hybrid PSF; or a PSF varying over the image. The fit is compared with an independent implementation of the EM iteration, '
        'with the mixture the stamp was made from, and checked for the likelihood never decreasing. Non-trivial: at least two steps and two components, an '
        'off-centre or elongated component, or a PSF that varies.')
ASSUMPTIONS = ['recovery of the mixture is demanded only for well-sampled components (sigma at least 1.2 pixels) contained in the stamp and, with two concentric components, widths in a ratio of at least 1.6']


def density(xx, yy, w, mu, var):
    out = []
    for a, m, V in zip(w, mu, var):
        iv = np.linalg.inv(V)
        dx, dy = xx - m[0], yy - m[1]
        d = iv[0, 0] * dx * dx + (iv[0, 1] + iv[1, 0]) * dx * dy + iv[1, 1] * dy * dy
        out.append((a / (2. * np.pi * np.sqrt(np.linalg.det(V))) * np.exp(-0.5 * d), d))
    return np.array([o[0] for o in out]), np.array([o[1] for o in out])


def grid(img, x0, y0):
    yy, xx = np.mgrid[:img.shape[0], :img.shape[1]].astype(float)
    return xx + x0, yy + y0


def em_step(img, x0, y0, w, mu, var, alpha):
    """One iteration of expectation-maximisation of a mixture to a histogram, with a regularised covariance."""
    xx, yy = grid(img, x0, y0)
    z, d = density(xx, yy, w, mu, var)
    z[d >= 100.] = 0.
    s = z.sum(axis=0)
    r = np.where(s > 0, z / np.where(s > 0, s, 1.), 0.) * img
    W = r.sum(axis=(1, 2))
    mx, my = (r * xx).sum(axis=(1, 2)) / W, (r * yy).sum(axis=(1, 2)) / W
    V = np.zeros((len(w), 2, 2))
    for k in range(len(w)):
        dx, dy = xx - mx[k], yy - my[k]
        V[k] = [[(r[k] * dx * dx).sum() + alpha, (r[k] * dx * dy).sum()], [(r[k] * dx * dy).sum(), (r[k] * dy * dy).sum() + alpha]]
        V[k] /= W[k] + alpha
    return W, np.array([mx, my]).T, V


def em2_step(img, x0, y0, w, mu, var, alpha, psky, approx):
    """The same with a flat sky component, and moments about the previous means."""
    xx, yy = grid(img, x0, y0)
    z, d = density(xx, yy, w, mu, var)
    for k in range(len(w)):
        z[k][d[k] >= -2. * np.log(approx * 2. * np.pi * np.sqrt(np.linalg.det(var[k])))] = 0.
    s = z.sum(axis=0)
    pos = (img > 0) & (s > 0)
    r = np.where(pos, z / np.where(pos, s + psky, 1.) * img, 0.)
    sky = np.abs(img[img <= 0]).sum() + img[(img > 0) & (s == 0)].sum() + (img * psky / np.where(pos, s + psky, 1.))[pos].sum()
    W = r.sum(axis=(1, 2))
    V = np.zeros((len(w), 2, 2))
    for k in range(len(w)):
        dx, dy = xx - mu[k, 0], yy - mu[k, 1]
        V[k] = [[(r[k] * dx * dx).sum() + alpha, (r[k] * dx * dy).sum()], [(r[k] * dx * dy).sum(), (r[k] * dy * dy).sum() + alpha]]
        V[k] /= W[k] + alpha
    M = np.array([(r * xx).sum(axis=(1, 2)) / W, (r * yy).sum(axis=(1, 2)) / W]).T
    return W, M, V, sky / img.size


def like(img, x0, y0, w, mu, var):
    xx, yy = grid(img, x0, y0)
    z, d = density(xx, yy, w, mu, var)
    s = z.sum(axis=0) / np.sum(w)
    ok = img > 0
    return np.sum(img[ok] * np.log(np.maximum(s[ok], 1e-300)))


def stamp_of(c):
    amp, mean, var = gen.mog_arrays(c['mog'])
    amp = amp / amp.sum()
    h = c['half']
    hx = h + c['wide']
    yy, xx = np.mgrid[-h:h + 1, -hx:hx + 1].astype(float)
    img = density(xx, yy, amp, mean, var)[0].sum(axis=0)
    if c['noise']:
        img = img + c['noise'] * img.max() * gen.rng(c['seed']).normal(size=img.shape)
    return img


def guess(c):
    r = gen.rng(c['seed'] + 1)
    K = c['K']
    w = r.uniform(0.5, 1.5, size=K)
    return (w / w.sum(), r.normal(size=(K, 2)), np.array([np.diag(r.uniform(1., 2., size=2)) * (k + 1.)**2 for k in range(K)]))


def check_em(c, ctx):
    from tractor.psf import GaussianMixturePSF
    img = stamp_of(c)
    xy0 = c['xy0'] or (-(img.shape[1] // 2), -(img.shape[0] // 2))
    w, mu, var = guess(c)
    if not c['P0']:
        # documented default: equal weights, centred, growing circles
        from tractor.fitpsf import em_init_params
        w, mu, var = em_init_params(c['K'], None, None, None)
        require(len(w) == c['K'] and abs(w.sum() - 1.) < 1e-12 and np.all(np.linalg.det(var) > 0), 'default starting guess is not a mixture')
    P0 = (w.copy(), mu.copy(), var.copy()) if c['P0'] else None
    before = img.copy()
    if c['single']:
        img = img.astype(np.float32)
        before = img.copy()
    kw = dict(N=c['K'], P0=P0, emsteps=c['steps'], alpha=c['alpha'])
    if c['xy0']:
        kw['xy0'] = c['xy0']
    tol = 1e-3 if c['single'] else 1e-6
    if c['method'] == 'plain':
        psf = GaussianMixturePSF.fromStamp(img, **kw)
        ref = before.astype(float) / before.astype(float).sum()
        ref = np.maximum(ref, 0.)
        ls = []
        for i in range(c['steps']):
            if np.any(~np.isfinite(w)) or np.any(w < 1e-4) or np.any(np.linalg.det(var) < 1e-4):
                raise Skip('a component died out')
            ls.append(like(ref, xy0[0], xy0[1], w, mu, var))
            w, mu, var = em_step(ref, xy0[0], xy0[1], w, mu, var, c['alpha'])
    else:
        psf, sky = GaussianMixturePSF.fromStamp(img, v2=True, approx=c['approx'], **kw)
        ref = before.astype(float)
        psky = 0.01 * ref.sum() / ref.size
        for i in range(c['steps']):
            if np.any(~np.isfinite(w)) or np.any(w < 1e-4) or np.any(np.linalg.det(var) < 1e-4):
                raise Skip('a component died out')
            w, mu, var, psky = em2_step(ref, xy0[0], xy0[1], w, mu, var, c['alpha'], psky, c['approx'])
        if c['steps']:
            close(sky, psky, 1e-9, 1e-4, 'sky level of the fit')
    if np.any(~np.isfinite(w)) or np.any(w < 1e-4) or np.any(np.linalg.det(var) < 1e-4):
        raise Skip('a component died out')
    close(psf.mog.amp, w, tol, 0., 'weights after %i EM steps' % c['steps'])
    close(psf.mog.mean, mu, 10. * tol, 0., 'means after %i EM steps' % c['steps'])
    close(psf.mog.var, var, 10. * tol, 10. * tol, 'covariances after %i EM steps' % c['steps'])
    close(img, before, 0., 0., 'the stamp after the fit')
    if P0 is not None:
        for what, a, b in zip(('weights', 'means', 'covariances'), P0, guess(c)):
            close(a, b, 0., 0., "the caller's %s after the fit" % what)
    if P0 is None:
        pass
    elif c['method'] == 'plain' and c['alpha'] == 0.:
        # an EM iteration never lowers the likelihood (pixels near the guess)
        a, b = guess(c)[1:]
        l0 = like(ref, xy0[0], xy0[1], guess(c)[0], a, b)
        l1 = like(ref, xy0[0], xy0[1], psf.mog.amp, psf.mog.mean, psf.mog.var)
        xx, yy = grid(ref, *xy0)
        near = np.all([density(xx, yy, *guess(c))[1].min(axis=0) < 90.])
        if near:
            require(l1 >= l0 - 1e-9, lambda: 'EM lowered the likelihood: %r -> %r' % (l0, l1))
            ctx.tag('likelihood')
    ctx.tag(c['method'])
    if c['steps'] >= 2 and c['K'] >= 2:
        ctx.nt()


def check_recover(c, ctx):
    """A stamp made of Gaussians is fitted by those Gaussians."""
    from tractor.psf import GaussianMixturePSF, GaussianMixtureEllipsePSF, PixelizedPSF, HybridPixelizedPSF
    V1 = gen.cov_of(c['cov'])
    var = [V1] if c['n'] == 1 else [V1, V1 * c['ratio']**2]
    amp = np.array([1.]) if c['n'] == 1 else np.array([c['frac'], 1. - c['frac']])
    mean = np.array([[c['mx'], c['my']]] * c['n'])
    h = int(np.ceil(max(abs(c['mx']), abs(c['my'])) + 5.5 * np.sqrt(np.max(np.linalg.eigvalsh(var[-1])))))
    yy, xx = np.mgrid[-h:h + 1, -h:h + 1].astype(float)
    img = density(xx, yy, amp, mean, var)[0].sum(axis=0)
    pk = img.max()
    how = c['how']
    P0 = None
    if c['near'] and how in ('v3', 'ellipse'):
        if how == 'v3':
            P0 = GaussianMixturePSF(amp * 1.05, mean + 0.05, np.array(var) * 1.1).getParams()
        else:
            from tractor.ellipses import EllipseESoft
            ells = [EllipseESoft.fromCovariance(v * 1.1) for v in var]
            P0 = GaussianMixtureEllipsePSF(amp * 1.05, mean + 0.05, ells).getParams()
    if how == 'plain':
        psf = GaussianMixturePSF.fromStamp(img, N=c['n'])
    elif how == 'v2':
        psf, sky = GaussianMixturePSF.fromStamp(img, N=c['n'], v2=True)
        require(abs(sky) < 1e-3 * pk, lambda: 'sky %g found in a stamp without sky (peak %g)' % (sky, pk))
    elif how == 'v3':
        try:
            psf = GaussianMixturePSF.fromStamp(img, N=c['n'], v3=True, P0=P0)
        except AssertionError:
            # an unconstrained step left the positive-definite covariances: no fit
            raise Skip('diverged')
    elif how == 'ellipse':
        psf = GaussianMixtureEllipsePSF.fromStamp(img, N=c['n'], P0=P0)
    else:
        pix = PixelizedPSF(img.astype(np.float32))
        if c['near']:
            # a PSF that varies over the image: the Gaussians are those of the place asked for
            here, there = pix, PixelizedPSF(np.ascontiguousarray(img.T[::-1]).astype(np.float32))
            pix = PixelizedPSF(there.img)
            pix.getImage = lambda px, py: (here if px > 100. and py < 50. else there).img
            pix.getPointSourcePatch = here.getPointSourcePatch
            hyb = HybridPixelizedPSF(pix, N=c['n'], cx=150., cy=20.)
        else:
            hyb = HybridPixelizedPSF(pix, N=c['n'])
        psf = hyb.gauss
        # the hybrid is its pixelized PSF for stars, and the Gaussians as a mixture
        a = hyb.getPointSourcePatch(20.3, 21.6)
        b = pix.getPointSourcePatch(20.3, 21.6)
        require((a.x0, a.y0) == (b.x0, b.y0), 'hybrid patch is elsewhere')
        close(a.patch, b.patch, 0., 0., 'star drawn with the hybrid PSF')
        require(hyb.getMixtureOfGaussians() is psf.mog or np.array_equal(hyb.getMixtureOfGaussians().var, psf.mog.var), 'mixture of the hybrid')
    m = psf.getMixtureOfGaussians()
    got = density(xx, yy, m.amp, m.mean, m.var)[0].sum(axis=0)
    # EM converges slowly for overlapping components: the image is fitted long before the parameters
    tol = 0.002 if c['n'] == 1 else 0.03
    if how in ('v3', 'ellipse'):
        # least squares may stop in a poorer place than EM does: but it never leaves more of the stamp than its starting guess
        if how == 'v3':
            from tractor.fitpsf import em_init_params
            q = GaussianMixturePSF(*em_init_params(c['n'], None, None, None)) if P0 is None else GaussianMixturePSF(*P0)
        else:
            from tractor.ellipses import EllipseESoft
            q = GaussianMixtureEllipsePSF(np.ones(c['n']) / c['n'], np.zeros((c['n'], 2)), [EllipseESoft(np.log(2. * r), 0., 0.) for r in range(1, c['n'] + 1)]) if P0 is None else GaussianMixtureEllipsePSF(*P0)
        q = q.getMixtureOfGaussians()
        start = density(xx, yy, q.amp, q.mean, q.var)[0].sum(axis=0)
        r0, r1 = [np.sqrt(np.mean((g - img)**2) / np.mean(img**2)) for g in (start, got)]
        require(r1 < r0 * 1.01 + 1e-3, lambda: 'Gaussians fitted by %s leave %.2f%% of the stamp, the starting guess left %.2f%%' % (how, 100. * r1, 100. * r0))
        if c['near'] and how == 'ellipse':
            require(r1 < 0.5 * r0 + 0.01, lambda: 'starting close to the truth, the fit by %s went from %.2f%% of the stamp left to %.2f%%' % (how, 100. * r0, 100. * r1))
        ctx.tag(how)
        ctx.nt()
        return
    close(got, img, tol * pk, 0., 'fitted Gaussians (%s), against the stamp' % how)
    close(m.amp.sum(), 1., 0.01, 0., 'total weight')
    if c['n'] == 1:
        close(m.mean[0], mean[0], 0.01, 0., 'centre')
        close(m.var[0], V1, 0.01, 0.01, 'covariance')
    ctx.tag(how)
    ctx.nt()


def check_varying(c, ctx):
    """A varying PSF fitted on a grid is, near it, the PSF it was fitted to."""
    from tractor.psfex import VaryingGaussianPSF
    from tractor.psf import GaussianMixtureEllipsePSF, GaussianMixturePSF
    W, H, h = c['W'], c['H'], 15

    def truth(x, y):
        s = c['sig'] * (1. + c['gx'] * x / W + c['gy'] * y / H)
        return s**2 * np.eye(2) + np.array([[c['e'] * x / W, 0.], [0., 0.]])

    calls = []

    class Psf(VaryingGaussianPSF):
        def instantiateAt(self, x, y):
            calls.append((x, y))
            yy, xx = np.mgrid[-h:h + 1, -h:h + 1].astype(float)
            return density(xx, yy, [1.], [[0., 0.]], [truth(x, y)])[0][0]
    cls = GaussianMixturePSF if c['plain'] else GaussianMixtureEllipsePSF
    if c['psfex']:
        # the same through the PsfEx class, its pixelized model replaced
        from tractor.psfex import PsfEx

        class Model(object):
            def at(self, x, y, **kw):
                return Psf.instantiateAt(None, x, y)
        psf = PsfEx(None, W, H, nx=c['nx'], ny=c['ny'], K=1, psfClass=cls)
        psf.psfex = Model()
    else:
        psf = Psf(W, H, nx=c['nx'], ny=c['ny'], K=1, psfClass=cls)
    psf.savesplinedata = True
    pts = [(fx * W, fy * H) for fx, fy in c['at']]
    for k, (x, y) in enumerate(pts):
        m = psf.getMixtureOfGaussians(px=x, py=y)
        if c['plain']:
            close(m.amp.sum(), 1., 0.01, 0., 'weight at (%.1f, %.1f)' % (x, y))
            close(m.mean, np.zeros((1, 2)), 0.02, 0., 'centre')
            close(m.var[0], truth(x, y), 0.03 * truth(x, y).max(), 0., 'covariance at (%.1f, %.1f)' % (x, y))
        q = psf.psfAt(x, y)
        require(type(q) is cls, 'unexpected class')
        a = psf.getPointSourcePatch(x, y)
        b = q.getPointSourcePatch(x, y)
        close(a.patch, b.patch, 0., 0., 'star at a place, against the PSF there')
        if k == 0:
            n = len(calls)
            require(n == c['nx'] * c['ny'], 'fitted at %i places instead of %i' % (n, c['nx'] * c['ny']))
    require(len(calls) == c['nx'] * c['ny'], 'the fit was repeated')
    pp, XX, YY = psf.splinedata
    close(XX, np.linspace(0., W, c['nx']), 1e-9, 0., 'fitted places')
    close(YY, np.linspace(0., H, c['ny']), 1e-9, 0., 'fitted places')
    # at the places of the fit, the fit itself
    for j, y in enumerate(YY):
        for i, x in enumerate(XX):
            close(psf.psfParamsAt(x, y), pp[j][i], 1e-8, 1e-8, 'parameters at a fitted place')
    # refit from the saved data
    again = Psf(W, H, nx=c['nx'], ny=c['ny'], K=1, psfClass=cls)
    again.fitSavedData(pp, XX, YY)
    for x, y in pts:
        close(again.psfParamsAt(x, y), psf.psfParamsAt(x, y), 1e-12, 0., 'parameters from saved data')
    if abs(c['gx']) + abs(c['gy']) > 0.05:
        ctx.nt()


def em1_step(x, w, mu, var, alpha):
    d = (x - mu[:, None])**2 / var[:, None]
    z = np.where(d < 100., (w / np.sqrt(2. * np.pi * var))[:, None] * np.exp(-0.5 * d), 0.)
    s = z.sum(axis=0)
    r = np.where(s > 0, z / np.where(s > 0, s, 1.), 0.)
    W = r.sum(axis=1)
    m = (r * x).sum(axis=1) / W
    v = ((r * (x - m[:, None])**2).sum(axis=1) + alpha) / (W + alpha)
    return W / len(x), m, v


def like1(x, w, mu, var):
    return np.sum(np.log(np.maximum(((w / np.sqrt(2. * np.pi * var))[:, None] * np.exp(-0.5 * (x - mu[:, None])**2 / var[:, None])).sum(axis=0), 1e-300)))


def check_samples(c, ctx):
    """Mixtures fitted to a list of samples (one dimension), and the fit to convergence in one and two."""
    from tractor.emfit import em_fit_1d_samples_reg, em_fit_1d_samples, em_fit_2d
    r = gen.rng(c['seed'])
    K = c['K']
    if c['how'] == '2d':
        img = stamp_of(c)
        img = np.maximum(img, 0.) / np.maximum(img, 0.).sum()
        w, mu, var = guess(c)
        x0, y0 = -(img.shape[1] // 2), -(img.shape[0] // 2)
        a, m, v = w.copy(), mu.copy(), var.copy()
        xx, yy = grid(img, x0, y0)
        if density(xx, yy, w, mu, var)[1].min(axis=0).max() > 90.:
            raise Skip('pixels far from every component')
        for i in range(1000):
            w, mu, var = em_step(img, x0, y0, w, mu, var, 0.)
            if np.any(~np.isfinite(w)) or np.any(w < 1e-4) or np.any(np.linalg.det(var) < 1e-3):
                raise Skip('a component died out')
        require(em_fit_2d(img, x0, y0, a, m, v) == 0, 'the fit failed')
        g = guess(c)
        require(like(img, x0, y0, a, m, v) >= like(img, x0, y0, *g) - 1e-9, 'the fit lowered the likelihood')
        close(a, w, 1e-4, 0., 'weights of the converged fit')
        close(m, mu, 1e-3, 0., 'means of the converged fit')
        close(v, var, 1e-3, 1e-3, 'covariances of the converged fit')
        ctx.tag('2d')
        return ctx.nt()
    x = np.concatenate([r.normal(size=c['n']) * s + m for m, s in c['comps']])
    w = r.uniform(0.5, 1.5, size=K)
    w /= w.sum()
    mu = r.choice(x, size=K) + r.normal(size=K) * 0.1
    var = r.uniform(0.5, 3., size=K)
    far = c['outlier'] and c['how'] == 'steps'
    if far:
        # a sample beyond the reach of every component is left out, and the weights say so
        x = np.append(x, 1e4)
    x0, g = x.copy(), (w.copy(), mu.copy(), var.copy())
    a, m, v = w.copy(), mu.copy(), var.copy()
    n = c['steps'] if c['how'] == 'steps' else 1000
    alpha = c['alpha'] if c['how'] == 'steps' else 0.
    for i in range(n):
        w, mu, var = em1_step(x, w, mu, var, alpha)
        if np.any(~np.isfinite(w)) or np.any(w < 1e-3) or np.any(var < 1e-3):
            raise Skip('a component died out')
    if c['how'] == 'steps':
        require(em_fit_1d_samples_reg(x, a, m, v, alpha, n) == 0, 'the fit failed')
    else:
        require(em_fit_1d_samples(x, a, m, v) == 0, 'the fit failed')
    tol = 1e-8 if c['how'] == 'steps' else 1e-3
    close(a, w, tol, 0., 'weights')
    close(m, mu, tol, tol, 'means')
    close(v, var, tol, tol, 'variances')
    close(x, x0, 0., 0., 'the samples after the fit')
    if not far and alpha == 0.:
        near = ((x - g[1][:, None])**2 / g[2][:, None]).min(axis=0).max() < 90.
        if near:
            require(like1(x, a, m, v) >= like1(x, *g) - 1e-8, 'the fit lowered the likelihood')
            ctx.tag('likelihood')
    ctx.tag(c['how'])
    if K > 1 and n > 1:
        ctx.nt()


COV = st.tuples(fl(1.3, 2.6), fl(1.3, 2.6), fl(-0.6, 0.6)).map(lambda t: list(t))
SUBS = [
    Sub('em', st.fixed_dictionaries(dict(mog=gen.mog_spec(3, smin=1., smax=3.), half=st.integers(5, 12), wide=st.integers(0, 4), noise=pick(0., 0., 0.003, 0.02), seed=gen.seeds, K=st.integers(1, 3),
                                         xy0=st.one_of(st.none(), st.tuples(st.integers(-12, -3), st.integers(-12, -3))), P0=st.booleans(), steps=st.integers(0, 12), alpha=pick(0., 0., 0.05),
                                         single=pick(False, False, True), method=pick('plain', 'v2'), approx=pick(1e-30, 1e-6))),
        check_em, 300, 8000, doc='EM iterations against an independent implementation'),
    Sub('recover', st.fixed_dictionaries(dict(cov=COV, n=st.integers(1, 2), ratio=fl(1.6, 2.5), frac=fl(0.3, 0.8), mx=fl(-0.5, 0.5), my=fl(-0.5, 0.5),
                                              near=st.booleans(), how=pick('plain', 'v2', 'v3', 'ellipse', 'hybrid'))),
        check_recover, 60, 1500, shards=2, doc='stamps made of Gaussians are fitted by those Gaussians'),
    Sub('varying', st.fixed_dictionaries(dict(W=st.integers(50, 400), H=st.integers(50, 400), nx=st.integers(4, 6), ny=st.integers(4, 6), sig=fl(1.4, 2.), gx=fl(-0.2, 0.3), gy=fl(-0.2, 0.3), e=fl(0., 1.), plain=st.booleans(), psfex=st.booleans(),
                                              at=lst(st.tuples(fl(0., 1.), fl(0., 1.)), 1, 4))),
        check_varying, 12, 200, shards=2, doc='a PSF fitted over the image'),
    Sub('samples', st.fixed_dictionaries(dict(how=pick('steps', 'steps', 'converged', '2d'), K=st.integers(1, 3), n=st.integers(3, 40), comps=lst(st.tuples(fl(-5., 5.), fl(0.4, 2.)), 1, 3), steps=st.integers(0, 20),
                                              alpha=pick(0., 0., 0.1, 1.), outlier=pick(False, False, True), seed=gen.seeds, mog=gen.mog_spec(3, smin=1., smax=3.), half=st.integers(5, 8), wide=st.integers(0, 3), noise=pick(0., 0.01))),
        check_samples, 100, 2000, doc='fits to lists of samples, and fits to convergence'),
]
