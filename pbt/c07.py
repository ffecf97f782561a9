"""C07: a pixelized PSF appears at its sub-pixel position, unchanged in flux and shape."""
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .core import Sub, require, close, Skip
from .gen import fl, pick, lst

PROP = 'C07'
RULE = ('A case is an arbitrary image and sub-pixel shift (any size from 1 pixel up, both number types, any memory layout; zero, tiny and half-pixel shifts), or a '
        'postage stamp (any odd shape, arbitrary or smooth content, sampled at the image pixels or finer or coarser, normalized or not), a position anywhere '
        'relative to the image, and optionally a patch radius or a mask window; compared with a double-precision Lanczos-3 interpolation and, for smooth stamps, '
        'with the Gaussian the stamp samples. Non-trivial: fractional shift and content that overlaps the window.')
ASSUMPTIONS = ['interpolation of oversampled stamps at the very edge of the stamp is left to the astrometry library: stamps there end in zeros']


def layout(a, how):
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.zeros((a.shape[0] * 2, a.shape[1] * 3), a.dtype)
        b[::2, ::3] = a
        return b[::2, ::3]
    if how == 'rev':
        return a[::-1, ::-1].copy()[::-1, ::-1]
    return a


def check_shift(c, ctx):
    from tractor.psf import lanczos_shift_image
    r = gen.rng(c['seed'])
    a = r.normal(size=(c['H'], c['W'])) * c['amp']
    if c['sparse']:
        a *= r.uniform(size=a.shape) < 0.1
    a = layout(a.astype(np.float32 if c['f4'] else np.float64), c['lay'])
    a0 = a.copy()
    dx, dy = c['d']
    want = ref.shift(a0.astype(float), dx, dy)
    tol = 3e-6 * (np.abs(a0).max() + 1e-30)
    got = lanczos_shift_image(a, dx, dy)
    require(got.shape == a.shape, 'shape changed')
    require(np.array_equal(a, a0), 'shifting an image changed the image given')
    close(got, want, tol, 0., 'image shifted by (%s, %s)' % (dx, dy))
    got2 = lanczos_shift_image(a, dx, dy, force_python=True)
    close(got2, want, tol, 0., 'image shifted by (%s, %s), python version' % (dx, dy))
    require(np.array_equal(a, a0), 'shifting an image (python) changed the image given')
    b = a.copy()
    out = lanczos_shift_image(b, dx, dy, inplace=True)
    close(out, want, tol, 0., 'image shifted in place, as returned')
    close(b, want, tol, 0., 'image shifted in place')
    # flux is kept when nothing reaches the edge
    p = np.zeros((c['H'] + 8, c['W'] + 8), np.float32)
    p[4:-4, 4:-4] = a0
    close(lanczos_shift_image(p, dx, dy).astype(float).sum(), p.astype(float).sum(), 1e-5 * np.abs(a0).sum() + 1e-30, 0., 'flux of a shifted image')
    ctx.nt(dx != 0 and dy != 0)


def stamp_of(c):
    r = gen.rng(c['seed'])
    H, W = 2 * c['hh'] + 1, 2 * c['hw'] + 1
    yy, xx = np.mgrid[-c['hh']:c['hh'] + 1, -c['hw']:c['hw'] + 1]
    if c['kind'] == 'noise':
        return r.normal(size=(H, W)).astype(np.float32)
    if c['kind'] == 'pos':
        return r.uniform(0.1, 1., size=(H, W)).astype(np.float32)
    if c['kind'] == 'delta':
        a = np.zeros((H, W), np.float32)
        a[c['hh'], c['hw']] = 1.
        return a
    s = c['sig']
    g = np.exp(-0.5 * (xx**2 / s**2 + yy**2 / (1.3 * s)**2 + 0.4 * xx * yy / s**2)) * (1. + 0.1 * xx / s)
    return (g / np.abs(g).sum()).astype(np.float32)


def check_stamp(c, ctx):
    from tractor.psf import PixelizedPSF, NormalizedPixelizedPsf, HybridPixelizedPSF, GaussianMixturePSF
    from tractor.patch import ModelMask
    img = stamp_of(c)
    H, W = img.shape
    psf = {'pix': PixelizedPSF, 'norm': NormalizedPixelizedPsf}.get(c['cls'], PixelizedPSF)(img.copy())
    if c['cls'] == 'hybrid':
        psf = HybridPixelizedPSF(psf, gauss=GaussianMixturePSF(np.array([1.]), np.zeros((1, 2)), np.eye(2)[np.newaxis] * 2.))
    eff = img.astype(float)
    if c['cls'] == 'norm':
        n = eff.sum()
        if n < 0.1 * np.abs(eff).sum():
            raise Skip()
        eff = eff / n
    px, py = c['px'], c['py']
    R = c['radius']
    if R is not None:
        # cut about the centre
        k = int(np.ceil(R))
        cy, cx = H // 2, W // 2
        eff = eff[max(0, cy - k):cy + k + 1, max(0, cx - k):cx + k + 1]
    h, w = eff.shape
    ix, iy = int(np.rint(px)), int(np.rint(py))
    pad = np.zeros((h + 8, w + 8))
    pad[4:-4, 4:-4] = eff
    canvas = ref.shift(pad, px - ix, py - iy)
    X0, Y0 = ix - w // 2 - 4, iy - h // 2 - 4
    tol = 5e-6 * np.abs(eff).max()

    def want(x0, y0, ww, hh):
        out = np.zeros((hh, ww))
        xa, xb = max(x0, X0), min(x0 + ww, X0 + w + 8)
        ya, yb = max(y0, Y0), min(y0 + hh, Y0 + h + 8)
        if xa < xb and ya < yb:
            out[ya - y0:yb - y0, xa - x0:xb - x0] = canvas[ya - Y0:yb - Y0, xa - X0:xb - X0]
        return out
    kw = {} if R is None else dict(radius=R)
    if c['mask'] is None:
        p = psf.getPointSourcePatch(px, py, **kw)
        require(p is not None and p.patch.shape == (h, w), lambda: 'patch has shape %s, stamp %s' % (p.patch.shape, (h, w)))
        require((p.x0, p.y0) == (X0 + 4, Y0 + 4), lambda: 'patch starts at (%s, %s), expected (%s, %s)' % (p.x0, p.y0, X0 + 4, Y0 + 4))
        close(p.patch, want(p.x0, p.y0, w, h), tol, 0., 'stamp at (%s, %s)' % (px, py))
        # whole-pixel moves only move the patch
        q = psf.getPointSourcePatch(px + 64, py - 128, **kw)
        if (px + 64) - 64 == px and (py - 128) + 128 == py and abs(px - ix) < 0.499 and abs(py - iy) < 0.499:
            require((q.x0, q.y0) == (p.x0 + 64, p.y0 - 128), 'moving by whole pixels moved the patch by others')
            close(q.patch, p.patch, tol, 0., 'stamp after a move by whole pixels')
        ctx.nt(px != ix)
    else:
        mx, my, mw, mh = c['mask']
        mx, my = ix + mx, iy + my
        mm = ModelMask(mx, my, mw, mh)
        p = psf.getPointSourcePatch(px, py, modelMask=mm, **kw)
        E = want(mx, my, mw, mh)
        if p is None or p.patch is None:
            require(np.abs(want(max(mx, X0 + 4), max(my, Y0 + 4), max(0, min(mx + mw, X0 + 4 + w) - max(mx, X0 + 4)), max(0, min(my + mh, Y0 + 4 + h) - max(my, Y0 + 4)))).sum() == 0,
                    'no patch although the stamp overlaps the window')
        else:
            require(p.patch.shape == (mh, mw) and (p.x0, p.y0) == (mx, my), 'patch does not fill the mask window')
            close(p.patch, E, tol, 0., 'stamp at (%s, %s) in window %s' % (px, py, (mx, my, mw, mh)))
        ctx.nt(px != ix and np.abs(E).max() > 1e-3 * np.abs(eff).max())
    ctx.tag(c['cls'])
    close(psf.img, img, 0., 0., 'the stamp itself afterwards')


def lanczos_at(img, X, Y):
    """normalised Lanczos-3 interpolation at the grid X x Y"""
    H, W = img.shape
    A = ref.lanczos3(np.asarray(X)[:, np.newaxis] - np.arange(W)[np.newaxis, :])
    B = ref.lanczos3(np.asarray(Y)[:, np.newaxis] - np.arange(H)[np.newaxis, :])
    # (weights of pixels off the stamp count in the normalisation; there the stamp is zero)
    An = ref.lanczos3(np.asarray(X)[:, np.newaxis] - np.arange(-8 - int(abs(min(X))) , W + 8 + int(max(X)))[np.newaxis, :]).sum(axis=1)
    Bn = ref.lanczos3(np.asarray(Y)[:, np.newaxis] - np.arange(-8 - int(abs(min(Y))), H + 8 + int(max(Y)))[np.newaxis, :]).sum(axis=1)
    return np.dot(B / Bn[:, np.newaxis], np.dot(img, (A / An[:, np.newaxis]).T))


def check_over(c, ctx):
    from tractor.psf import PixelizedPSF, NormalizedPixelizedPsf
    from tractor.patch import ModelMask
    inner = stamp_of(c)
    img = np.zeros((inner.shape[0] + 14, inner.shape[1] + 14), np.float32)
    img[7:-7, 7:-7] = inner
    H, W = img.shape
    s = c['samp']
    psf = (NormalizedPixelizedPsf if c['cls'] == 'norm' else PixelizedPSF)(img.copy(), sampling=s)
    px, py = c['px'], c['py']
    # the window of everything the stamp covers
    x0, x1 = int(np.floor(px - (W // 2) * s)), int(np.ceil(px + (W // 2) * s)) + 1
    y0, y1 = int(np.floor(py - (H // 2) * s)), int(np.ceil(py + (H // 2) * s)) + 1
    full = lanczos_at(img.astype(float), W // 2 + (np.arange(x0, x1) - px) / s, H // 2 + (np.arange(y0, y1) - py) / s)
    k = 1.
    if c['cls'] == 'norm':
        n = full.sum()
        if n < 0.1 * np.abs(full).sum():
            raise Skip()
        full = full / n
        k = 1. / abs(n)
    tol = 2e-4 * np.abs(img).max() * k

    def want(a, b, w, h):
        out = np.zeros((h, w))
        xa, xb, ya, yb = max(a, x0), min(a + w, x1), max(b, y0), min(b + h, y1)
        if xa < xb and ya < yb:
            out[ya - b:yb - b, xa - a:xb - a] = full[ya - y0:yb - y0, xa - x0:xb - x0]
        return out
    R = c['radius']
    p = psf.getPointSourcePatch(px, py)
    E = want(p.x0, p.y0, p.patch.shape[1], p.patch.shape[0])
    close(p.patch, E, tol, 0., 'stamp of sampling %s at (%s, %s)' % (s, px, py))
    require(abs(np.abs(E).sum() - np.abs(full).sum()) <= 10 * tol * E.size, lambda: 'the patch [%i,%i] of %s does not cover the PSF' % (p.x0, p.y0, p.patch.shape))
    if R is not None:
        q = psf.getPointSourcePatch(px, py, radius=R)
        h, w = q.patch.shape
        close(q.patch, want(q.x0, q.y0, w, h), tol, 0., 'oversampled stamp cut at radius %s' % R)
        require(w <= 2 * np.ceil(R) + 1 and h <= 2 * np.ceil(R) + 1, lambda: 'radius %s gave a patch of %s' % (R, q.patch.shape))
        require(q.x0 <= px + 0.5 and q.x0 + w >= px + 0.5 and q.y0 <= py + 0.5 and q.y0 + h >= py + 0.5, 'the cut patch does not contain the centre')
    if c['mask'] is not None:
        mx, my, mw, mh = c['mask']
        mx, my = int(np.rint(px)) + mx, int(np.rint(py)) + my
        q = psf.getPointSourcePatch(px, py, modelMask=ModelMask(mx, my, mw, mh))
        W_ = want(mx, my, mw, mh)
        if q is None or q.patch is None:
            require(np.abs(W_).max() <= tol, 'no patch although the stamp overlaps the window')
        else:
            require(q.patch.shape == (mh, mw) and (q.x0, q.y0) == (mx, my), 'patch does not fill the mask window')
            close(q.patch, W_, tol, 0., 'oversampled stamp in a window')
    ctx.nt(np.abs(E).max() > 10 * tol)


def check_fourier(c, ctx):
    from tractor.psf import PixelizedPSF, NormalizedPixelizedPsf
    img = stamp_of(c)
    if c['samp'] != 1.:
        p = np.zeros((img.shape[0] + 14, img.shape[1] + 14), np.float32)
        p[7:-7, 7:-7] = img
        img = p
    H, W = img.shape
    psf = (NormalizedPixelizedPsf if c['cls'] == 'norm' else PixelizedPSF)(img.copy(), sampling=c['samp'])
    px, py = c['px'], c['py']
    # what was asked before, nearby or at another size, does not matter
    for dx, dy, f in c['before']:
        psf.getFourierTransform(px + dx, py + dy, c['rad'] * f)
    first = None
    for k in range(2):
        # twice: the second comes from the cache
        P, (cx, cy), (pH, pW), (v, w) = psf.getFourierTransform(px, py, c['rad'])
        require(pH == pW and pH >= 2. * c['rad'] and (pH & (pH - 1)) == 0, lambda: 'box of %s x %s for radius %s' % (pH, pW, c['rad']))
        close(v, np.fft.rfftfreq(pW), 0., 0., 'x frequencies')
        close(w, np.fft.fftfreq(pH), 0., 0., 'y frequencies')
        require(P.shape == (pH, pW // 2 + 1), 'shape of the transform')
        back = np.fft.irfft2(np.asarray(P, complex), s=(pH, pW))
        if first is None:
            first = back
        require(np.array_equal(first, back), 'the second transform differs from the first')
    # stamp around its centre
    s = c['samp']
    X, Y = np.arange(pW), np.arange(pH)
    if s == 1.:
        E = np.zeros((pH, pW))
        for j in range(pH):
            for i in range(pW):
                x, y = i - cx + W // 2, j - cy + H // 2
                if 0 <= x < W and 0 <= y < H:
                    E[j, i] = img[y, x]
    else:
        E = lanczos_at(img.astype(float), W // 2 + (X - cx) / s, H // 2 + (Y - cy) / s)
        nw, nh = int(np.ceil(W * s)), int(np.ceil(H * s))
        E[(np.abs(Y - cy) > nh / 2. + 1)] = 0.
        E[:, (np.abs(X - cx) > nw / 2. + 1)] = 0.
        fx, fy = (px - cx) % 1., (py - cy) % 1.
        require(min(fx, 1 - fx) < 1e-6 and min(fy, 1 - fy) < 1e-6, lambda: 'sub-pixel phase (%s, %s) of the centre for a source at (%s, %s)' % (cx, cy, px, py))
    k = 1.
    if c['cls'] == 'norm':
        # (a resampled stamp is normalised as a whole, then cut: judge stamps whose total is well defined)
        ext = np.arange(-2 * (H + W), 2 * (H + W))
        F = E if s == 1. else lanczos_at(img.astype(float), W // 2 + (ext - cx % 1.) / s, H // 2 + (ext - cy % 1.) / s)
        if E.sum() < 0.1 * np.abs(E).sum() or F.sum() < 0.2 * np.abs(F).sum():
            raise Skip()
        n = back.sum()
        close(n, 1., 1e-4, 0., 'total of a normalized PSF')
        k = 1. / E.sum()
        E = E / E.sum()
    tol = (1e-5 if s == 1. else 3e-4) * (np.abs(img).max() * k) + 2e-7 * np.abs(E).sum()
    close(back, E, tol, 0., 'PSF of sampling %s in a Fourier box of %i' % (s, pH))
    ctx.tag('cut' if pH < max(H * s, W * s) else 'whole')
    ctx.nt(np.abs(E).max() > 10 * tol)


def check_smooth(c, ctx):
    """The stamp samples a Gaussian: so does the patch, and a galaxy seen through it."""
    from tractor.psf import PixelizedPSF
    from tractor import Image, PointSource, Flux, PixPos
    from tractor.basics import NullPhotoCal
    from tractor.wcs import NullWCS
    from tractor.galaxy import GaussianGalaxy
    from tractor.ellipses import EllipseE
    s, sig = c['samp'], c['sig']
    hs = int(np.ceil(5.5 * sig / s)) + 2
    yy, xx = np.mgrid[-hs:hs + 1, -hs:hs + 1] * s
    C = np.array([[sig**2, 0.2 * sig**2], [0.2 * sig**2, (0.8 * sig)**2]])
    g = gen.ref_mog([1.], [(0., 0.)], [C], xx, yy)
    psf = PixelizedPSF(g, sampling=s)
    px, py = c['px'], c['py']
    N = 48
    im = Image(data=np.zeros((N, N), np.float32), inverr=np.ones((N, N), np.float32), psf=psf, wcs=NullWCS(), photocal=NullPhotoCal())
    Y, X = np.mgrid[0:N, 0:N]
    e = c['e']
    for what in ('star', 'galaxy'):
        if what == 'star':
            src = PointSource(PixPos(px, py), Flux(100.))
            cov = C
        else:
            # half-light radius in pixels
            sh = EllipseE(c['re'], e[0], e[1])
            src = GaussianGalaxy(PixPos(px, py), Flux(100.), sh)
            G = sh.getRaDecBasis() * 3600.
            from .ref import profile
            amp, var = profile('gauss')
            cov = C + np.dot(G, G.T) * var[0]
            if np.sqrt(np.linalg.eigvalsh(cov)[-1]) > 5.:
                continue
        p = src.getModelPatch(im)
        got = np.zeros((N, N), np.float32)
        if p is not None:
            p.addTo(got)
        want = 100. * gen.ref_mog([1.], [(px, py)], [cov], X, Y)
        close(got, want, 0.012 * 100. / (2. * np.pi * np.sqrt(np.linalg.det(cov))), 0., '%s through a PSF of sampling %s' % (what, s))
        if 16 < px < 32 and 16 < py < 32:
            m = got.sum()
            close([(got * X).sum() / m, (got * Y).sum() / m], [px, py], 0.03, 0., 'centroid of the %s' % what)
            close(m, 100., 1., 0., 'flux of the %s' % what)
    ctx.nt(0 < px < N and 0 < py < N)


SH = st.one_of(fl(-0.5, 0.5, 3), pick(0., 0.5, -0.5, 1e-9, -1e-9, 1e-17, -1e-170, 1e-300))
HALF = st.one_of(st.integers(0, 8), st.integers(0, 8), st.integers(9, 26))
FAR = fl(-3000, 30000, 2)
stamp = dict(seed=gen.seeds, hh=HALF, hw=HALF, kind=pick('noise', 'pos', 'delta', 'smooth', 'smooth'), sig=fl(0.8, 2., 2), cls=pick('pix', 'pix', 'norm', 'hybrid'),
             px=st.one_of(fl(-20, 60, 2), st.integers(-40, 80).map(lambda i: i * 0.25), fl(2, 9, 5), FAR), py=st.one_of(fl(-20, 60, 2), st.integers(-40, 80).map(lambda i: i * 0.25), fl(-20, 60, 2), FAR),
             radius=st.one_of(st.none(), st.none(), fl(0., 9., 1), fl(0., 30., 1)),
             mask=st.one_of(st.none(), st.tuples(st.integers(-14, 6), st.integers(-14, 6), st.integers(1, 24), st.integers(1, 24)).map(list)))
over = dict(stamp, hh=st.integers(0, 5), hw=st.integers(0, 5), samp=pick(0.25, 0.4, 0.5, 0.7, 1.5, 2.))

SUBS = [
    Sub('shift', st.fixed_dictionaries(dict(seed=gen.seeds, H=st.one_of(st.integers(1, 12), st.integers(1, 60)), W=st.one_of(st.integers(1, 12), st.integers(1, 60)), amp=pick(1., 1e-3, 1e4),
                                            sparse=st.booleans(), f4=st.booleans(), lay=pick('C', 'F', 'strided', 'rev'), d=st.tuples(SH, SH).map(list))), check_shift, quick=600, thorough=15000, shards=2),
    Sub('stamp', st.fixed_dictionaries(stamp), check_stamp, quick=1000, thorough=25000, shards=2),
    Sub('oversampled', st.fixed_dictionaries(dict(over, mask=st.one_of(st.none(), st.tuples(st.integers(-20, 6), st.integers(-20, 6), st.integers(1, 40), st.integers(1, 40)).map(list)))),
        check_over, quick=600, thorough=15000, shards=2),
    Sub('fourier', st.fixed_dictionaries(dict(over, samp=pick(1., 1., 1., 0.4, 0.5, 2.), rad=pick(1., 2., 3.5, 4., 4.1, 7., 9., 16., 20., 33., 40.),
                                              before=lst(st.tuples(pick(0., 0., 0.3, -0.45, 1., 7.), pick(0., 0., 0.3, -0.45, 1., 7.), pick(1., 1., 2., 0.5)).map(list), 0, 2))), check_fourier, quick=600, thorough=12000, shards=2),
    Sub('smooth', st.fixed_dictionaries(dict(samp=pick(0.25, 0.4, 0.5, 0.7, 1., 1., 1.2), sig=fl(1.6, 2.5, 2), px=fl(-4, 52, 2), py=fl(-4, 52, 2), re=fl(0.5, 2.5, 2),
                                             e=st.tuples(fl(-0.4, 0.4, 2), fl(-0.4, 0.4, 2)).map(list))), check_smooth, quick=200, thorough=5000, shards=2),
]
