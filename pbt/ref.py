"""Independent rendering of a source spec: float64 numpy, no code shared with
tractor except the published mixture coefficients of the galaxy profiles (which
C06 judges against the Sersic law) and, where asked, the source's own position.

render() returns (expected pixels, tolerance) over a whole image.
"""
import numpy as np
from . import gen

NRE = dict(gauss=6., exp=4., dev=8., sersic=8.)
_profiles = {}


def profile(kind, n=None):
    """amplitudes and (scalar) variances in units of r_e"""
    if kind == 'sersic':
        from tractor.sersic import SersicMixture
        p = SersicMixture.getProfile(n)
        return np.array(p.amp, float), np.array(p.var[:, 0, 0], float)
    if kind not in _profiles:
        from tractor.galaxy import ExpGalaxy, DevGalaxy
        for k, c in (('exp', ExpGalaxy), ('dev', DevGalaxy)):
            _profiles[k] = (np.array(c.profile.amp, float) / np.sum(c.profile.amp),
                            np.array(c.profile.var[:, 0, 0], float))
        _profiles['gauss'] = (np.ones(1), np.ones(1))
    return _profiles[kind]


def cd_of(wcs):
    ps = wcs['pixscale'] / 3600.
    if wcs['t'] == 'null':
        return ps * np.eye(2)
    th = np.deg2rad(wcs['rot'])
    f = -1. if wcs['flip'] else 1.
    return ps * np.dot(np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]), np.diag([f, 1.]))


def pixpos(base, wcs, x, y):
    """pixel position in an image with this WCS of the source placed at x,y of the base WCS (same family)"""
    if wcs['t'] == 'null':
        return x - base['dx'] + wcs['dx'], y - base['dy'] + wcs['dy']
    return x + base['x0'] - wcs['x0'], y + base['y0'] - wcs['y0']


def shape_cov(shape, wcs):
    """pixel-space covariance of the unit-r_e ellipse"""
    ps = wcs['pixscale']
    r = shape['re'] * ps
    p = np.deg2rad(shape['phi'])
    u = np.array([-np.sin(p), np.cos(p)])
    v = np.array([np.cos(p), np.sin(p)])
    sky = r * r * (np.outer(u, u) + shape['ab']**2 * np.outer(v, v)) / 3600.**2
    ci = np.linalg.inv(cd_of(wcs))
    return ci.dot(sky).dot(ci.T)


def fracdev(s):
    return 1. / (1. + np.exp(4. * (0.5 - s['frac']))) if s['soft'] else min(max(s['frac'], 0.), 1.)


def parts(s, system, pc):
    """[(counts, kind, shape-or-None), ...] of a source spec"""
    c1 = gen.ref_counts(system, pc, s['flux'])
    c2 = gen.ref_counts(system, pc, s['flux2'])
    t = s['t']
    if t == 'ptsrc':
        return [(c1, 'ptsrc', None)]
    if t in ('gauss', 'exp', 'dev', 'sersic'):
        return [(c1, t, s['shape'])]
    if t == 'comp':
        return [(c1, 'exp', s['shape']), (c2, 'dev', s['shape2'])]
    if t == 'fcomp':
        f = fracdev(s)
        return [(c1 * (1. - f), 'exp', s['shape']), (c1 * f, 'dev', s['shape2'])]
    if t == 'devcore':
        return [(c1, 'dev', s['shape']), (c2, 'ptsrc', None)]
    if t == 'sercore':
        return [(c1, 'sersic', s['shape']), (c2, 'ptsrc', None)]
    raise ValueError(t)


def psf_mog(spec):
    """amp, mean, var of a Gaussian-mixture PSF spec (or of the Gaussian approximation of a hybrid)"""
    t = spec['t']
    if t == 'ncirc':
        k = spec['k']
        sig = spec['sig'][:k]
        w = [1.] if k == 1 else [spec['w'], 1. - spec['w']]
        return np.array(w), np.zeros((k, 2)), np.array([np.eye(2) * s * s for s in sig])
    if t == 'mog':
        a, m, v = gen.mog_arrays(spec['mog'])
        return a / a.sum(), m, v
    if t == 'mogell':
        a = np.array(spec['amp'])
        k = len(a)
        V = []
        for logr, ee1, ee2 in spec['ell'][:k]:
            ee = np.hypot(ee1, ee2)
            e = 1. - np.exp(-ee)
            ba = (1. - e) / (1. + e)
            th = 0.5 * np.arctan2(ee2, ee1)
            r = np.exp(logr)
            # major axis along (sin th, cos th)
            u = np.array([np.sin(th), np.cos(th)])
            v = np.array([np.cos(th), -np.sin(th)])
            V.append(r * r * (np.outer(u, u) + ba * ba * np.outer(v, v)))
        return a / a.sum(), np.zeros((k, 2)), np.array(V)
    if t == 'hybrid':
        s = spec['sig']
        return (np.array([1. - spec['halo'], spec['halo']]), np.zeros((2, 2)),
                np.array([np.eye(2) * s**2, np.eye(2) * (1.6 * s)**2]))
    raise ValueError(t)


def psf_radius(spec):
    t = spec['t']
    if t == 'ncirc':
        return 5. * max(spec['sig'][:spec['k']])
    if t in ('mog', 'mogell'):
        return 25.
    n = 2 * spec['hs'] + 1
    return np.hypot(n / 2., n / 2.)


def lanczos3(x):
    x = np.asarray(x, float)
    return np.where(np.abs(x) < 3., np.sinc(x) * np.sinc(x / 3.), 0.)


def shift(img, dx, dy):
    """image moved by (dx,dy), |.|<=0.5, by 7-tap Lanczos-3 interpolation (normalised taps, zeros outside)"""
    k = np.arange(-3, 4)
    Lx = lanczos3(k + dx)
    Ly = lanczos3(k + dy)
    Lx /= Lx.sum()
    Ly /= Ly.sum()
    H, W = img.shape
    p = np.zeros((H + 6, W + 6))
    p[3:-3, 3:-3] = img
    t = sum(Lx[i] * p[:, i:i + W] for i in range(7))
    return sum(Ly[i] * t[i:i + H, :] for i in range(7))


N = 256
_v = np.fft.rfftfreq(N)[np.newaxis, :]
_w = np.fft.fftfreq(N)[:, np.newaxis]


def gal_fourier(amps, covs):
    F = np.zeros((N, N // 2 + 1))
    for a, v in zip(amps, covs):
        F += a * np.exp(-2. * np.pi**2 * (v[0, 0] * _v**2 + v[1, 1] * _w**2 + 2 * v[0, 1] * _v * _w))
    return F


def put(big, bx, by, H, W):
    """big[by+y, bx+x] for image pixels; zero where outside"""
    out = np.zeros((H, W))
    ys = np.arange(H) + by
    xs = np.arange(W) + bx
    oy = (ys >= 0) & (ys < big.shape[0])
    ox = (xs >= 0) & (xs < big.shape[1])
    if oy.any() and ox.any():
        out[np.ix_(oy, ox)] = big[np.ix_(ys[oy], xs[ox])]
    return out


def render_part(kind, shape, n, psf, wcs, px, py, H, W, R=None, gauss_ok=False):
    """unit-flux expected image and tolerance, over pixels [0,W)x[0,H).

    R: half the size of the box an FFT may be done in; gauss_ok: a hybrid PSF may use its Gaussian approximation"""
    xx, yy = np.meshgrid(np.arange(W, dtype=float), np.arange(H, dtype=float))
    is_mog = gen.psf_is_mog(psf)
    if kind == 'ptsrc':
        if is_mog:
            a, m, v = psf_mog(psf)
            ref = gen.ref_mog(a, m, v, xx - px, yy - py)
            pk = gen.ref_mog(a, m, v, m[:, 0], m[:, 1]).max()
            # float32 circular mixtures
            return ref, np.full((H, W), pk * 2e-5) + np.abs(ref) * 1e-4
        st = gen.psf_stamp(psf).astype(float)
        hs = psf['hs']
        ix, iy = int(np.round(px)), int(np.round(py))
        pad = np.zeros((2 * hs + 7, 2 * hs + 7))
        pad[3:-3, 3:-3] = st
        sh = shift(pad, px - ix, py - iy)
        ref = put(sh, -(ix - hs - 3), -(iy - hs - 3), H, W)
        tol = np.full((H, W), st.max() * 1e-5)
        # the interpolant reaches up to 3 pixels beyond the stamp: may be cut there
        ring = np.ones_like(pad, bool)
        # (and at exactly half a pixel either neighbouring pixel may be the centre)
        e = 4 if max(abs(px - ix), abs(py - iy)) > 0.5 - 1e-4 else 3
        ring[e:-e, e:-e] = False
        tol += np.abs(put(np.where(ring, sh, 0.), -(ix - hs - 3), -(iy - hs - 3), H, W)) * 1.001
        return ref, tol
    amps, vs = profile(kind, n)
    C = shape_cov(shape, wcs)
    covs = [C * s for s in vs]
    if is_mog:
        a, m, v = psf_mog(psf)
        A = [x * y for x in amps for y in a]
        V = [x + y for x in covs for y in v]
        M = [y for x in covs for y in m]
        ref = gen.ref_mog(A, M, V, xx - px, yy - py)
        pk = gen.ref_mog(A, M, V, np.array([px]) - px, np.array([py]) - py).max()
        return ref, np.full((H, W), pk * 2e-5) + np.abs(ref) * 1e-4
    # pixelised PSF: multiply Fourier transforms, then Lanczos-shift to the sub-pixel position
    st = gen.psf_stamp(psf).astype(float)
    hs = psf['hs']
    pad = np.zeros((N, N))
    c = N // 2
    pad[c - hs:c + hs + 1, c - hs:c + hs + 1] = st
    P = np.fft.rfft2(pad)
    FP = gal_fourier(amps, covs) * P
    G = np.fft.irfft2(FP, s=(N, N))
    # an under-sampled product (narrow PSF) rings at the Nyquist frequency, with an amplitude that depends on the box
    nyq = np.abs(FP[:, -1]).mean() + 0.5 * np.abs(FP[N // 2, :]).mean() + 0.5 * np.abs(FP[N // 2 - 1, :]).mean()
    ix, iy = int(np.round(px)), int(np.round(py))
    dx, dy = px - ix, py - iy
    S = shift(G, dx, dy)
    ref = put(S, c - ix, c - iy, H, W)
    pk = np.abs(G).max()
    tol = np.full((H, W), pk * 3e-5)
    # periodic images: the code's box is at least 2R wide
    if R is None:
        R = render_radius(kind, shape, psf, wcs, px, py, H, W)
    per = int(2 * R)
    tol += nyq / per
    if psf['t'] == 'hybrid' and gauss_ok:
        small = []
    elif psf['t'] == 'hybrid':
        small = [k for k, v in enumerate(covs) if R * R > 16.05 * (v[0, 0] + v[1, 1])]
    else:
        small = list(range(len(covs)))
    Ga = np.abs(G if len(small) == len(covs) or gauss_ok else
                np.fft.irfft2(gal_fourier(amps[small], [covs[k] for k in small]) * P, s=(N, N)))
    al = np.zeros((N, N))
    for kx in (-2, -1, 0, 1, 2):
        for ky in (-2, -1, 0, 1, 2):
            if kx == 0 and ky == 0:
                continue
            oy, ox = ky * per, kx * per
            ys = slice(max(0, oy), min(N, N + oy))
            yd = slice(max(0, -oy), min(N, N - oy))
            xs = slice(max(0, ox), min(N, N + ox))
            xd = slice(max(0, -ox), min(N, N - ox))
            if ys.start >= ys.stop or xs.start >= xs.stop:
                continue
            al[yd, xd] += Ga[ys, xs]
    tol += 2. * put(al, c - ix, c - iy, H, W)
    # interpolation near the edge of the box
    edge = np.maximum(np.abs(xx - px), np.abs(yy - py)) > R - 5
    from scipy.ndimage import maximum_filter
    loc = maximum_filter(np.abs(G) + al, 9)
    tol += np.where(edge, put(loc, c - ix, c - iy, H, W), 0.)
    if psf['t'] == 'hybrid':
        ga, gm, gv = psf_mog(psf)
        for k, v in enumerate(covs):
            if k in small:
                continue
            g = gen.ref_mog(ga, gm, [v + w for w in gv], xx - px, yy - py) * amps[k]
            f = put(shift(np.fft.irfft2(gal_fourier([amps[k]], [v]) * P, s=(N, N)), dx, dy), c - ix, c - iy, H, W)
            tol += np.abs(f - g) * 1.05
    return ref, tol


def render_radius(kind, shape, psf, wcs, px, py, H, W):
    """how far out a model without an explicit window reaches"""
    if kind == 'ptsrc':
        return psf_radius(psf)
    r = max(1., NRE[kind] * shape['re'])
    r = min(r, max(px, W - 1 - px, py, H - 1 - py) + 1)
    return max(r, psf_radius(psf))


def window_radius(psf, px, py, H, W):
    """half-size of the FFT box for a window [0,W)x[0,H)"""
    return max(H / 2., W / 2., 1 + px, 1 + W - px, 1 + py, 1 + H - py, psf['hs'] + 0.5 if 'hs' in psf else 0.)


def render(src, system, pc, psf, wcs, px, py, H, W, gauss_ok=False):
    """expected model image of one source in an explicit window, and its tolerance"""
    ref = np.zeros((H, W))
    tol = np.zeros((H, W))
    for counts, kind, shape in parts(src, system, pc):
        r, t = render_part(kind, shape, src['n'], psf, wcs, px, py, H, W,
                           R=window_radius(psf, px, py, H, W), gauss_ok=gauss_ok)
        if gauss_ok and kind != 'ptsrc' and not gen.psf_is_mog(psf):
            # centre outside the window: a part may be left out when the window is beyond its reach
            near = np.hypot(max(0, -px, px - W), max(0, -py, py - H))
            if near > max(NRE[kind] * shape['re'], psf_radius(psf)) - 0.1:
                t = t + np.abs(r)
        ref += counts * r
        tol += abs(counts) * t
    return ref, tol


def render_default(src, system, pc, psf, wcs, px, py, H, W):
    """Like render(), for models without an explicit window: beyond its rendering radius a part may be cut."""
    xx, yy = np.meshgrid(np.arange(W, dtype=float), np.arange(H, dtype=float))
    ref = np.zeros((H, W))
    tol = np.zeros((H, W))
    for counts, kind, shape in parts(src, system, pc):
        r, t = render_part(kind, shape, src['n'], psf, wcs, px, py, H, W)
        R = render_radius(kind, shape, psf, wcs, px, py, H, W)
        out = np.maximum(np.abs(xx - px), np.abs(yy - py)) > R - 1.
        t = t + np.where(out, np.abs(r), 0.)
        ref += counts * r
        tol += abs(counts) * t
    return ref, tol
