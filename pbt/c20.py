"""C20: a spatially varying PSF is, everywhere and in every frame, its model evaluated at that place."""
import os
import pickle
import tempfile
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .core import Sub, require, close, Skip
from .gen import fl, pick, lst

PROP = 'C20'
RULE = ('A case is a PsfEx model (polynomial degree 0 to 5, any origin and scale, odd stamps of 7 to 21 pixels, sampled at the image pixels, finer or coarser, normalized or not) or a '
        'mixture-of-Gaussians PSF varying as a spline over the image, a history of copies, pickles, files, in-place shifts and cut-outs, and positions; every object made along the way is compared with the polynomial '
        '(or spline) evaluated independently at the corresponding place of the original frame. Non-trivial: degree at least one, some shift in the history and a PSF that differs from the one at the origin.')
ASSUMPTIONS = ['PSF values at a place are interpolated to sub-pixel positions as C07 says: there a constant PixelizedPSF with the expected stamp is the reference']


def bases_of(c):
    r = gen.rng(c['seed'])
    d = c['deg']
    nb = (d + 1) * (d + 2) // 2
    H, W = 2 * c['hh'] + 1, 2 * c['hw'] + 1
    yy, xx = np.mgrid[-c['hh']:c['hh'] + 1, -c['hw']:c['hw'] + 1]
    g = np.exp(-0.5 * (xx**2 + yy**2) / c['sig']**2)
    b = [g / g.sum()]
    for i in range(nb - 1):
        b.append(0.15 * r.normal() * g / g.sum() * (1. + xx * r.normal() / c['sig'] + yy * r.normal() / c['sig'] + 0.3 * xx * yy * r.normal()))
    return np.array(b).astype(np.float32)


def stamp_at(c, B, x, y):
    """PsfEx: terms are x^j y^k, ordered by k, then j, with j + k <= degree"""
    X, Y = (x - c['x0']) / c['xs'], (y - c['y0']) / c['ys']
    out, i = np.zeros(B[0].shape), 0
    for k in range(c['deg'] + 1):
        for j in range(c['deg'] + 1 - k):
            out += X**j * Y**k * B[i].astype(float)
            i += 1
    assert i == len(B)
    return out


def model(c, B):
    from tractor.psfex import PsfExModel
    m = PsfExModel()
    m.sampling, m.degree, m.fwhm = c['samp'], c['deg'], 3.3
    m.xscale, m.yscale, m.x0, m.y0 = c['xs'], c['ys'], c['x0'], c['y0']
    m.psfbases = B.copy()
    m.radius = (B.shape[1] + 1) / 2.
    return m


class Table(object):
    pass


def check_psfex(c, ctx):
    from tractor.psfex import PsfExModel, PixelizedPsfEx, NormalizedPixelizedPsfEx
    from tractor.psf import PixelizedPSF, NormalizedPixelizedPsf, HybridPixelizedPSF, GaussianMixturePSF
    from tractor.patch import ModelMask
    from tractor import Image, ConstantSky
    B = bases_of(c)
    cls, flat = {'norm': (NormalizedPixelizedPsfEx, NormalizedPixelizedPsf)}.get(c['cls'], (PixelizedPsfEx, PixelizedPSF))
    tmp = None
    try:
        if c['made'] == 'table':
            t = Table()
            t.psf_samp, t.poldeg1, t.polname1, t.polname2, t.polgrp1, t.polgrp2, t.polngrp = c['samp'], c['deg'], 'X_IMAGE', 'Y_IMAGE ', 1, 1, 1
            t.polzero1, t.polzero2, t.polscal1, t.polscal2, t.psfaxis3, t.psf_mask, t.psf_fwhm = c['x0'], c['y0'], c['xs'], c['ys'], len(B), B.astype(float), 3.3
            m = PsfExModel(Ti=t)
        else:
            m = model(c, B)
        if c['made'] == 'file':
            tmp = tempfile.mkdtemp(prefix='c20-')
            fn = os.path.join(tmp, 'p.fits')
            m.writeto(fn)
            psf = cls(fn)
            require(psf.fwhm == 3.3, 'FWHM after reading a file')
        else:
            psf = cls(None, psfex=m)
        if c['cls'] == 'hybrid':
            psf = HybridPixelizedPSF(psf, gauss=GaussianMixturePSF(np.array([1.]), np.zeros((1, 2)), np.eye(2)[np.newaxis] * c['sig']**2))
        # (object, where its pixel 0,0 lies in the original frame)
        objs = [[psf, 0., 0.]]
        moved = False

        def verify(o, ox, oy, px, py, why):
            S = stamp_at(c, B, px + ox, py + oy)
            if c['cls'] == 'norm':
                n = S.sum()
                if n < 0.2 * np.abs(S).sum():
                    return
                I = S / n
            else:
                I = S
            tol = 3e-6 * max(np.abs(I).max(), np.abs(B).max() * max(1., np.abs(I).max() / max(np.abs(S).max(), 1e-30)))
            tol += 1e-5 * np.abs(I).max()
            close(o.getImage(px, py), I, tol, 0., 'PSF image at (%s, %s) of %s' % (px, py, why))
            want = flat(S.astype(np.float32), sampling=c['samp'])
            k = o.constantPsfAt(px, py)
            close(k.getImage(px + 777., py - 55.), I, tol, 0., 'constant PSF at (%s, %s) of %s, used elsewhere' % (px, py, why))
            for kw in (dict(), dict(radius=3.), dict(modelMask=ModelMask(int(px) - 3, int(py) - 5, 9, 8))):
                p = o.getPointSourcePatch(px, py, **kw)
                q = want.getPointSourcePatch(px, py, **kw)
                require((p.x0, p.y0) == (q.x0, q.y0), 'place of the point source, %s' % why)
                close(p.patch, q.patch, 20 * tol, 0., 'point source at (%s, %s) of %s, %s' % (px, py, why, sorted(kw)))
            for rad in c['rads']:
                F, cen, shp, vw = o.getFourierTransform(px, py, rad)
                G, cen2, shp2, vw2 = want.getFourierTransform(px, py, rad)
                require(tuple(cen) == tuple(cen2) and tuple(shp) == tuple(shp2), 'centre or size of the transform, %s' % why)
                close(F, G, tol * B[0].size, 0., 'Fourier transform at (%s, %s) of %s' % (px, py, why))
        for op in c['ops']:
            i = op['i'] % len(objs)
            o, ox, oy = objs[i]
            dx, dy = op['d']
            k = op['op']
            if k == 'copy':
                objs.append([o.copy(), ox, oy])
            elif k == 'pickle':
                objs.append([pickle.loads(pickle.dumps(o)), ox, oy])
            elif k == 'cut':
                objs.append([o.getShifted(dx, dy), ox + dx, oy + dy])
                moved = moved or dx != 0
            elif k == 'shift':
                o.shift(dx, dy)
                objs[i] = [o, ox + dx, oy + dy]
                moved = moved or dx != 0
            elif k == 'sub':
                im = Image(data=np.zeros((40, 50), np.float32), inverr=np.ones((40, 50), np.float32), psf=o, sky=ConstantSky(0.))
                dx, dy = abs(dx) % 30, abs(dy) % 30
                objs.append([im.subimage(dx, dx + 9, dy, dy + 7).getPsf(), ox + dx, oy + dy])
                moved = moved or dx != 0
            elif k == 'file':
                if tmp is None:
                    tmp = tempfile.mkdtemp(prefix='c20-')
                fn = os.path.join(tmp, 'q%i.fits' % len(objs))
                o.psfex.writeto(fn)
                n = cls(fn)
                if c['cls'] != 'hybrid':
                    objs.append([n, ox, oy])
            elif k == 'look':
                verify(o, ox, oy, op['p'][0] - ox, op['p'][1] - oy, 'object %i after %s' % (i, k))
        for i, (o, ox, oy) in enumerate(objs):
            for px, py in c['pos']:
                verify(o, ox, oy, px - ox, py - oy, 'object %i (%s)' % (i, ','.join(p['op'] for p in c['ops'])))
                m = o.psfex
                close(m.at(px - ox, py - oy), stamp_at(c, B, px, py), 1e-5 * np.abs(B).max() * max(1., abs(px / c['xs']), abs(py / c['ys']))**c['deg'] * 10, 0., 'PSF model')
                require(m.nbases == len(B) and tuple(m.shape) == B[0].shape, 'size of the model')
    finally:
        if tmp is not None:
            import shutil
            shutil.rmtree(tmp)
    ctx.tag(c['cls'])
    ctx.tag(c['made'])
    ctx.nt(c['deg'] > 0 and moved)


# ---- Gaussian mixtures varying over the image

def grid_of(c):
    """smooth parameters (amp, mean, var) of K components on the grid"""
    r = gen.rng(c['seed'])
    K = c['K']
    XX, YY = np.linspace(0, c['W'], c['nx']), np.linspace(0, c['H'], c['ny'])
    pp = np.zeros((c['ny'], c['nx'], 6 * K))
    gx, gy = np.meshgrid(XX / c['W'], YY / c['H'])
    cols = []
    amp = r.uniform(0.3, 1., K)
    for k in range(K):
        cols.append(amp[k] / amp.sum() * (1. + 0.2 * r.normal() * gx + 0.2 * r.normal() * gy * gx))
    for k in range(K):
        for d in range(2):
            cols.append(0.3 * r.normal() + 0.3 * r.normal() * gx * gy + 0.2 * r.normal() * gy)
    for k in range(K):
        s = r.uniform(1., 2.5, 2)**2
        if c['cls'] == 'ellipse':
            # log-radius, soft ellipticities
            cols.append(np.log(np.sqrt(s[0])) + 0.1 * r.uniform() * gx)
            cols.append(r.uniform(-0.3, 0.3) + 0.1 * gy**2)
            cols.append(r.uniform(-0.3, 0.3) + 0.1 * gx * gy)
            continue
        cols.append(s[0] * (1. + 0.2 * r.uniform() * gx))
        cols.append(s[1] * (1. + 0.2 * r.uniform() * gy**2))
        cols.append(np.sqrt(s[0] * s[1]) * r.uniform(-0.5, 0.5) * (1. + 0.1 * gx * gy))
    for i, p in enumerate(cols):
        pp[:, :, i] = p
    return pp, XX, YY


def check_varying(c, ctx):
    from tractor.psfex import PsfEx, CachingPsfEx
    from tractor.psf import GaussianMixturePSF, GaussianMixtureEllipsePSF
    from tractor.patch import ModelMask
    from tractor import Image, ConstantSky, NullWCS, LinearPhotoCal, PointSource, PixPos, Flux, Tractor, ExpGalaxy, EllipseE
    from scipy.interpolate import RectBivariateSpline
    from .c18 import cov_ref
    pp, XX, YY = grid_of(c)
    K = c['K']
    psf = PsfEx(None, c['W'], c['H'], nx=c['nx'], ny=c['ny'], K=K, psfClass=GaussianMixtureEllipsePSF if c['cls'] == 'ellipse' else GaussianMixturePSF)
    psf.splinedata = (pp.copy(), XX, YY)
    psf.ensureSplines()
    spl = [RectBivariateSpline(XX, YY, pp[:, :, i].T) for i in range(pp.shape[2])]
    rnd = None
    if c['store'] in ('file', 'merged'):
        tmp = tempfile.mkdtemp(prefix='c20-')
        try:
            fn = os.path.join(tmp, 'v.fits')
            psf.toFits(fn, merge=(c['store'] == 'merged'))
            psf = PsfEx.fromFits(fn)
        finally:
            import shutil
            shutil.rmtree(tmp)
    elif c['store'] == 'pickle':
        psf = pickle.loads(pickle.dumps(psf))
    elif c['store'] == 'caching':
        rnd = c['rnd']
        psf = CachingPsfEx.fromPsfEx(psf, rounding=rnd)

    def mog(x, y):
        if rnd is not None:
            # every place uses the PSF in the middle of its cell
            x, y = np.floor(x / rnd) * rnd + rnd // 2, np.floor(y / rnd) * rnd + rnd // 2
        v = np.array([s(x, y, grid=False) for s in spl])
        amp, mean, q = v[:K], v[K:3 * K].reshape((K, 2)), v[3 * K:].reshape((K, 3))
        var = np.zeros((K, 2, 2))
        if c['cls'] == 'ellipse':
            for k in range(K):
                lr, e1, e2 = q[k]
                # ee -> e = 1 - exp(-|ee|); covariance as in C18
                e = 1. - np.exp(-np.hypot(e1, e2))
                ab = (1. - e) / (1. + e)
                var[k] = cov_ref(np.exp(lr), ab, -0.5 * np.rad2deg(np.arctan2(e2, e1)))
            return GaussianMixturePSF(amp, mean, var)
        var[:, 0, 0], var[:, 1, 1], var[:, 0, 1], var[:, 1, 0] = q[:, 0], q[:, 1], q[:, 2], q[:, 2]
        return GaussianMixturePSF(amp, mean, var)
    ox = oy = 0
    o = psf
    moved = False
    for dx, dy in c['cuts']:
        o = o.getShifted(dx, dy)
        ox, oy = ox + dx, oy + dy
        moved = moved or dx != 0
    for px, py in c['pos']:
        # inside the original image
        X, Y = np.floor(px * c['W'] * 8) / 8., np.floor(py * c['H'] * 8) / 8.
        want = mog(X, Y)
        x, y = X - ox, Y - oy
        g = o.getMixtureOfGaussians(px=x, py=y)
        close(g.amp, want.mog.amp, 1e-9, 0., 'weights at (%s, %s)' % (X, Y))
        close(g.mean, want.mog.mean, 1e-9, 0., 'means at (%s, %s)' % (X, Y))
        close(g.var, want.mog.var, 1e-9, 0., 'covariances at (%s, %s)' % (X, Y))
        for kw in (dict(radius=6.), dict(modelMask=ModelMask(int(x) - 4, int(y) - 3, 11, 9)), dict(radius=9., clipExtent=[int(x) - 3, int(x) + 6, int(y) - 2, int(y) + 20]),
                   dict(modelMask=ModelMask(int(x) - 4, int(y) - 3, (gen.rng(c["seed"]).uniform(size=(8, 7)) > 0.4)))):
            p = o.getPointSourcePatch(x, y, **kw)
            q = want.getPointSourcePatch(x, y, **kw)
            require(p is not None and (p.x0, p.y0) == (q.x0, q.y0) and p.patch.shape == q.patch.shape, lambda: 'point source patch of a shifted PSF is elsewhere: %s' % sorted(kw))
            close(p.patch, q.patch, 1e-6, 1e-6, 'point source at (%s, %s), %s' % (X, Y, sorted(kw)))
        # with a threshold, what is cut away may depend on rounding
        can = np.zeros((2, 30, 30))
        for k, f in enumerate((o, want)):
            p = f.getPointSourcePatch(x, y, minval=1e-3, radius=8.)
            if p is not None:
                p.x0, p.y0 = p.x0 - int(np.floor(x)) + 15, p.y0 - int(np.floor(y)) + 15
                p.addTo(can[k])
        close(can[0], can[1], 1.1e-3 * K, 0., 'point source with a threshold')
        # in a cut-out of an image
        x0, y0 = int(np.floor(x)), int(np.floor(y))
        big = Image(data=np.zeros((12, 14), np.float32), inverr=np.ones((12, 14), np.float32), psf=o.getShifted(x0 - 5, y0 - 6), wcs=NullWCS(),
                    sky=ConstantSky(0.), photocal=LinearPhotoCal(1.))
        fx, fy = x - x0 + 5, y - y0 + 6
        for src in (PointSource(PixPos(fx, fy), Flux(100.)), ExpGalaxy(PixPos(fx, fy), Flux(100.), EllipseE(1.5, 0.1, 0.2))):
            ref_im = Image(data=np.zeros((12, 14), np.float32), inverr=np.ones((12, 14), np.float32), psf=want, wcs=NullWCS(), sky=ConstantSky(0.), photocal=LinearPhotoCal(1.))
            a = Tractor([big], [src]).getModelImage(0)
            b = Tractor([ref_im], [src]).getModelImage(0)
            close(a, b, 100 * 1e-5, 0., '%s in a cut-out' % src.getSourceType())
    ctx.tag(c['store'])
    ctx.nt(moved)


pos = st.tuples(fl(-30, 130, 1), fl(-30, 130, 1)).map(list)
off = st.tuples(st.integers(-20, 40), st.integers(-20, 40)).map(list)
op = st.fixed_dictionaries(dict(op=pick('copy', 'pickle', 'cut', 'cut', 'shift', 'shift', 'sub', 'file', 'look', 'look'), i=st.integers(0, 5), d=off, p=pos))
SUBS = [
    Sub('psfex', st.fixed_dictionaries(dict(seed=gen.seeds, deg=st.integers(0, 5), hh=st.integers(3, 10), hw=st.integers(3, 10), sig=fl(1.2, 2., 2), samp=pick(1., 1., 1., 0.5, 0.7, 1.3),
                                            xs=pick(100., 57.5, 1000.), ys=pick(100., 33., 1000.), x0=pick(0., 50., -7.5, 100.), y0=pick(0., 50., 12.25, 100.), cls=pick('pix', 'norm', 'hybrid'),
                                            made=pick('model', 'model', 'file', 'table'), rads=lst(pick(3., 8., 16., 20.), 1, 2), ops=lst(op, 0, 6), pos=lst(pos, 1, 2))),
        check_psfex, quick=400, thorough=10000, shards=4),
    Sub('varying', st.fixed_dictionaries(dict(seed=gen.seeds, cls=pick('mog', 'mog', 'ellipse'), K=st.integers(1, 3), W=pick(100, 64, 301), H=pick(100, 80, 250), nx=st.integers(4, 8), ny=st.integers(4, 8),
                                              store=pick('plain', 'file', 'merged', 'pickle', 'caching'), rnd=pick(10, 25, 7), cuts=lst(off, 0, 2),
                                              pos=lst(st.tuples(fl(0., 1., 2), fl(0., 1., 2)).map(list), 1, 2))), check_varying, quick=200, thorough=4000, shards=2),
]
