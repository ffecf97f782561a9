"""C09: what is rendered in a pixel does not depend on the window it is rendered in."""
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .core import Sub, require, close
from .gen import fl, pick, lst
from .c08 import world, full, case, PSFS

PROP = 'C09'
RULE = ('A case is one source and one image as in C08 plus a window: a model-mask box (inside, across the edge of or '
        'around the image, with or without a pixel mask), a sub-image, a fixed patch radius, or a surface-brightness '
        'threshold. Non-trivial: the window cuts off part of the source (or masks some of its pixels) and still holds '
        'at least 1e-3 of its counts.')
ASSUMPTIONS = ['galaxies through a non-hybrid pixelised PSF are only asked for windows that contain their centre (the '
               'code refuses others)']
GALS = ('gauss', 'exp', 'dev', 'sersic', 'comp', 'fcomp', 'devcore', 'sercore')


def box(c):
    """mask box from fractions of the image"""
    W, H = c['im']['W'], c['im']['H']
    b = c['box']
    x0 = int(np.floor(b[0] * W))
    y0 = int(np.floor(b[1] * H))
    w = max(1, int(b[2] * W))
    h = max(1, int(b[3] * H))
    s = c['src']
    if c['im']['psf']['t'] in ('pix', 'norm') and s['t'] != 'ptsrc':
        # must contain the centre
        x0 = min(x0, int(np.floor(s['x'] - 1e-3)))
        y0 = min(y0, int(np.floor(s['y'] - 1e-3)))
        w = max(w, int(np.ceil(s['x'] + 1e-3)) + 1 - x0)
        h = max(h, int(np.ceil(s['y'] + 1e-3)) + 1 - y0)
    return x0, y0, w, h


def reach(s):
    """beyond this distance (pixels) from the window nothing need be rendered"""
    r = 0.
    for counts, kind, shape in ref.parts(s, 'flux', None):
        if kind != 'ptsrc':
            r = max(r, ref.NRE[kind] * shape['re'])
    return r


def check_mask(c, ctx):
    from tractor.patch import ModelMask
    i, s = c['im'], c['src']
    x0, y0, w, h = box(c)
    tim, src = world(c)
    if c['masked']:
        mask = gen.rng(c['seed']).uniform(size=(h, w)) < c['fill']
        mm = ModelMask(x0, y0, mask)
    else:
        mask = None
        mm = ModelMask(x0, y0, w, h)
    px, py = s['x'] - x0, s['y'] - y0
    out = px < 1e-3 or px > w - 1 - 1e-3 or py < 1e-3 or py > h - 1 - 1e-3
    want, tol = ref.render(s, c['system'], i['pc'], i['psf'], i['wcs'], px, py, h, w, gauss_ok=out)
    counts = sum(abs(p[0]) for p in ref.parts(s, c['system'], i['pc']))
    p = src.getModelPatch(tim, modelMask=mm)
    ctx.tag('src:' + s['t'], 'psf:' + i['psf']['t'])
    ctx.nt(1e-3 * counts < np.abs(want).sum() < 0.99 * counts or (mask is not None and np.abs(want).sum() > 1e-3 * counts))
    if out:
        ctx.tag('centre-outside-window')
    if mask is not None:
        ctx.tag('pixel-mask')
    # float32 masked evaluation
    tol = tol + 1e-4 * np.abs(want) + 1e-7 * counts
    if p is None:
        # nothing may be rendered: beyond the reach of every galaxy part, or beyond the reach of the PSF
        ctx.tag('none')
        near = np.hypot(max(0, -px, px - w), max(0, -py, py - h))
        R = max(reach(s), ref.psf_radius(i['psf']))
        far_image = (s['x'] + R < 0 or s['x'] - R > i['W'] or s['y'] + R < 0 or s['y'] - R > i['H'])
        ok = near > R - 0.1 or far_image
        if s['t'] == 'ptsrc':
            ok = np.all(np.abs(want) <= tol) or far_image
        require(ok or np.all(np.abs(want) <= 1e-12 * counts), 'nothing rendered in a window that holds %.3g of %.3g counts' % (np.abs(want).sum(), counts))
        return
    require(p.x0 == x0 and p.y0 == y0 and p.patch.shape == (h, w),
            lambda: 'patch extent %s in window x0=%i y0=%i %ix%i' % (p.getExtent(), x0, y0, w, h))
    got = p.patch.astype(float)
    if mask is None:
        close(got, want, tol, 0., 'model of %s through %s PSF in window' % (s['t'], i['psf']['t']))
    else:
        close(got[mask], want[mask], tol[mask], 0., 'unmasked pixels')
        off = got[~mask]
        # masked pixels are not wanted: zero or right
        ww = np.where(off == 0., 0., want[~mask])
        if len(ref.parts(s, c['system'], i['pc'])) == 1 and i['psf']['t'] != 'hybrid':
            close(off, ww, tol[~mask], 0., 'masked pixels (zero or right)')


def check_sub(c, ctx):
    from tractor.engine import Tractor
    i, s = c['im'], c['src']
    W, H = i['W'], i['H']
    tim, src = world(c)
    b = c['box']
    x0 = int(np.clip(int(b[0] * W), 0, W - 2))
    y0 = int(np.clip(int(b[1] * H), 0, H - 2))
    x1 = int(np.clip(x0 + max(1, int(b[2] * W)), x0 + 1, W))
    y1 = int(np.clip(y0 + max(1, int(b[3] * H)), y0 + 1, H))
    tim.modelMinval = 0.
    data0, ie0 = tim.data.copy(), tim.inverr.copy()
    sub = tim.subimage(x0, x1, y0, y1)
    require(sub.shape == (y1 - y0, x1 - x0), 'sub-image shape')
    require(np.array_equal(sub.data, data0[y0:y1, x0:x1]) and np.array_equal(sub.inverr, ie0[y0:y1, x0:x1]),
            'sub-image pixels')
    sky = i['sky']['val'] if i['sky']['t'] == 'const' else 0.
    tr = Tractor([tim, sub], [src])
    want, tol = ref.render_default(s, c['system'], i['pc'], i['psf'], i['wcs'], s['x'], s['y'], H, W)
    w2, t2 = ref.render_default(s, c['system'], i['pc'], i['psf'], i['wcs'], s['x'] - x0, s['y'] - y0, y1 - y0, x1 - x0)
    counts = sum(abs(p[0]) for p in ref.parts(s, c['system'], i['pc']))
    ctx.nt(np.abs(w2).sum() > 1e-3 * counts and (x0 or y0))
    ctx.tag('psf:' + i['psf']['t'])
    eps = 1e-6 * (abs(sky) + counts)
    close(tr.getModelImage(tim), want + sky, tol + eps, 0., 'model of the full image')
    close(tr.getModelImage(sub), w2 + sky, t2 + eps, 0., 'model of the sub-image')
    close(tr.getModelImage(sub), tr.getModelImage(tim)[y0:y1, x0:x1],
          np.minimum(t2, t2) + tol[y0:y1, x0:x1] + eps, 0., 'sub-image model vs slice of the full model')
    # a sub-image of a sub-image
    if y1 - y0 > 3 and x1 - x0 > 3:
        ss = sub.subimage(1, x1 - x0, 2, y1 - y0)
        w3, t3 = ref.render_default(s, c['system'], i['pc'], i['psf'], i['wcs'], s['x'] - x0 - 1, s['y'] - y0 - 2,
                                    y1 - y0 - 2, x1 - x0 - 1)
        close(Tractor([ss], [src]).getModelImage(0), w3 + sky, t3 + eps, 0., 'sub-image of a sub-image')
    sub.data += 1.
    sub.inverr *= 2.
    require(np.array_equal(tim.data, data0) and np.array_equal(tim.inverr, ie0), 'changing the sub-image changed the image')


def check_radius(c, ctx):
    """An explicit patch radius changes which pixels are rendered, not their values."""
    i, s = c['im'], c['src']
    W, H = i['W'], i['H']
    tim, src = world(c)
    r = c['radius']
    if s['t'] != 'ptsrc' and 'hs' in i['psf']:
        # (a smaller box would have to cut the PSF stamp)
        r = max(r, i['psf']['hs'] + 1)
    if s['t'] == 'ptsrc':
        src.fixedRadius = r
        if c['minradius']:
            src.minRadius = 3
    else:
        src.halfsize = r
    want, tol = ref.render_default(s, c['system'], i['pc'], i['psf'], i['wcs'], s['x'], s['y'], H, W)
    counts = sum(abs(p[0]) for p in ref.parts(s, c['system'], i['pc']))
    p = src.getModelPatch(tim)
    yy, xx = np.mgrid[0:H, 0:W]
    cheb = np.maximum(np.abs(xx - s['x']), np.abs(yy - s['y']))
    if p is None:
        require(counts == 0. or not np.any(cheb < r - 1), 'nothing rendered although the image has pixels within the radius')
        return
    got = full(p, H, W)
    rendered = np.zeros((H, W), bool)
    ex = p.getExtent()
    rendered[max(0, ex[2]):max(0, ex[3]), max(0, ex[0]):max(0, ex[1])] = True
    if i['psf']['t'] in ('pix', 'norm', 'hybrid'):
        if s['t'] != 'ptsrc':
            # FFT in a box of this size: aliasing
            parts = ref.parts(s, c['system'], i['pc'])
            want = np.zeros((H, W))
            tol = np.zeros((H, W))
            for cnt, kind, shape in parts:
                a, t = ref.render_part(kind, shape, s['n'], i['psf'], i['wcs'], s['x'], s['y'], H, W,
                                       R=max(r, 1.) if kind != 'ptsrc' else None)
                want += cnt * a
                tol += abs(cnt) * t
        else:
            # the stamp is cut to the radius before it is shifted
            tol = tol + np.where(cheb > r - 4, np.abs(want).max(), 0.)
    wabs = sum(abs(cnt) * np.abs(ref.render_part(kind, shape, s['n'], i['psf'], i['wcs'], s['x'], s['y'], H, W)[0]) for cnt, kind, shape in ref.parts(s, c['system'], i['pc']))
    tol = tol + np.where(cheb > r - 1, wabs, 0.)
    ctx.nt(np.abs(want[cheb < r]).sum() > 1e-3 * counts)
    ctx.tag('psf:' + i['psf']['t'], 'src:' + s['t'])
    close(got[rendered], want[rendered], tol[rendered] + 1e-6 * counts, 0., 'rendered pixels with radius %g' % r)
    # the same for the unit-flux patches, and for the derivatives with respect to the fluxes
    tot = np.zeros((H, W))
    for u, b in zip(src.getUnitFluxModelPatches(tim), src.getBrightnesses()):
        tot += full(u, H, W) * tim.photocal.brightnessToCounts(b)
    close(tot, got, 1e-5 * np.abs(got).max() + 1e-9 * counts, 1e-5, 'sum of unit-flux patches times counts, with radius %g' % r)
    if c['system'] != 'mags':
        src.freezeAllParams()
        for n in src.getFrozenParams():
            if n.startswith('brightness'):
                src.thawParams(n)
        dd = src.getParamDerivatives(tim)
        require(len(dd) == src.numberOfParams(), 'number of derivatives')
        tot = np.zeros((H, W))
        for d, v in zip(dd, src.getParams()):
            tot += full(d, H, W) * v
        close(tot, got, 1e-3 * np.abs(got).max() + 1e-9 * counts, 1e-3, 'sum of flux derivatives times fluxes, with radius %g' % r)
    need = (cheb < (r - 1e-6 if s['t'] == 'ptsrc' and i['psf']['t'] not in ('pix', 'norm', 'hybrid') else r - 1)) & ~rendered
    if s['t'] == 'ptsrc' and i['psf']['t'] in ('pix', 'norm', 'hybrid'):
        need &= (cheb < i['psf']['hs'])
    require(s['t'] in ('ptsrc',) or i['psf']['t'] not in ('pix', 'norm') or not np.any(rendered & (cheb > r + 2)), lambda: 'pixels rendered beyond radius %g: patch %s, source at (%g,%g)' % (r, ex, s['x'], s['y']))
    # (a component without light is not drawn at all)
    require(not np.any(need) or any(p[0] == 0. for p in ref.parts(s, c['system'], i['pc'])), lambda: 'pixels within radius %g not rendered: patch %s, source at (%g,%g)' %
            (r, ex, s['x'], s['y']))


def check_minsb(c, ctx):
    """A surface-brightness threshold may drop only what is below it."""
    i, s = c['im'], c['src']
    W, H = i['W'], i['H']
    tim, src = world(c)
    want, tol = ref.render_default(s, c['system'], i['pc'], i['psf'], i['wcs'], s['x'], s['y'], H, W)
    counts = sum(abs(p[0]) for p in ref.parts(s, c['system'], i['pc']))
    minsb = c['rel'] * np.abs(want).max()
    if minsb == 0.:
        return
    if c['how'] == 'arg':
        p = src.getModelPatch(tim, minsb=minsb)
    else:
        tim.modelMinval = minsb
        p = src.getModelPatch(tim)
    got = full(p, H, W)
    ctx.nt(np.abs(want).max() > 10 * minsb)
    inside = 0 <= s['x'] < W and 0 <= s['y'] < H
    t0 = (10. if inside else 300.) * minsb
    # brightness below the threshold may be dropped; everything evaluated is right to the threshold
    parts = ref.parts(s, c['system'], i['pc'])
    if len(parts) > 1:
        close(got, want, tol + t0, 0., 'thresholded composite')
    else:
        close(got, want, tol + np.where(got == 0, t0, minsb * 1.01), 0., 'thresholded model')
    ctx.tag('psf:' + i['psf']['t'], 'src:' + s['t'], 'how:' + c['how'])


frac = lst(fl(-0.3, 0.9, 2), 2).flatmap(lambda a: lst(fl(0.1, 1.3, 2), 2).map(lambda b: a + b))
frac2 = lst(fl(0., 0.6, 2), 2).flatmap(lambda a: lst(fl(0.2, 1., 2), 2).map(lambda b: a + b))

def check_big(c, ctx):
    """A galaxy larger than its window, through a hybrid PSF whose Gaussians describe its pixels."""
    from tractor.psf import PixelizedPSF, HybridPixelizedPSF, GaussianMixturePSF
    from tractor import Image, NullWCS, ConstantSky, LinearPhotoCal
    from tractor.patch import ModelMask
    W, H = c['W'], c['H']
    s, e, hs = c['sig'], c['e'], c['hs']
    v0 = np.array([[s * s * (1. + e), 0.3 * e * s * s], [0.3 * e * s * s, s * s * (1. - e)]])
    amp, var = (np.array([1.]), np.array([v0])) if not c['halo'] else (np.array([1. - c['halo'], c['halo']]), np.array([v0, np.eye(2) * (1.6 * s)**2]))
    xx, yy = np.meshgrid(np.arange(-hs, hs + 1), np.arange(-hs, hs + 1))
    mean = np.zeros((len(amp), 2))
    psf = HybridPixelizedPSF(PixelizedPSF(gen.ref_mog(amp, mean, var, xx, yy).astype(np.float32)), GaussianMixturePSF(amp, mean, var))
    tim = Image(data=np.zeros((H, W), np.float32), inverr=np.ones((H, W), np.float32), psf=psf, wcs=NullWCS(pixscale=1.), sky=ConstantSky(0.), photocal=LinearPhotoCal(1.))
    src = gen.build_source(dict(t=c['t'], flux=[1.] * 3, flux2=[1.] * 3, shape=c['shape'], shape2=c['shape'], n=c['n'], x=c['x'] * (W - 1), y=c['y'] * (H - 1)), 'flux', tim.wcs, 1.)
    x, y = c['x'] * (W - 1), c['y'] * (H - 1)
    src.brightness.setParams([1.])
    src.pos.setParams([x, y])
    x0, y0 = int(c['box'][0] * (W - 6)), int(c['box'][1] * (H - 6))
    w, h = 6 + int(c['box'][2] * (W - 6 - x0)), 6 + int(c['box'][3] * (H - 6 - y0))
    p = src.getModelPatch(tim, modelMask=ModelMask(x0, y0, w, h))
    got = full(p, H, W)[y0:y0 + h, x0:x0 + w]
    require(p is None or ((p.x0, p.y0) == (x0, y0) and p.shape == (h, w)), 'the model does not fill its window')
    pro = src._getShearedProfile(tim, x, y)
    A = [a * a2 for a in pro.amp for a2 in amp]
    V = [v + v2 for v in pro.var for v2 in var]
    xx, yy = np.meshgrid(np.arange(x0, x0 + w), np.arange(y0, y0 + h))
    want = gen.ref_mog(A, [(x, y)] * len(A), V, xx, yy)
    peak = gen.ref_mog(A, [(0., 0.)] * len(A), V, np.zeros((1, 1)), np.zeros((1, 1))).max()
    close(got, want, BIG * peak, 0., 'model of a %s of radius %g pixels in a %ix%i window through a hybrid PSF' % (c['t'], c['shape']['re'], w, h))
    ctx.tag(c['t'], 'large' if c['shape']['re'] > 0.3 * min(w, h) else 'small')
    ctx.nt(want.max() > 0.01 * peak)


BIG = 1e-2
big = st.fixed_dictionaries(dict(W=st.integers(16, 60), H=st.integers(16, 60), sig=fl(1.3, 2.2, 2), e=fl(-0.3, 0.3, 2), halo=pick(0., 0.2), hs=st.integers(11, 18), t=pick('gauss', 'exp', 'dev', 'sersic'),
                                 shape=gen.shape_spec(('e', 'soft'), rmin=1., rmax=20.), n=fl(0.4, 5.5, 2), x=fl(-0.1, 1.1, 2), y=fl(-0.1, 1.1, 2), box=lst(fl(0., 1., 2), 4)))

SUBS = [
    Sub('big', big, check_big, quick=300, thorough=8000, shards=2, doc='galaxies larger than their window, hybrid PSF'),
    Sub('mask', case(box=frac, masked=st.booleans(), fill=pick(0.2, 0.7, 1.), seed=gen.seeds), check_mask,
        quick=700, thorough=15000, shards=4, doc='model-mask windows vs the independent rendering of the same pixels'),
    Sub('subimage', case(box=frac2), check_sub, quick=350, thorough=8000, shards=3,
        doc='model of a sub-image = slice of the model of the image; sub-image independent of the image'),
    Sub('radius', case(radius=st.integers(2, 22), minradius=st.booleans()), check_radius, quick=350, thorough=8000, shards=3,
        doc='explicit patch radius'),
    Sub('minsb', case(rel=pick(1e-2, 1e-3, 1e-5), how=pick('arg', 'image'), psfs=PSFS).map(
        lambda c: dict(c, src=dict(c['src'], t=c['src']['t'] if c['src']['t'] in ('ptsrc', 'gauss', 'exp', 'dev', 'sersic', 'comp', 'fcomp') else 'exp'))),
        check_minsb, quick=350, thorough=8000, shards=2, doc='surface-brightness threshold'),
]
