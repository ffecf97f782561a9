"""C08: a rendered source is its profile, convolved with the PSF, at its position, scaled to its counts."""
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .core import Sub, require, close
from .gen import fl, pick, lst

PROP = 'C08'
RULE = ('A case is one source (point, Gaussian, exponential, de Vaucouleurs, Sersic, or a composite) of any ellipse and '
        'brightness system, one image of 12-40 pixels a side with a Gaussian-mixture, pixelised, normalised or hybrid '
        'PSF and a pixel or rotated/flipped TAN world coordinate system; the source may lie off the image. Non-trivial: '
        'the expected image holds at least 1e-3 of the source counts.')
ASSUMPTIONS = ['the mixture coefficients of the galaxy profiles are taken from the code (C06 judges them)',
               'FFT rendering may wrap around at the edge of its box and drops interpolation taps there: the tolerance '
               'includes one periodic image and the box edge']


def world(c):
    i = c['im']
    tim = gen.build_image(i, c['system'])
    s = c['src']
    if s['t'] == 'csb':
        src = gen.build_source(s, c['system'], tim.wcs)
    else:
        src = gen.build_source(s, c['system'], tim.wcs, i['wcs']['pixscale'])
    return tim, src


def full(patch, H, W):
    out = np.zeros((H, W))
    if patch is not None and patch.patch is not None:
        patch.addTo(out)
    return out


def check_render(c, ctx):
    i, s = c['im'], c['src']
    H, W = i['H'], i['W']
    tim, src = world(c)
    counts = sum(abs(p[0]) for p in ref.parts(s, c['system'], i['pc']))
    want, tol = ref.render_default(s, c['system'], i['pc'], i['psf'], i['wcs'], s['x'], s['y'], H, W)
    p = src.getModelPatch(tim)
    got = full(p, H, W)
    ctx.nt(np.abs(want).sum() > 1e-3 * counts)
    ctx.tag('src:' + s['t'], 'psf:' + i['psf']['t'], 'sys:' + c['system'], 'wcs:' + i['wcs']['t'])
    if not (0 <= s['x'] < W and 0 <= s['y'] < H):
        ctx.tag('centre-off-image')
    if np.median(tol) > 1e-2 * max(np.abs(want).max(), 1e-9 * counts):
        ctx.tag('loose')
    close(got, want, tol + 1e-9 * counts, 0., 'model of %s through %s PSF' % (s['t'], i['psf']['t']))
    # rendering again gives the same
    q = src.getModelPatch(tim)
    close(full(q, H, W), got, 0., 0., 'second rendering')
    # unit-flux patches times counts
    ups = src.getUnitFluxModelPatches(tim)
    brs = src.getBrightnesses()
    require(len(ups) == len(brs), 'one unit-flux patch per brightness')
    tot = np.zeros((H, W))
    for u, b in zip(ups, brs):
        if u is not None:
            tot += full(u, H, W) * tim.photocal.brightnessToCounts(b)
    close(tot, got, 1e-5 * np.abs(got).max() + 1e-9 * counts, 1e-5, 'sum of unit-flux patches times counts')


def check_scale(c, ctx):
    """Brightness only scales the model; zero counts give nothing; integer moves only move it."""
    i, s = c['im'], c['src']
    H, W = i['H'], i['W']
    tim, src = world(c)
    base = full(src.getModelPatch(tim), H, W)
    k = c['k']
    s2 = dict(s, flux=[f * k for f in s['flux']], flux2=[f * k for f in s['flux2']])
    tim2, src2 = world(dict(c, src=s2))
    got = full(src2.getModelPatch(tim2), H, W)
    ctx.nt(np.abs(base).max() > 0 and k != 1.)
    sc = np.abs(base).max() * abs(k)
    if c['system'] != 'mags' or min(s['flux'] + s['flux2']) * min(k, 1.) >= 1e-3:
        close(got, base * k, 1e-5 * sc, 1e-5, 'model with all fluxes times %g' % k)
    if k == 0.:
        require(not got.any(), 'zero flux renders something')
    # integer translation
    dx, dy = c['dx'], c['dy']
    s3 = dict(s, x=s['x'] + dx, y=s['y'] + dy)
    tim3, src3 = world(dict(c, src=s3))
    mov = full(src3.getModelPatch(tim3), H, W)
    want, tol = ref.render_default(s3, c['system'], i['pc'], i['psf'], i['wcs'], s3['x'], s3['y'], H, W)
    exp = np.zeros((H, W))
    etol = np.full((H, W), np.inf)
    w0, t0 = ref.render_default(s, c['system'], i['pc'], i['psf'], i['wcs'], s['x'], s['y'], H, W)
    for y in range(H):
        for x in range(W):
            if 0 <= y - dy < H and 0 <= x - dx < W:
                exp[y, x] = base[y - dy, x - dx]
                etol[y, x] = t0[y - dy, x - dx] + tol[y, x]
    close(mov, exp, etol + 1e-6 * np.abs(want).max(), 0., 'model moved by whole pixels')


def check_flux(c, ctx):
    """In a large image all the counts are there (up to each profile's stated cut)."""
    i, s = dict(c['im']), c['src']
    tim, src = world(c)
    H, W = i['H'], i['W']
    got = full(src.getModelPatch(tim), H, W)
    lost = dict(ptsrc=0.003, gauss=0.003, exp=0.03, dev=0.12, sersic=0.16)
    want = 0.
    tot = 0.
    for counts, kind, shape in ref.parts(s, c['system'], i['pc']):
        want += counts
        tot += abs(counts)
    eps = 3e-3
    if gen.psf_is_mog(i['psf']):
        # a Gaussian narrower than a pixel, sampled at pixel centres, does not sum to one
        smin = min(np.linalg.eigvalsh(v).min() for v in ref.psf_mog(i['psf'])[2])
        eps += 4. * np.exp(-2. * np.pi**2 * smin)
    # (each component may lose light, never gain)
    lo = sum(cnt - (lost[kind] * cnt if cnt > 0 else 0.) for cnt, kind, shape in ref.parts(s, c['system'], i['pc']))
    hi = sum(cnt - (lost[kind] * cnt if cnt < 0 else 0.) for cnt, kind, shape in ref.parts(s, c['system'], i['pc']))
    require(lo - eps * tot <= got.sum() <= hi + eps * tot,
            '%s of %g counts renders %g counts' % (s['t'], want, got.sum()))
    ctx.nt(s['t'] != 'ptsrc')
    ctx.tag('src:' + s['t'], 'psf:' + i['psf']['t'])
    # the light is where the source is
    if s['t'] in ('ptsrc', 'gauss', 'exp') and abs(got.sum()) > 1e-3 and eps < 4e-3 and not (i['psf'].get('skew') or i['psf']['t'] == 'mog'):
        yy, xx = np.mgrid[0:H, 0:W]
        cx = (got * xx).sum() / got.sum()
        cy = (got * yy).sum() / got.sum()
        require(np.hypot(cx - s['x'], cy - s['y']) < 0.1,
                'centroid of rendered %s at (%.3f,%.3f), source at (%.3f,%.3f)' % (s['t'], cx, cy, s['x'], s['y']))


def check_csb(c, ctx):
    i, s = c['im'], c['src']
    tim, src = world(c)
    p = src.getModelPatch(tim)
    counts = gen.ref_counts(c['system'], i['pc'], s['flux'])
    close(full(p, i['H'], i['W']), np.full((i['H'], i['W']), counts * i['wcs']['pixscale']**2), 0., 2e-4,
          'constant surface brightness')
    ctx.nt()


PSFS = ('ncirc', 'mog', 'mogell', 'pix', 'hybrid', 'norm')


def case(types=gen.SRCTYPES, W=None, H=None, psfs=PSFS, **kw):
    @st.composite
    def f(draw):
        im = draw(gen.image_spec(W=W, H=H, psfs=psfs, skies=('null',)))
        im['mask'] = 'none'
        src = draw(gen.source_spec(types, im["W"], im["H"], draw(pick(-1., -1., 8.))))
        d = dict(system=draw(pick(*gen.SYSTEMS)), im=im, src=src)
        for k, v in kw.items():
            d[k] = draw(v)
        return d
    return f()


def central(c):
    c['src']['x'] = 55. + c['src']['x'] % 10
    c['src']['y'] = 55. + c['src']['y'] % 10
    return c


@st.composite
def reach_case(draw):
    """Two components of very different sizes (or with no light in one), somewhere in a large image."""
    c = draw(case(types=('comp', 'fcomp', 'fcomp', 'sersic', 'exp', 'dev', 'devcore', 'sercore'), W=80, H=76))
    s = c['src']
    s['shape'] = dict(s['shape'], re=draw(pick(0.3, 1., 3., 6., 10.)))
    s['shape2'] = dict(s['shape2'], re=draw(pick(0.3, 1., 3., 6.)))
    s['frac'] = draw(pick(0., 0.1, 0.5, 0.9, 1.))
    if s['frac'] in (0., 1.):
        s['soft'] = False
    return c


SUBS = [
    Sub('reach', reach_case(), check_render, quick=200, thorough=4000, shards=2,
        doc='the extent of large, small and unequal components in a large image'),
    Sub('render', case(), check_render, quick=900, thorough=20000, shards=4,
        doc='pixels of the model vs an independent float64 rendering'),
    Sub('scale', case(k=pick(0., 0.5, 2., 100., -1.), dx=st.integers(-4, 4), dy=st.integers(-4, 4)).filter(lambda c: c['system'] != 'mags' or c['k'] > 0.),
        check_scale, quick=250, thorough=5000, shards=2, doc='linearity in brightness, whole-pixel moves'),
    Sub('flux', case(W=120, H=118, kw=st.just(0)).map(central), check_flux, quick=200, thorough=4000, shards=2,
        doc='total counts and centroid in a large image'),
    Sub('csb', case(types=('csb',)), check_csb, quick=60, thorough=1000, doc='constant-surface-brightness source'),
]
