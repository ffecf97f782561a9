"""C10: model image, residual, likelihood and posterior are what they are defined to be."""
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .core import Sub, require, close
from .gen import fl, pick, lst

PROP = 'C10'
RULE = ('A case is 1-2 images (any PSF, world coordinate system, photometric calibration, sky level, per-pixel error map '
        'with masked pixels) and 1-4 sources of any type, some off an image. Non-trivial: at least two sources land at '
        'least 1e-3 of their counts on an image, or an image has both masked and unmasked pixels.')
ASSUMPTIONS = ['pixel values are finite']


def expected(w, srcs=None, sky=True):
    """[(expected model, tolerance)] per image"""
    out = []
    base = w['ims'][0]['wcs']
    for i in w['ims']:
        H, W = i['H'], i['W']
        m = np.zeros((H, W))
        t = np.zeros((H, W))
        n = 0
        for k, s in enumerate(w['srcs']):
            if srcs is not None and k not in srcs:
                continue
            px, py = ref.pixpos(base, i['wcs'], s['x'], s['y'])
            a, b = ref.render_default(s, w['system'], i['pc'], i['psf'], i['wcs'], px, py, H, W)
            m += a
            t += b
            if np.abs(a).sum() > 1e-3 * sum(abs(p[0]) for p in ref.parts(s, w['system'], i['pc'])):
                n += 1
        lev = i['sky']['val'] if i['sky']['t'] == 'const' else 0.
        if sky:
            m += lev
        t += 1e-6 * (np.abs(m).max() + abs(lev))
        out.append((m, t, n))
    return out


def check_model(c, ctx):
    w = c['w']
    tr = gen.build_world(w)
    p0 = list(tr.getParams())
    E = expected(w)
    ctx.nt(any(e[2] >= 2 for e in E))
    ctx.tag('nim%i' % len(w['ims']), 'nsrc%i' % len(w['srcs']), 'sys:' + w['system'])
    for k, (m, t, n) in enumerate(E):
        got = tr.getModelImage(k)
        close(got, m, t, 0., 'model image %i' % k)
        close(tr.getModelImage(tr.getImage(k)), got, 0., 0., 'model image by index and by object')
    for k, mod in enumerate(tr.getModelImages()):
        close(mod, E[k][0], E[k][1], 0., 'getModelImages()[%i]' % k)
    # without sky, subsets
    sub = [j for j in range(len(w['srcs'])) if (c['subset'] >> j) & 1]
    E2 = expected(w, srcs=sub, sky=False)
    for k, (m, t, n) in enumerate(E2):
        srcs = [tr.catalog[j] for j in sub] + [None]
        close(tr.getModelImage(k, srcs=srcs, sky=False), m, t, 0., 'model image of a subset of sources, no sky')
        close(tr.getModelImage(k, srcs=[]), np.full(m.shape, E[k][0][0, 0] * 0. + (w['ims'][k]['sky']['val'] if w['ims'][k]['sky']['t'] == 'const' else 0.)), 1e-5, 0.,
              'model image without sources is the sky')
    # order of sources
    from tractor.engine import Tractor
    perm = list(np.argsort(gen.rng(c['subset']).uniform(size=len(w['srcs']))))
    tr2 = Tractor(tr.images, [tr.catalog[int(j)] for j in perm])
    for k, (m, t, n) in enumerate(E):
        a, b = tr.getModelImage(k), tr2.getModelImage(k)
        close(b, a, 3e-6 * np.abs(a).max(), 0., 'sources listed in another order')
    require(list(tr.getParams()) == p0, 'rendering changed the parameters')


def check_prob(c, ctx):
    from tractor.engine import Tractor
    from tractor.image import Image
    w = c['w']
    tr = gen.build_world(w)
    lnl = 0.
    scale = 0.
    for k, i in enumerate(w['ims']):
        mod = tr.getModelImage(k).astype(float)
        data, ie = gen.image_arrays(i)
        tim = tr.getImage(k)
        require(np.array_equal(tim.data, data) and np.array_equal(tim.inverr, ie), 'rendering changed the image')
        chi = (data - mod) * ie
        tol = 1e-5 * (1. + np.abs(data) + np.abs(mod)) * ie
        close(tr.getChiImage(k), chi, tol, 0., 'chi image')
        close(tr.getChiImage(img=tim), chi, tol, 0., 'chi image by object')
        require(not np.any(np.asarray(tr.getChiImage(k))[ie == 0]), 'masked pixels have residuals')
        lnl += -0.5 * (chi**2).sum()
        scale += (chi**2).sum() + (np.abs(chi) * tol).sum()
        if 0 < (ie == 0).sum() < ie.size:
            ctx.nt()
            ctx.tag('masked')
    close(tr.getLogLikelihood(), lnl, 1e-4 * (1. + scale), 0., 'log-likelihood')
    for k, ch in enumerate(tr.getChiImages()):
        close(ch, tr.getChiImage(k), 0., 0., 'getChiImages()[%i]' % k)
    # additive over images
    parts = [Tractor([im], tr.catalog).getLogLikelihood() for im in tr.images]
    close(sum(parts), tr.getLogLikelihood(), 1e-9 * (1. + abs(lnl)), 0., 'log-likelihood is the sum over images')
    # prior
    mu, sig, j = c['prior']
    pos = tr.catalog[0].getPosition()
    name = pos.getParamNames()[0]
    val = pos.getParams()[0]
    lp0 = tr.getLogPrior()
    pos.addGaussianPrior(name, val + mu * sig, sig)
    want = lp0 - 0.5 * mu**2
    close(tr.getLogPrior(), want, 1e-5 * (1. + abs(want)), 0., 'log-prior')
    close(tr.getLogProb(), tr.getLogLikelihood() + tr.getLogPrior(), 1e-9 * (1. + abs(lnl)), 0., 'log-probability')
    p = list(tr.getParams())
    close(tr(p), tr.getLogProb(), 1e-9 * (1. + abs(lnl)), 0., 'calling the problem with its own parameters')
    # masked pixels do not matter
    before = tr.getLogProb()
    for k, im in enumerate(tr.images):
        im.data[im.inverr == 0] += 1e4
    close(tr.getLogProb(), before, 0., 0., 'log-probability after changing masked pixels')
    # invvar or inverr
    im0 = tr.images[0]
    im1 = Image(data=im0.data, invvar=im0.inverr**2, psf=im0.psf, wcs=im0.wcs, photocal=im0.photocal, sky=im0.sky)
    close(Tractor([im1], tr.catalog).getLogLikelihood(), Tractor([im0], tr.catalog).getLogLikelihood(),
          1e-9 * (1. + abs(lnl)), 0., 'image given by inverse variance')
    close(im1.getInvvar(), im0.getInvvar(), 0., 1e-12, 'inverse variance')
    # an impossible prior makes the probability -inf, whatever the data
    for s in tr.catalog:
        if hasattr(s, 'sersicindex'):
            ctx.tag('illegal')
            s.sersicindex.setParams([7.])
            require(tr.getLogProb() == -np.inf, 'illegal Sersic index has log-probability %g' % tr.getLogProb())
            break


def check_masks(c, ctx):
    """Model masks restrict each source to its window; sources without one are absent."""
    from tractor.patch import ModelMask
    w = c['w']
    tr = gen.build_world(w)
    base = w['ims'][0]['wcs']
    masks = []
    want = []
    for k, i in enumerate(w['ims']):
        H, W = i['H'], i['W']
        m = np.zeros((H, W))
        t = np.zeros((H, W))
        D = {}
        for j, s in enumerate(w['srcs']):
            src = tr.catalog[j]
            px, py = ref.pixpos(base, i['wcs'], s['x'], s['y'])
            bx = c['boxes'][j % len(c['boxes'])]
            if (c['have'] >> j) & 1 == 0:
                if not c['assume']:
                    a, b = ref.render_default(s, w['system'], i['pc'], i['psf'], i['wcs'], px, py, H, W)
                    m += a
                    t += b
                continue
            # a window around the centre, cut to the image
            x0 = int(np.clip(np.floor(px - bx[0]), 0, W - 2))
            x1 = int(np.clip(np.ceil(px + bx[1]) + 1, x0 + 2, W))
            y0 = int(np.clip(np.floor(py - bx[2]), 0, H - 2))
            y1 = int(np.clip(np.ceil(py + bx[3]) + 1, y0 + 2, H))
            out = not (x0 + 1e-3 < px < x1 - 1 - 1e-3 and y0 + 1e-3 < py < y1 - 1 - 1e-3)
            if out and i['psf']['t'] in ('pix', 'norm') and s['t'] != 'ptsrc':
                # refused by the code; leave it out
                if not c['assume']:
                    a, b = ref.render_default(s, w['system'], i['pc'], i['psf'], i['wcs'], px, py, H, W)
                    m += a
                    t += b
                continue
            D[src] = ModelMask(x0, y0, x1 - x0, y1 - y0)
            a, b = ref.render(s, w['system'], i['pc'], i['psf'], i['wcs'], px - x0, py - y0, y1 - y0, x1 - x0, gauss_ok=out)
            m[y0:y1, x0:x1] += a
            t[y0:y1, x0:x1] += b
        lev = i['sky']['val'] if i['sky']['t'] == 'const' else 0.
        want.append((m + lev, t + 1e-6 * (np.abs(m).max() + abs(lev))))
        masks.append(D)
    if c['assume']:
        # (the default: sources without a mask do not touch the image)
        tr.setModelMasks(masks)
    else:
        tr.setModelMasks(masks, assumeMasks=False)
    ctx.nt(any(len(d) for d in masks))
    ctx.tag('assume%s' % c['assume'], 'nmasks%i' % max(len(d) for d in masks))
    for k in range(len(w['ims'])):
        close(tr.getModelImage(k), want[k][0], want[k][1], 0., 'model image with model masks')
    tr.setModelMasks(None)
    E = expected(w)
    for k in range(len(w['ims'])):
        close(tr.getModelImage(k), E[k][0], E[k][1], 0., 'model image after removing the masks')


def check_edit(c, ctx):
    """Adding and removing sources and images is reflected in the model."""
    w = c['w']
    tr = gen.build_world(w)
    E = expected(w)
    n = len(w['srcs'])
    srcs = list(tr.catalog)
    j = c['j'] % n
    tr.removeSource(srcs[j])
    keep = [k for k in range(n) if k != j]
    for k, (m, t, _) in enumerate(expected(w, srcs=keep)):
        close(tr.getModelImage(k), m, t, 0., 'after removing a source')
    tr.addSource(srcs[j])
    for k, (m, t, _) in enumerate(E):
        close(tr.getModelImage(k), m, t, 0., 'after adding it back')
    tr.addSources([srcs[j].copy()])
    for k, (m, t, _) in enumerate(E):
        one = expected(w, srcs=[j], sky=False)[k]
        close(tr.getModelImage(k), m + one[0], t + 2 * one[1], 0., 'after adding a copy of a source')
    from tractor.engine import Tractor, Catalog
    tr.setCatalog(Catalog(*[srcs[k] for k in keep]))
    require(tr.numberOfParams() == tr.images.numberOfParams() + sum(srcs[k].numberOfParams() for k in keep), 'parameter count')
    tr2 = Tractor([], srcs)
    for im in tr.images:
        tr2.addImage(im)
    require(tr2.getNImages() == len(w['ims']), 'number of images')
    for k, (m, t, _) in enumerate(E):
        close(tr2.getModelImage(k), m, t, 0., 'images added later')
    ctx.nt(n > 1)


def one_source(s, nsrc=(1, 4), nim=(1, 2), wmin=12, wmax=36, **kw):
    return st.fixed_dictionaries(dict(w=gen.world_spec(nsrc=nsrc, nim=nim, wmin=wmin, wmax=wmax, psfs=('ncirc', 'mog', 'mogell', 'pix', 'hybrid', 'norm'), margin=2.), **kw))


SUBS = [
    Sub('model', one_source(0, subset=st.integers(0, 15)), check_model, quick=260, thorough=6000, shards=4,
        doc='model image = sky + sum of independently rendered sources; subsets, order'),
    Sub('prob', one_source(0, prior=st.tuples(fl(-3, 3, 2), fl(0.01, 2., 2), st.integers(0, 1)).map(list)), check_prob,
        quick=300, thorough=6000, shards=3, doc='chi, log-likelihood, log-probability; masked pixels'),
    Sub('many', one_source(0, nsrc=(4, 10), nim=(2, 5), wmin=20, wmax=90, subset=st.integers(0, 1023), prior=st.tuples(fl(-3, 3, 2), fl(0.01, 2., 2), st.integers(0, 1)).map(list)),
        lambda c, ctx: (check_model(c, ctx), check_prob(c, ctx)), quick=40, thorough=1000, shards=2, doc='more and larger images, more sources'),
    Sub('masks', one_source(0, boxes=lst(lst(fl(0., 9., 1), 4), 1, 3), have=st.integers(0, 15), assume=st.booleans()),
        check_masks, quick=260, thorough=6000, shards=3, doc='per-source model masks'),
    Sub('edit', one_source(0, j=st.integers(0, 3)), check_edit, quick=120, thorough=3000, shards=2,
        doc='adding and removing sources and images'),
]
