"""C11: the derivatives handed to the optimizers are the derivatives of the model."""
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close, Skip
from .gen import fl, pick, lst

PROP = 'C11'
RULE = ('A case is 1-2 images and 1-3 sources of any type (some off the image), a set of frozen parameters chosen at '
        'random in the tree, optional model masks, and optional thawed image parameters (PSF, sky, calibration). Every '
        'published derivative is compared, pixel by pixel, with finite differences of the rendered model at the '
        "parameter's own step size. Non-trivial: at least 3 derivatives with significant signal were compared.")
ASSUMPTIONS = ['A derivative is accepted if it lies between the forward, backward and central differences of the model '
               '(and, for positions, the one-pixel central difference), within 2 percent of its peak (6 percent when an FFT box of another size was used)',
               'position derivatives are not judged in the outermost ring of a model window, where they are defined as zero']


def leaves(node, path=()):
    """Every (container, index) that can be frozen below node."""
    from tractor.utils import NamedParams, MultiParams
    out = []
    if isinstance(node, MultiParams):
        for i, s in enumerate(node.subs):
            if s is None:
                continue
            out.append((node, i))
            out.extend(leaves(s))
    elif isinstance(node, NamedParams) and hasattr(node, 'liquid'):
        n = len(node.getAllParams()) if hasattr(node, 'getAllParams') else node.numberOfParams()
        out.extend((node, i) for i in range(n))
    return out


def soften(src):
    """Small step sizes for the shape class whose default step is one unit."""
    from tractor.galaxy import GalaxyShape
    for k in ('shape', 'shapeExp', 'shapeDev'):
        s = getattr(src, k, None)
        if isinstance(s, GalaxyShape):
            s.setStepSizes([0.01 * s.re, -0.01, 1.])


def model(tr, img):
    """Model of one image in float64, sky included, as the sum of its parts."""
    H, W = img.shape
    m = np.zeros((H, W))
    for src in tr.catalog:
        p = tr.getModelPatch(img, src)
        if p is not None and p.patch is not None:
            p.addTo(m)
    img.getSky().addTo(m)
    return m


def canvas(patch, H, W):
    m = np.zeros((H, W))
    if patch is not None and patch.patch is not None:
        patch.addTo(m)
    return m


def erode(b, n):
    b = b.copy()
    for _ in range(n):
        c = b.copy()
        c[1:] &= b[:-1]
        c[:-1] &= b[1:]
        c[:, 1:] &= b[:, :-1]
        c[:, :-1] &= b[:, 1:]
        c[0] = c[-1] = False
        c[:, 0] = c[:, -1] = False
        b = c
    return b


def dilate(b, n):
    b = b.copy()
    for _ in range(n):
        c = b.copy()
        c[1:] |= b[:-1]
        c[:-1] |= b[1:]
        c[:, 1:] |= b[:, :-1]
        c[:, :-1] |= b[:, 1:]
        b = c
    return b


def tr_simple(src):
    return not hasattr(src, 'brightnessPsf')


def judge(tr, derivs, i, name, isposn, masked, fft, ctx, owner=None):
    """derivs: entry i of getDerivs()."""
    p0 = tr.getParams()[i]
    h = tr.getStepSizes()[i]
    seen = {}
    for d, img in derivs:
        k = [j for j, im in enumerate(tr.images) if im is img]
        require(len(k) == 1, 'derivative %s refers to an image that is not in the problem' % name)
        require(k[0] not in seen, 'derivative %s lists image %i twice' % (name, k[0]))
        seen[k[0]] = d
    nsig = 0
    M0 = [model(tr, im) for im in tr.images]
    lo, up = tr.getLowerBounds()[i], tr.getUpperBounds()[i]
    Ms = []
    for v in (p0 + h, p0 - h):
        if (lo is not None and v < lo) or (up is not None and v > up):
            # no model beyond the limit
            Ms.append(None)
            ctx.tag('at-limit')
        else:
            tr.setParam(i, v)
            Ms.append([model(tr, im) for im in tr.images])
    tr.setParam(i, p0)
    Mp, Mm = Ms
    if Mp is None:
        Mp = [2. * a - b for a, b in zip(M0, Mm)]
    if Mm is None:
        Mm = [2. * a - b for a, b in zip(M0, Mp)]
    # position derivatives: mapping from one-pixel differences
    for k, img in enumerate(tr.images):
        H, W = img.shape
        g = canvas(seen.get(k), H, W)
        F = (Mp[k] - M0[k]) / h
        B = (M0[k] - Mm[k]) / h
        C = 0.5 * (F + B)
        stack = [F, B, C]
        pk = max(np.abs(M0[k]).max(), np.abs(Mp[k]).max(), np.abs(Mm[k]).max())
        noise = 4e-7 * pk / abs(h)
        if masked is not None and fft[k]:
            # FFT rendering in two different boxes
            noise = 1e-5 * pk / abs(h)
            if owner is not None:
                noise += 1e-6 / abs(h) * sum(abs(img.getPhotoCal().brightnessToCounts(b)) for b in owner.getBrightnesses())
        use = np.ones((H, W), bool)
        if isposn:
            src, wcs = owner, img.getWcs()
            pos = src.getPosition()
            j = isposn - 1
            S = np.zeros((H, W))
            p = tr.getModelPatch(img, src)
            if p is not None and p.patch is not None:
                p.addTo(S)
            D = np.zeros((H, W))
            v = pos.getParams()[j]
            pos.setParam(j, v + h)
            xp = np.array(wcs.positionToPixel(pos, src))
            pos.setParam(j, v - h)
            xm = np.array(wcs.positionToPixel(pos, src))
            pos.setParam(j, v)
            jx, jy = (xp - xm) / (2. * h)
            D[1:-1, 1:-1] = (jx * (S[1:-1, :-2] - S[1:-1, 2:]) + jy * (S[:-2, 1:-1] - S[2:, 1:-1])) / 2.
            stack.append(D)
            use[0] = use[-1] = False
            use[:, 0] = use[:, -1] = False
        lo = np.min(stack, axis=0)
        hi = np.max(stack, axis=0)
        sig = np.abs(C).max()
        tol = (0.06 if (masked is not None and fft[k]) else 0.02) * max(sig, np.abs(g).max() * 0.05) + noise
        if isposn and not tr_simple(owner):
            # components may use different differencing schemes
            tol = tol + 0.5 * (hi - lo).max()
        if masked is not None:
            use &= masked[k]
        bad = use & ~((g >= lo - tol) & (g <= hi + tol))
        if bad.any():
            y, x = np.argwhere(bad)[0]
            require(False, 'derivative of image %i with respect to %s: pixel (%i,%i) got %.6g, finite differences give %.6g to '
                    '%.6g (tolerance %.3g; %i of %i pixels)' % (k, name, x, y, g[y, x], lo[y, x], hi[y, x], tol, bad.sum(), bad.size))
        if sig > 50. * noise and use.any() and np.abs(C[use]).max() > 0.2 * sig:
            nsig += 1
    return nsig


def windows(tr, img, src):
    from tractor.galaxy import ExpGalaxy, DevGalaxy
    out = [tr.getModelPatch(img, src)]
    # composite sources: each component has its own window
    if hasattr(src, 'shapeExp'):
        out.append(ExpGalaxy(src.pos, src.getBrightnesses()[0], src.shapeExp).getModelPatch(img))
    if hasattr(src, 'shapeDev'):
        out.append(DevGalaxy(src.pos, src.getBrightnesses()[-1], src.shapeDev).getModelPatch(img))
    return out


def support(tr):
    """Per image, the pixels well inside, or well outside, all the windows of each source: elsewhere the cut-off of the
    rendered box is in the way."""
    out = []
    for img in tr.images:
        H, W = img.shape
        ok = np.ones((H, W), bool)
        for src in tr.catalog:
            inside = np.ones((H, W), bool)
            outside = np.ones((H, W), bool)
            for p in windows(tr, img, src):
                b = np.zeros((H, W), bool)
                if p is not None and p.patch is not None:
                    q = p.copy()
                    q.clipTo(W, H)
                    if q.patch is not None and q.patch.size:
                        x0, x1, y0, y1 = q.getExtent()
                        b[y0:y1, x0:x1] = True
                inside &= erode(np.pad(b, 3, mode='edge'), 3)[3:-3, 3:-3]
                outside &= ~dilate(b, 3)
            ok &= inside | outside
        out.append(ok)
    return out


def check(c, ctx):
    from tractor.patch import ModelMask
    w = c['w']
    tr = gen.build_world(w)
    for i, s in enumerate(tr.catalog):
        soften(s)
        if (c['seed'] >> 3) % 3 == 0 and c['mask'] == 'full':
            # a position may ask for two-sided differences
            s.pos.symmetric_derivs = True
            ctx.tag('symmetric')
    if c['mask'] == 'full' and any(i['psf']['t'] in ('pix', 'norm') for i in w['ims']) and len(w['srcs']) > 1:
        # (a window that excludes the centre of a galaxy is documented as impossible with these)
        raise Skip()
    r = gen.rng(c['seed'])
    # freezing
    what = c['images']
    for im in tr.images:
        im.freezeAllParams()
        for nm in what:
            im.thawParam(nm)
    if not what:
        tr.freezeParam('images')
    L = leaves(tr.catalog)
    for node, i in L:
        if r.uniform() < c['freeze']:
            if node is tr.catalog and r.uniform() < 0.5:
                continue
            node.liquid[i] = False
    n = tr.numberOfParams()
    if n == 0:
        raise Skip()
    masked = None
    if c['mask'] == 'full':
        tr.setModelMasks([dict((s, ModelMask(0, 0, im.shape[1], im.shape[0])) for s in tr.catalog) for im in tr.images])
    else:
        masked = support(tr)
    names = tr.getParamNames()
    before = list(tr.getParams())
    D = tr.getDerivs()
    require(list(tr.getParams()) == before, 'computing derivatives changed the parameters')
    require(len(D) == n, 'one derivative entry per parameter: %i entries, %i parameters' % (len(D), n))
    nimg = 0 if tr.isParamFrozen('images') else tr.images.numberOfParams()
    # which source, which position parameter
    owner = [None] * nimg
    isposn = [0] * nimg
    if not tr.isParamFrozen('catalog'):
        for s in tr.catalog.getThawedSources():
            k = s.numberOfParams()
            npos = s.pos.numberOfParams() if not s.isParamFrozen('pos') else 0
            owner += [s] * k
            isposn += [j + 1 for j in range(npos)] + [0] * (k - npos)
    require(len(owner) == n, 'parameter count')
    nsig = 0
    fft = [not gen.psf_is_mog(i['psf']) for i in w['ims']]
    for i in range(n):
        nsig += judge(tr, D[i], i, names[i], isposn[i], masked, fft, ctx, owner=owner[i])
    ctx.nt(nsig >= 3)
    ctx.tag('mask:' + c['mask'], *['t:' + s['t'] for s in w['srcs']])
    ctx.tag(*['img:' + x for x in what])
    ctx.tag('wcs:' + w['ims'][0]['wcs']['t'], 'sys:' + w['system'])
    require(list(tr.getParams()) == before, 'parameters not restored')


PSFS = ('ncirc', 'mog', 'mogell', 'pix', 'hybrid')


def base(nim=(1, 1), nsrc=(1, 1), margin=-4., mask='full', psfs=PSFS, images=st.just([]), freeze=pick(0., 0.3, 0.6), **kw):
    def tame(c):
        for k, s in enumerate(c['w']['srcs']):
            # Sersic indices at their limits
            if (c['seed'] + k) % 4 == 0:
                s['n'] = (6.295, 0.295, 6.3, 0.29)[(c['seed'] // 4) % 4]
            # (tolerances are relative to the total light: no cancelling components)
            s['flux2'] = [abs(g) if f >= 0 else -abs(g) for f, g in zip(s['flux'], s['flux2'])]
        for i in c['w']['ims']:
            if i['psf']['t'] == 'hybrid':
                # the Gaussians of the hybrid describe its stamp
                i['psf'].update(e=0., skew=False)
            if i['psf']['t'] == 'mog':
                # a step in a variance keeps it a variance
                for v in i['psf']['mog']['cov']:
                    v[2] *= 0.5
        return c
    return st.fixed_dictionaries(dict(
        w=gen.world_spec(nim=nim, nsrc=nsrc, psfs=psfs, margin=margin, wmin=20, wmax=34, rmax=3.5, **kw),
        images=images, freeze=freeze, seed=gen.seeds, mask=pick(*mask))).map(tame)


SUBS = [
    Sub('source', base(mask=('full',)), check, quick=300, thorough=6000, shards=4, doc='one source, window = whole image'),
    Sub('window', base(mask=('none',)), check, quick=200, thorough=4000, shards=3, doc='one source, default window'),
    Sub('scene', base(nim=(1, 2), nsrc=(2, 3), margin=6., mask=('none', 'none', 'full'), psfs=('ncirc', 'mog', 'hybrid', 'pix')), check,
        quick=120, thorough=3000, shards=3, doc='several images and sources, some off the image'),
    Sub('image', base(nim=(1, 2), nsrc=(1, 2), mask=('full',), psfs=('ncirc', 'mog'), freeze=pick(0.5, 1.),
                      images=lst(pick('psf', 'sky', 'photocal'), 1, 3).map(lambda l: sorted(set(l)))), check,
        quick=120, thorough=3000, shards=3, doc='PSF, sky and calibration parameters of images'),
]
