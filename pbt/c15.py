"""C15: forced photometry measures the exact least-squares fluxes, errors and fit statistics."""
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close, Skip
from .gen import fl, pick, lst
from .c11 import model
from .c12 import frozen
from .c13 import full_masks

PROP = 'C15'
RULE = ('A case is 1-3 images (masked pixels, different noise, calibration and PSF), 1-5 sources of any type with everything but one flux each '
        'frozen (and some sources frozen altogether), and one set of options (solver, sky, regions of interest, minimum flux, '
        'non-negative fluxes, variances, fit statistics). The expected answers come from the rendered models and float64 linear '
        'algebra. Non-trivial: at least two measured fluxes with signal-to-noise above 1, not degenerate.')
ASSUMPTIONS = ['fluxes start positive (a source that starts at or below zero is rendered with a surface-brightness cut)',
               'with clipped fluxes (minFlux) only the bound, the improvement, and the exact answer when it is feasible are required']


def scene(c):
    w = c['w']
    for i in w['ims']:
        i['pc']['band'] = 'r'
    tr = gen.build_world(w)
    for im in tr.images:
        im.data = (im.data + c['amp'] * tr.getModelImage(im, sky=False) + c['dsky']).astype(im.data.dtype)
    for i, src in enumerate(tr.catalog):
        names = [n for n in ('brightness', 'brightnessExp', 'brightnessDev', 'brightnessPsf') if n in src.getNamedParams()]
        src.freezeAllBut(*names)
        for b in src.getBrightnesses():
            if w['system'] == 'nmgy':
                b.freezeAllBut('r')
            for k in range(b.numberOfParams()):
                b.setParam(k, c['start'] * (1. + k))
    for i, f in enumerate(c['frz']):
        if f and i < len(tr.catalog) - 1:
            tr.catalog.freezeParam(i)
    if c['sky']:
        for im in tr.images:
            im.freezeAllBut('sky')
            if im.getSky().numberOfParams() != 1:
                raise Skip()
    else:
        tr.freezeParam('images')
    return tr


def windows(c, tr):
    """Regions of interest, and the matching pixel selections."""
    if not c['rois']:
        return None, [np.ones(im.shape, bool) for im in tr.images]
    rois, sel = [], []
    r = gen.rng(c['seed'])
    for im in tr.images:
        H, W = im.shape
        x0, y0 = r.randint(0, W // 3), r.randint(0, H // 3)
        x1, y1 = r.randint(2 * W // 3, W + 1), r.randint(2 * H // 3, H + 1)
        slc = (slice(int(y0), int(y1)), slice(int(x0), int(x1)))
        m = np.zeros(im.shape, bool)
        m[slc] = True
        rois.append(slc)
        sel.append(m)
    return rois, sel


def total(tr, sel):
    return np.concatenate([model(tr, im)[s] for im, s in zip(tr.images, sel)])


def design(tr, sel):
    p0 = np.array(tr.getParams(), float)
    ie = np.concatenate([im.getInvError().astype(float)[s] for im, s in zip(tr.images, sel)])
    d = np.concatenate([im.getImage().astype(float)[s] for im, s in zip(tr.images, sel)])
    m0 = total(tr, sel)
    cols = []
    h = 500.
    for j in range(len(p0)):
        p = p0.copy()
        p[j] += h
        tr.setParams(list(p))
        cols.append((total(tr, sel) - m0) / h * ie)
    tr.setParams(list(p0))
    return np.array(cols).T.reshape(len(d), len(p0)), (d - m0) * ie


def check(c, ctx):
    tr = scene(c)
    N = tr.numberOfParams()
    if N == 0 or (c['sky'] and tr.catalog.numberOfParams() == 0):
        raise Skip()
    if c['opt'] == 'ceres':
        from tractor.ceres_optimizer import CeresOptimizer
        tr.optimizer = CeresOptimizer(BW=c['bw'], BH=c['bh'])
        if c['ct'] == 'f8':
            tr.optimizer.ceresType = np.float64
    else:
        from tractor.lsqr_optimizer import LsqrOptimizer
        tr.optimizer = LsqrOptimizer()
    if c['masks'] and not c['rois']:
        full_masks(tr)
        ctx.tag('masks')
    nsky = len(tr.images) if c['sky'] else 0
    rois, sel = windows(c, tr)
    p0 = np.array(tr.getParams(), float)
    A, b = design(tr, sel)
    sc = np.sqrt((A**2).sum(axis=0))
    unit = max(gen.ref_counts(c['w']['system'], i['pc'], [1.] * 3) / i['sig'] for i in c['w']['ims'])
    live = sc > 0
    if live.any() and sc[live].min() < 1e-3 * unit:
        # (wings from outside the image, rendered less accurately)
        raise Skip()
    weak = live.any() and sc[live].min() < 0.02 * unit
    if not live.all():
        ctx.tag('dead')
    if not live[nsky:].any():
        raise Skip()
    B = A[:, live] / sc[live]
    u, s, vt = np.linalg.svd(B, full_matrices=False)
    cond = s[0] / max(s[-1], 1e-30)
    # forced photometry does not scale its columns
    eff = cond * sc[live].max() / sc[live].min()
    X = np.zeros(N)
    if cond < 1e6:
        X[live] = np.dot(vt.T, np.dot(u.T, b) / s) / sc[live]
    best = 0.5 * np.sum((b - np.dot(A, X))**2)
    obj0 = 0.5 * np.sum(b**2)
    cold = frozen(tr)
    pix = [(im.getImage().copy(), im.getInvError().copy()) for im in tr.images]
    ims = list(tr.images)
    before = [tr.getModelImage(im) for im in ims]

    kw = dict(variance=c['var'], wantims=c['wantims'], fitstats=c['stats'], sky=c['sky'])
    if rois is not None:
        kw['rois'] = rois
    if c['var'] and c['sky']:
        kw['skyvariance'] = c['skyvar']
    if c['opt'] == 'ceres':
        if c['nonneg']:
            kw['nonneg'] = True
            kw['negfluxval'] = c['negval']
    else:
        kw['shared_params'] = c['shared']
        if c['minflux'] is not None:
            kw['minFlux'] = c['minflux']
    extra = None
    if c['stats'] and c['extra']:
        r = gen.rng(c['seed'] + 1)
        extra = [r.uniform(size=im.shape) for im in ims]
        if rois is not None:
            extra = [e[s] for e, s in zip(extra, rois)]
        kw['fitstat_extras'] = [('myextra', extra)]
    R = tr.optimize_forced_photometry(**kw)

    ctx.tag(c['opt'])
    for k in ('sky', 'rois'):
        if c[k]:
            ctx.tag(k)
    require(len(tr.images) == len(ims) and all(a is b for a, b in zip(tr.images, ims)), 'the images of the problem were replaced')
    for im, (d, e) in zip(ims, pix):
        require(np.array_equal(im.getImage(), d) and np.array_equal(im.getInvError(), e), 'the pixels of an image were changed')
    require(frozen(tr) == cold, 'frozen parameters changed')
    p1 = np.array(tr.getParams(), float)
    require(np.all(np.isfinite(p1)), lambda: 'fluxes %s' % p1)
    gone = (p1 != p0) & ~live
    if c['opt'] != 'ceres' and c['minflux'] is None:
        require(not gone.any(), lambda: 'sources that touch no pixel changed flux: %s -> %s' % (p0[gone], p1[gone]))
    Y = np.where(live, p1 - p0, 0.)
    obj = 0.5 * np.sum((b - np.dot(A, Y))**2)
    tol = 1e-3 * (obj0 - best) + 1e-3 + 3e-6 * obj0
    if weak:
        tol += 0.02 * (obj0 - best)
        ctx.tag('weak')
    C = np.linalg.inv(np.dot(B.T, B)) / np.outer(sc[live], sc[live]) if cond < 1e4 else None
    feasible = True
    want = p0 + X
    if c['opt'] == 'ceres' and c['nonneg']:
        require(np.all(p1 >= 0), lambda: 'nonneg=True gave fluxes %s' % p1)
        feasible = C is not None and np.all(want[live] > 10. * np.sqrt(np.diag(C)) + 0.05) and np.all(p0 > 0)
        ctx.tag('nonneg')
    elif c['opt'] != 'ceres' and c['minflux'] is not None:
        mf = c['minflux']
        require(np.all(p1[nsky:] >= min(mf, 1e30) - 1e-6), lambda: 'minFlux=%g gave fluxes %s' % (mf, p1[nsky:]))
        # a solution well inside the allowed region is taken as it is
        feasible = C is not None and np.all(want[nsky:][live[nsky:]] > mf + np.sqrt(np.diag(C)).max()) and np.all(p0[nsky:] >= mf)
        ctx.tag('minflux-%s' % ('inside' if feasible else 'clipped'))
    if cond > 1e5 or (c['opt'] != 'ceres' and eff > 300.):
        ctx.tag('ill')
        feasible = False
    if c['opt'] != 'ceres' and np.all(p0[nsky:] >= (c['minflux'] if c['minflux'] is not None else -1e30)):
        # (with clipping, the starting point itself may have to move)
        require(obj <= obj0 + 1e-3 + 1e-5 * obj0, lambda: 'forced photometry made the fit worse: %.9g -> %.9g' % (obj0, obj))
    if feasible:
        require(obj - best <= tol, lambda: 'forced photometry ended at chi2/2 = %.9g; the minimum is %.9g (start %.9g, condition %.2g)' % (obj, best, obj0, cond))
        if C is not None and cond < 1e3 and not weak and c['opt'] != 'ceres':
            sig = np.sqrt(np.diag(C))
            slop = 3e-6 * np.linalg.norm(b)
            close(p1[live], want[live], sig * (0.03 + slop + np.sqrt(2e-6 * (obj0 - best))), 1e-3 if c['opt'] == 'ceres' else 1e-4, 'fluxes')
        ctx.tag('exact')
    if c['var']:
        nv = nsky if (c['sky'] and c['skyvar']) else 0
        require(len(R.IV) == nv + N - nsky, lambda: '%i inverse variances for %i fluxes and %i skies' % (len(R.IV), N - nsky, nv))
        close(R.IV, (sc**2)[nsky - nv:], 1e-9, 3e-3, 'inverse variances')
        ctx.tag('variance')
    after = [tr.getModelImage(im) for im in ims]
    done = True
    for nm, M in (('ims0', before), ('ims1', after)):
        L = getattr(R, nm, None)
        if not c['wantims'] and not (nm == 'ims1' and c['stats']):
            continue
        require(L is not None and len(L) == len(ims), lambda: '%s is %s' % (nm, type(L)))
        for k, (im, m, x) in enumerate(zip(ims, M, L)):
            d, mod, ie, chi, roi = x
            slc = rois[k] if rois is not None else (slice(None), slice(None))
            require(np.array_equal(d, im.getImage()[slc]) and np.array_equal(ie, im.getInvError()[slc]), lambda: '%s: data or error map are not those of the image' % nm)
            scale = np.abs(m).max() + np.abs(im.getImage()).max() + abs(p1).max() * 1e-3 + 1.
            # (frozen sources are rendered afresh within the region of interest: another FFT box)
            close(mod, m[slc], (2e-3 if rois is not None else 3e-5) * scale, 1e-4, '%s: model image' % nm)
            close(chi, (d - mod) * ie, 1e-5 * scale * ie.max(), 1e-4, '%s: residual image' % nm)
    if c['stats']:
        stats(c, ctx, tr, R, rois, extra, ims)
    ctx.nt(live[nsky:].sum() >= 2 and cond < 1e3)


def stats(c, ctx, tr, R, rois, extra, ims):
    fs = R.fitstats
    require(fs is not None, 'fit statistics are missing')
    srcs = list(tr.catalog.getThawedSources())
    n = len(srcs)
    E = dict((k, np.zeros(n)) for k in ('prochi2', 'pronpix', 'promasked', 'proflux', 'fracin', 'fl', 'den', 'fden', 'extra', 'nlo', 'nhi', 'flerr'))
    icp, icn, sk = [], [], []
    loose = np.zeros(n)
    for k, im in enumerate(ims):
        slc = rois[k] if rois is not None else (slice(None), slice(None))
        # (residuals and models as returned: they are compared with the images above)
        _, full, ie, chi, _ = R.ims1[k]
        full, ie, chi = full.astype(float), ie.astype(float), chi.astype(float)
        if not hasattr(im.getSky(), 'val'):
            raise Skip()
        icp.append(np.sum(chi**2))
        icn.append((ie > 0).sum())
        sk.append(im.getSky().val)
        others_plus_me = full - im.getSky().val
        sc = im.getPhotoCal().getScale()
        for si, src in enumerate(srcs):
            cts = sum(im.getPhotoCal().brightnessToCounts(b) for b in src.getBrightnesses())
            if cts == 0:
                continue
            if abs(cts) < 1e-3 or any(abs(im.getPhotoCal().brightnessToCounts(b)) > 1e3 * abs(cts) for b in src.getBrightnesses()):
                loose[si] = 1
                continue
            u = np.zeros(im.shape)
            for b, pt in zip(src.getBrightnesses(), src.getUnitFluxModelPatches(im, minval=0., modelMask=tr._getModelMaskFor(im, src))):
                if pt is not None and pt.patch is not None:
                    (pt * im.getPhotoCal().brightnessToCounts(b)).addTo(u)
            u = u[slc] / cts
            good = (u != 0) & (ie > 0)
            if good.sum() == 0:
                continue
            au = np.abs(u)
            if np.abs(u).max() < 1e-4:
                # (faint wings: rendered and summed less accurately)
                loose[si] = 1
            E['prochi2'][si] += np.sum((au * chi**2)[good])
            E['pronpix'][si] += np.sum(au[good])
            E['promasked'][si] += np.sum(au[ie == 0])
            E['fl'][si] += np.sum((np.abs(others_plus_me / cts - u) * au)[good]) / np.sum(u[good]**2)
            # single-precision rounding of the model image
            E['flerr'][si] += 1e-6 * (np.abs(full).max() + abs(im.getSky().val) + 1.) / abs(cts) * np.sum(au[good]) / np.sum(u[good]**2)
            E['fden'][si] += np.sum(au[good]) / abs(cts)
            E['proflux'][si] += np.sum((np.abs(others_plus_me - u * cts) / sc * au)[good])
            E['fracin'][si] += np.sum(au)
            E['den'][si] += 1
            E['nlo'][si] += (au[ie > 0] > 1e-6 * au.max()).sum()
            E['nhi'][si] += (ie > 0).sum()
            if extra is not None:
                E['extra'][si] += np.sum((au * extra[k])[good])
    ok = loose == 0
    close(fs.imchisq, icp, 1e-3, 1e-3, 'chi-squared per image')
    require(np.array_equal(fs.imnpix, icn), lambda: 'pixels per image: %s, not %s' % (fs.imnpix, icn))
    close(fs.sky, sk, 1e-9, 1e-6, 'sky per image')
    if not ok.any():
        return
    ch = 1e-4 * max(np.sqrt(max(icp)), 1.)
    close(np.array(fs.prochi2)[ok], E['prochi2'][ok], ch, 3e-3, 'profile-weighted chi-squared')
    for k in ('pronpix', 'promasked'):
        close(np.array(getattr(fs, k))[ok], E[k][ok], 2e-4, 1e-3, 'profile-weighted pixels (%s)' % k)
    close(np.array(fs.proflux)[ok], E['proflux'][ok], 1e-3 * (1. + np.abs(E['proflux']).max()), 3e-3, 'profile-weighted flux of the others')
    close(np.array(fs.fracin)[ok], (E['fracin'] / np.maximum(1, E['den']))[ok], 2e-4, 1e-3, 'fraction of flux within the image')
    w = (E['fl'] / np.maximum(1, E['fden']))[ok]
    close(np.array(fs.profracflux)[ok], w, 3e-3 * (1. + np.abs(w)) + E['flerr'][ok], 0., 'profile-weighted fraction of flux from others')
    require(np.all((np.array(fs.npix) >= E['nlo'])[ok]) and np.all((np.array(fs.npix) <= E['nhi'])[ok]), lambda: 'pixels per source: %s, not within %s - %s' % (fs.npix, E['nlo'], E['nhi']))
    if extra is not None:
        close(np.array(fs.myextra)[ok], E['extra'][ok], 2e-4, 1e-3, 'profile-weighted sum of an extra image')
    ctx.tag('stats')


def case(opt, **kw):
    d = dict(nim=(1, 3), nsrc=(1, 5), psfs=('ncirc', 'mog', 'pix', 'hybrid'), systems=('fluxlin', 'nmgy'), skies=('const',), wmin=12, wmax=30, rmax=3., margin=-1.)
    d.update(kw)
    return st.fixed_dictionaries(dict(
        w=gen.world_spec(**d), opt=st.just(opt), seed=gen.seeds, start=pick(1., 10., 100.), amp=fl(-0.3, 3., 1), dsky=fl(-5, 5, 1),
        frz=lst(pick(False, False, False, True), 5), sky=st.booleans(), rois=pick(False, False, True), var=st.booleans(), skyvar=st.booleans(),
        wantims=st.booleans(), stats=st.booleans(), extra=st.booleans(), masks=pick(False, False, False, True), shared=st.booleans(),
        minflux=pick(None, None, None, 0., 1., -100.) if opt == 'lsqr' else st.just(None),
        nonneg=pick(False, False, True), negval=pick(0.1, 1.), bw=st.integers(3, 40), bh=st.integers(3, 40), ct=pick('f4', 'f8')))


SUBS = [
    Sub('lsqr', case('lsqr'), check, quick=400, thorough=8000, shards=4),
    Sub('many', st.one_of(case('lsqr', nim=(3, 6), nsrc=(5, 10), wmin=20, wmax=70), case('ceres', nim=(2, 5), nsrc=(4, 8), wmin=20, wmax=60)), check, quick=100, thorough=2000, shards=2,
        doc='more and larger images, more sources'),
    Sub('lsqr-edge', case('lsqr', margin=4.), check, quick=150, thorough=3000, shards=1),
    Sub('ceres-edge', case('ceres', margin=4.), check, quick=100, thorough=2000, shards=1),
    Sub('ceres', case('ceres'), check, quick=200, thorough=4000, shards=2),
]
