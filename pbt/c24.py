"""C24: moving sources are rendered, differentiated and fitted where and when they are."""
import pickle
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from . import c11
from .core import Sub, require, close, Skip
from .gen import fl, pick, lst

PROP = 'C24'
RULE = ('A case is a moving source (any place between declinations -80 and 80, right ascensions across 0/360, proper motion up to '
        'several arcsec per year, parallax up to 2 arcsec, epoch given as a time or a number), a history of copies and pickles, and one or '
        'more images with their times, PSFs and model windows; or arithmetic on times, positions and parallaxes. Non-trivial: it moved by '
        'more than a hundredth of an arcsecond (or pixel), or the operands were non-trivial.')
ASSUMPTIONS = ['proper motions are rates of the coordinates RA and Dec in degrees per year (no cos Dec), the orbit of the Earth is a circle in '
               'the ecliptic of obliquity 23.44 degrees, as the module documents',
               'the derivative of a moving source is judged as in C11']

YEAR = 365.25 * 86400.
MJD2K = 51544.5


def vec(ra, dec):
    a, d = np.deg2rad(ra), np.deg2rad(dec)
    return np.array([np.cos(a) * np.cos(d), np.sin(a) * np.cos(d), np.sin(d)])


def where(c, t):
    """unit vector towards the source at time t (seconds)"""
    dt = (t - c['epoch']) / YEAR
    v = vec(c['ra'] + dt * c['pmra'] / 3600., c['dec'] + dt * c['pmdec'] / 3600.)
    th = 2. * np.pi * (t / 86400. - 53084.28) / 365.25
    e = np.deg2rad(23.44)
    sun = np.array([np.cos(th), np.sin(th) * np.cos(e), np.sin(th) * np.sin(e)])
    v = v + np.deg2rad(c['plx'] / 3600.) * sun
    return v / np.sqrt(np.sum(v**2))


def sep(v, ra, dec):
    """arcsec"""
    w = vec(ra, dec)
    return 3600. * np.rad2deg(np.arcsin(min(1., np.sqrt(np.sum(np.cross(v, w)**2)))) if np.dot(v, w) > 0 else np.pi)


def times():
    return st.one_of(fl(51544., 60000.), st.integers(51544, 60000).map(float)).map(lambda m: m * 86400.)


def mover(**kw):
    d = dict(ra=st.one_of(fl(0., 360.), pick(0., 1e-5, 359.99999, 180.)), dec=fl(-80., 80.),
             pmra=st.one_of(fl(-3., 3.), pick(0.)), pmdec=st.one_of(fl(-3., 3.), pick(0.)),
             plx=st.one_of(fl(0., 2.), pick(0.)), epoch=times(), etype=pick('time', 'number'), flux=fl(10., 1000.))
    d.update(kw)
    return st.fixed_dictionaries(d)


def build(c):
    from tractor import RaDecPos, NanoMaggies
    from tractor.motion import MovingPointSource, PMRaDec
    from tractor.tractortime import TAITime
    ep = TAITime(c['epoch']) if c['etype'] == 'time' else c['epoch']
    return MovingPointSource(RaDecPos(c['ra'], c['dec']), NanoMaggies(r=c['flux']),
                             PMRaDec(c['pmra'] / 3600., c['pmdec'] / 3600.), c['plx'], epoch=ep)


def history(src, ops):
    for o in ops:
        if o == 'copy':
            src = src.copy()
        else:
            src = pickle.loads(pickle.dumps(src))
    return src


HIST = lst(pick('copy', 'pickle'), 0, 3)


def check_where(c, ctx):
    from tractor.tractortime import TAITime
    from tractor.motion import ParallaxWithPrior
    src = build(c)
    s2 = history(src, c['hist'])
    moved = 0.
    for t in c['times']:
        T = TAITime(t)
        want = where(c, t)
        for who, s in (('the source', src), ('its copy (%s)' % ','.join(c['hist']), s2)):
            p = s.getPositionAtTime(T)
            d = sep(want, p.ra, p.dec)
            # arcsec: double-precision coordinates of 360 degrees, and a unit vector not quite of unit length
            require(d < 2e-5, lambda: '%s is %.3g arcsec from where it should be at MJD %.3f: (%r, %r)' % (who, d, t / 86400., p.ra, p.dec), sig='place')
            require(0. <= p.ra <= 360. and -90. <= p.dec <= 90., 'coordinates out of range: %r %r' % (p.ra, p.dec))
        moved = max(moved, sep(want, c['ra'], c['dec']))
        require(T.getValue() == t, 'asking for a position changed the time')
    want = [c['ra'], c['dec'], c['flux'], c['pmra'] / 3600., c['pmdec'] / 3600., c['plx']]
    for s in (src, s2):
        require(list(s.getParams()) == want, lambda: 'parameters of the source are %s, not %s' % (s.getParams(), want))
    if c['hist']:
        # independent of the original
        s2.setParams([1., 2., 3., 4., 5., 6.])
        require(list(src.getParams()) == want, 'moving a copy moved the original')
    # prior
    q = ParallaxWithPrior(c['plx'])
    if c['plx'] > 0:
        close(q.getLogPrior(), -4. * np.log(c['plx']), 1e-12, 1e-12, 'Lutz-Kelker prior')
        require(q.isLegal(), 'positive parallax is not legal')
    src.parallax = ParallaxWithPrior(-0.1)
    require(src.getLogPrior() == -np.inf and not src.parallax.isLegal(), 'a negative parallax was accepted by the prior')
    src.parallax = ParallaxWithPrior(0.5)
    close(src.getLogPrior(), -4. * np.log(0.5), 1e-12, 1e-12, 'prior of the source')
    s3 = history(src, c['hist'])
    close(s3.getLogPrior(), src.getLogPrior(), 0., 0., 'prior of the copied source')
    ctx.tag(*['hist-' + h for h in c['hist']])
    if moved > 0.01:
        ctx.nt()


def scene(c):
    from tractor import Image, Tractor, Catalog, LinearPhotoCal
    from tractor.sky import ConstantSky
    from tractor.wcs import ConstantFitsWcs
    from tractor.tractortime import TAITime
    from astrometry.util.util import Tan
    ps = c['pixscale'] / 3600.
    th = np.deg2rad(c['rot'])
    ims = []
    for k, t in enumerate(c['times']):
        W, H = c['W'], c['H']
        v = where(c, t)
        ra, dec = np.rad2deg(np.arctan2(v[1], v[0])) % 360., np.rad2deg(np.arcsin(v[2]))
        if k and not c['follow']:
            v = where(c, c['times'][0])
            ra, dec = np.rad2deg(np.arctan2(v[1], v[0])) % 360., np.rad2deg(np.arcsin(v[2]))
        # the source falls at pixel dx, dy of the centre
        tan = Tan(ra, dec, (W + 1) / 2. + c['dx'], (H + 1) / 2. + c['dy'], -ps * np.cos(th), ps * np.sin(th), ps * np.sin(th), ps * np.cos(th), W, H)
        im = Image(data=np.zeros((H, W), np.float32), inverr=np.ones((H, W), np.float32), psf=gen.build_psf(c['psfs'][k % len(c['psfs'])]),
                   wcs=ConstantFitsWcs(tan), sky=ConstantSky(0.), photocal=LinearPhotoCal(c['zp'], band='r'), time=TAITime(t))
        im.modelMinval = c['minval']
        ims.append(im)
    src = history(build(c), c['hist'])
    return Tractor(ims, [src]), src


def scenes(**kw):
    d = dict(pixscale=fl(0.2, 2.), rot=fl(-180., 180.), W=st.integers(17, 31), H=st.integers(17, 31), follow=pick(True, True, False),
             dx=fl(-6., 6.), dy=fl(-6., 6.), zp=fl(0.5, 4.), minval=pick(0., 0., 1e-3), hist=HIST,
             times=lst(times(), 1, 3), psfs=lst(gen.psf_spec(('pix', 'mog', 'ncirc', 'hybrid')), 1, 2))
    d.update(kw)
    return mover(**d)


def check_render(c, ctx):
    from tractor import PointSource, RaDecPos, NanoMaggies
    from tractor.patch import ModelMask
    tr, src = scene(c)
    if c['fixed'] is not None:
        src.fixedRadius = c['fixed']
    if c['minr'] is not None:
        src.minRadius = c['minr']
    ok = False
    for im, t in zip(tr.images, c['times']):
        v = where(c, t)
        star = PointSource(RaDecPos(np.rad2deg(np.arctan2(v[1], v[0])) % 360., np.rad2deg(np.arcsin(v[2]))), NanoMaggies(r=c['flux']))
        star.fixedRadius, star.minRadius = src.fixedRadius, src.minRadius
        H, W = im.shape
        px = np.array(im.getWcs().positionToPixel(star.getPosition()))
        if np.any(np.abs((px % 1.) - 0.5) < 1e-3) or (np.any(np.abs(px - np.round(px)) < 1e-3) and (c['fixed'] is not None or c['minr'] is not None or c['minval'] > 0)):
            # half-way between pixels (or on one, with a finite window): the stamp can be laid either way
            ctx.tag('tie')
            continue
        mask = None
        if c['mask']:
            x0, y0, w, h = c['mask']
            mask = ModelMask(min(x0, W - 5), min(y0, H - 5), min(w, W - min(x0, W - 5)), min(h, H - min(y0, H - 5)))
        for what in ('getModelPatch', 'getUnitFluxModelPatch'):
            a = getattr(src, what)(im, modelMask=mask)
            b = getattr(star, what)(im, modelMask=mask)
            A, B = c11.canvas(a, H, W), c11.canvas(b, H, W)
            tol = 2e-4 * np.abs(B).max() + 1e-6 * (c['flux'] * c['zp'] if what == 'getModelPatch' else 1.)
            if c['minval'] > 0:
                # patches end at the threshold
                tol += 3. * c['minval']
            close(A, B, tol, 0., '%s of a moving source at MJD %.2f, against a star at its place' % (what, t / 86400.))
            if mask is not None and a is not None:
                require((a.x0, a.y0) + a.shape[::-1] == (mask.x0, mask.y0, mask.w, mask.h), 'model does not cover the model mask')
            if what == 'getModelPatch' and np.abs(B).max() > 0.01 * c['flux'] * c['zp'] * 0.01:
                ok = True
            elif b is None:
                ctx.tag('off')
    # cut-outs, copies and pickles of an image are of the same time
    k = c['cut'] % len(tr.images)
    im = tr.images[k]
    H, W = im.shape
    x0, y0 = 2 + c['cut'] % 4, 1 + c['cut'] % 3
    full = c11.canvas(src.getModelPatch(im), H, W)
    for what, sub, slc in (('cut-out', im.subimage(x0, W - 1, y0, H), (slice(y0, H), slice(x0, W - 1))), ('copy', im.copy(), (slice(None), slice(None))),
                           ('pickled copy', pickle.loads(pickle.dumps(im)), (slice(None), slice(None)))):
        require(sub.getTime() is not None and sub.getTime().getValue() == c['times'][k], lambda: 'the %s of an image has time %s' % (what, sub.getTime()))
        sub.modelMinval = im.modelMinval
        got = c11.canvas(src.getModelPatch(sub), *sub.shape)
        if what != 'cut-out' or (c['minval'] == 0 and c['fixed'] is None and c['minr'] is None and gen.psf_is_mog(c['psfs'][k % len(c['psfs'])])):
            close(got, full[slc], 2e-4 * np.abs(full).max() + 1e-6 * c['flux'] * c['zp'], 0., 'moving source in the %s of an image' % what)
    m = tr.getModelImage(0)
    close(m, c11.canvas(src.getModelPatch(tr.images[0]), *tr.images[0].shape), 1e-5 * max(np.abs(m).max(), 1e-12), 0., 'model image')
    if ok and len(c['times']) >= 1:
        ctx.nt()


def steps(c, src):
    """a tenth of a pixel"""
    deg = 0.1 * c['pixscale'] / 3600.
    yrs = max(0.5, max(abs(t - c['epoch']) for t in c['times']) / YEAR)
    src.pos.setStepSizes([deg, deg])
    src.pm.setStepSizes([deg / yrs, deg / yrs])
    src.parallax.stepsize = 0.1 * c['pixscale']


def check_derivs(c, ctx):
    tr, src = scene(c)
    tr.freezeParam('images')
    for o, i in zip([src, src.pos, src.pm], c['freeze']):
        # freeze some
        if i is not None:
            o.freezeParam(i % (len(o.subs) if o is src else 2))
    if not tr.numberOfParams():
        raise Skip('everything frozen')
    steps(c, src)
    p0 = tr.getParams()
    ds = tr.getDerivs()
    require(len(ds) == tr.numberOfParams(), '%i derivatives for %i parameters' % (len(ds), tr.numberOfParams()))
    require(list(tr.getParams()) == list(p0), 'computing derivatives changed parameters')
    n = 0
    for i, nm in enumerate(tr.getParamNames()):
        n += c11.judge(tr, ds[i], i, nm, 0, None, [False] * len(tr.images), ctx)
    if n:
        ctx.nt()


def check_masked(c, ctx):
    """derivatives in a window are the window of the derivatives"""
    from tractor.patch import ModelMask
    tr, src = scene(c)
    steps(c, src)
    im = tr.images[0]
    H, W = im.shape
    mask = ModelMask(0, 0, W, H) if c['whole'] else ModelMask(2, 1, W - 3, H - 4)
    a = src.getParamDerivatives(im)
    b = src.getParamDerivatives(im, modelMask=mask)
    require(len(a) == len(b) == src.numberOfParams(), 'wrong number of derivatives: %i, %i' % (len(a), len(b)))
    scale = [np.abs(c11.canvas(x, H, W)).max() for x in a]
    n = 0
    for i, (p, q) in enumerate(zip(a, b)):
        P, Q = c11.canvas(p, H, W), c11.canvas(q, H, W)
        x0, x1, y0, y1 = mask.extent
        out = np.ones((H, W), bool)
        out[y0:y1, x0:x1] = False
        require(not np.any(Q[out]), 'derivative outside the model mask')
        if p is None and q is None:
            continue
        # (the outermost pixels of a resampled stamp)
        tol = (0.03 if gen.psf_is_mog(c['psfs'][0]) else 0.06) * scale[i] + 1e-12
        s = (slice(y0 + 1, y1 - 1), slice(x0 + 1, x1 - 1))
        if c['minval'] > 0:
            continue
        close(Q[s], P[s], tol, 0., 'derivative %s in a window' % src.getParamNames()[i])
        n += scale[i] > 0
    # model windows used by Tractor
    tr.setModelMasks([{src: mask}] + [{} for _ in tr.images[1:]])
    tr.freezeParam('images')
    ds = tr.getDerivs()
    require(len(ds) == src.numberOfParams(), 'wrong number of derivatives')
    if n:
        ctx.nt()


def check_fit(c, ctx):
    """noise-free images at several epochs tell where the source was, and how it moves"""
    tr, src = scene(c)
    tr.freezeParam('images')
    for im in tr.images:
        im.data = tr.getModelImage(im).astype(np.float32)
        mx = im.data.max()
        if mx <= 0:
            raise Skip('off the image')
        im.inverr = np.ones(im.shape, np.float32) * 100. / mx
    truth = list(src.getParams())
    deg = 0.1 * c['pixscale'] / 3600.
    yrs = max(abs(t - c['epoch']) for t in c['times']) / YEAR
    src.pos.setStepSizes([deg * 0.1 / np.cos(np.deg2rad(c['dec'])), deg * 0.1])
    src.pm.setStepSizes([deg * 0.1 / yrs / np.cos(np.deg2rad(c['dec'])), deg * 0.1 / yrs])
    src.parallax.stepsize = 0.01 * c['pixscale']
    k = c['kick']
    cd = np.cos(np.deg2rad(c['dec']))
    start = [truth[0] + k[0] * deg / cd, truth[1] + k[1] * deg, truth[2] * (1. + 0.1 * k[2]),
             truth[3] + k[3] * deg / yrs / cd, truth[4] + k[4] * deg / yrs, truth[5] + 0.1 * k[5] * c['pixscale']]
    if c['noplx']:
        src.freezeParam('parallax')
        start = start[:5]
    src.setParams(start)
    from tractor.lsqr_optimizer import LsqrOptimizer
    tr.optimizer = LsqrOptimizer()
    l0 = tr.getLogProb()
    try:
        tr.optimize_loop(steps=30, dlnp=1e-6, damp=1e-6)
    except RuntimeError:
        raise Skip('no convergence')
    l1 = tr.getLogProb()
    require(l1 >= l0, 'optimizing made the fit worse: %g -> %g' % (l0, l1))
    # all images explained: the moving source is found again
    require(l1 > 0.02 * l0 - 0.5, lambda: 'moving source not found again: log-probability %g from %g' % (l1, l0))
    for t in c['times']:
        from tractor.tractortime import TAITime
        p = src.getPositionAtTime(TAITime(t))
        d = sep(where(c, t), p.ra, p.dec) / c['pixscale']
        require(d < 0.03, lambda: 'after the fit the source is %.3g pixels off at MJD %.1f' % (d, t / 86400.))
    ctx.nt()


OPS = ('+', '-', '*', '/')


def apply(op, a, b):
    return a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a / b


def iapply(op, a, b):
    if op == '+':
        a += b
    elif op == '-':
        a -= b
    elif op == '*':
        a *= b
    else:
        a /= b
    return a


def check_algebra(c, ctx):
    from tractor import RaDecPos
    from tractor.motion import Parallax, PMRaDec
    from tractor.tractortime import TAITime
    cls = {'pos': RaDecPos, 'pm': PMRaDec, 'plx': Parallax, 'time': TAITime}[c['kind']]
    n = 2 if c['kind'] in ('pos', 'pm') else 1
    A, B = np.array(c['a'][:n]), np.array(c['b'][:n])
    mk = lambda v: cls(*[float(x) for x in v])
    x, y, s = mk(A), mk(B), c['s']
    if n == 2 and c['freeze'] is not None:
        # arithmetic acts on all the values, frozen or not
        x.freezeParam(c['freeze'])
        ctx.tag('frozen')
    vals = lambda o: np.array(o.getAllParams(), float)
    for op in OPS:
        want = apply(op, A, B)
        r = apply(op, x, y)
        require(type(r) is cls and r is not x and r is not y, 'result of %s has the wrong type' % op)
        close(vals(r), want, 0., 1e-14, '%s %s %s' % (c['kind'], op, c['kind']))
        r = apply(op, x, s)
        require(type(r) is cls, 'result of %s has the wrong type' % op)
        close(vals(r), apply(op, A, s), 0., 1e-14, '%s %s number' % (c['kind'], op))
        r = apply(op, s, x)
        require(type(r) is cls, 'result of %s has the wrong type' % op)
        close(vals(r), apply(op, s, A), 0., 1e-14, 'number %s %s' % (op, c['kind']))
        close(vals(x), A, 0., 0., 'left operand after ' + op)
        close(vals(y), B, 0., 0., 'right operand after ' + op)
        for other, o in ((y, B), (s, s)):
            z = mk(A)
            r = iapply(op, z, other)
            require(r is z, 'in-place %s made another object' % op)
            close(vals(z), apply(op, A, o), 0., 1e-14, 'in-place ' + op)
            close(vals(y), B, 0., 0., 'right operand after in-place ' + op)
    if c['kind'] == 'time':
        mjd = c['mjd']
        T = TAITime(None, mjd=mjd)
        close(T.getValue(), mjd * 86400., 0., 1e-15, 'time of an MJD')
        close(T.toMjd(), mjd, 0., 1e-14, 'MJD round trip')
        close(T.toYear(), 2000. + (mjd - MJD2K) / 365.25, 1e-9, 0., 'Julian year')
        close((T - TAITime(None, mjd=MJD2K)).toYears(), (mjd - MJD2K) / 365.25, 1e-9, 0., 'elapsed years')
        th = 2. * np.pi * ((mjd - 53084.28) / 365.25)
        close([np.cos(T.getSunTheta()), np.sin(T.getSunTheta())], [np.cos(th), np.sin(th)], 1e-9, 0., 'angle of the Sun')
        import datetime
        day = datetime.datetime(1858, 11, 17) + datetime.timedelta(days=round(mjd))
        close(TAITime(None, date=day).toMjd(), round(mjd), 1e-6, 0., 'MJD of a date')
        require((TAITime(c['a'][0]) < TAITime(c['b'][0])) == (c['a'][0] < c['b'][0]), 'times compare wrongly')
        require(TAITime(c['a'][0]) == TAITime(c['a'][0]), 'a time is not equal to itself')
    if n == 2:
        d = x.distanceFrom(y)
        close(d, np.rad2deg(np.arctan2(np.sqrt(np.sum(np.cross(vec(*A), vec(*B))**2)), np.dot(vec(*A), vec(*B)))), 2e-6, 1e-9, 'distance of two positions')
    ctx.tag(c['kind'])
    if not np.array_equal(A, B) and s != 1.:
        ctx.nt()


NZ = st.one_of(fl(0.01, 80.), fl(-80., -0.01))
SUBS = [
    Sub('where', mover(hist=HIST, times=lst(times(), 1, 4)), check_where, 400, 8000,
        doc='position at a time, copies, pickles, priors'),
    Sub('render', scenes(cut=st.integers(0, 30), fixed=st.one_of(st.none(), pick(4, 7)), minr=st.one_of(st.none(), pick(5)),
                         mask=st.one_of(st.none(), st.tuples(st.integers(0, 8), st.integers(0, 8), st.integers(5, 20), st.integers(5, 20)))),
        check_render, 250, 4000, doc='rendered as a star at its place at the time of each image'),
    Sub('derivs', scenes(freeze=st.tuples(st.one_of(st.none(), st.integers(0, 3)), st.one_of(st.none(), st.integers(0, 1)), st.one_of(st.none(), st.integers(0, 1)))),
        check_derivs, 150, 3000, doc='derivatives of the model for all parameters'),
    Sub('masked', scenes(whole=pick(True, False)), check_masked, 120, 2000, doc='derivatives in windows'),
    Sub('fit', scenes(times=st.lists(times(), min_size=4, max_size=6, unique_by=lambda t: t // (40 * 86400)), follow=pick(True), dx=fl(-2., 2.), dy=fl(-2., 2.),
                      psfs=lst(gen.psf_spec(('mog', 'ncirc')), 1, 1), minval=pick(0.), kick=st.tuples(*[fl(-3., 3.)] * 6), noplx=pick(True, False)),
        check_fit, 40, 600, doc='motion recovered from noise-free epochs'),
    Sub('algebra', st.fixed_dictionaries(dict(kind=pick('pos', 'pm', 'plx', 'time'), a=st.tuples(NZ, NZ), b=st.tuples(NZ, NZ), s=NZ, freeze=st.one_of(st.none(), st.integers(0, 1)),
                                              mjd=fl(40000., 70000.))),
        check_algebra, 400, 6000, doc='arithmetic on times, positions, motions, parallaxes'),
]
