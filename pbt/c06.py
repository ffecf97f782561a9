"""C06: galaxy profiles follow the Sersic law they are named after."""
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .core import Sub, require, close, Skip
from .gen import fl, pick, lst

PROP = 'C06'
RULE = ('A case is a Sersic index (anywhere from below to above the supported range, dense at the ends and at the joins of the tabulated ranges) with another index near it and '
        'a history of profile look-ups in between; or a galaxy of one of the named types with a radius of several pixels, any axis ratio and angle, rendered through a narrow PSF, and '
        'the light inside ellipses similar to its own; or radii at which the one-dimensional profiles are evaluated. Oracle: the closed-form Sersic curve of growth '
        '(incomplete gamma function), truncated at eight half-light radii. Non-trivial: index inside the supported range and away from 0.5, 1 and 4; ellipse visibly elongated.')
ASSUMPTIONS = ['the profiles are mixture approximations with softened cores, truncated near eight half-light radii; enclosed light agrees with the law to between 0.0016 (n=0.5) and 0.033 (n=2) of the total, changing slowly with the index']

LO, HI = 0.29, 6.3
JOINS = (0.29, 0.3, 0.39, 0.41, 0.42, 0.43, 0.5, 0.51, 0.52, 0.57, 0.58, 0.62, 0.63, 0.71, 0.72, 0.75, 1., 1.05, 1.5, 1.55, 3., 3.1, 3.5, 4., 6., 6.2, 6.3)
RR = np.geomspace(0.02, 8., 40)


def growth(n, r):
    """fraction of the light of a Sersic profile inside r half-light radii, truncated at 8"""
    from scipy.special import gammainc, gammaincinv
    b = gammaincinv(2. * n, 0.5)
    return gammainc(2. * n, b * np.asarray(r, float)**(1. / n)) / gammainc(2. * n, b * 8.**(1. / n))


def cog(mix, r):
    out = np.zeros(len(r))
    for a, v in zip(mix.amp, mix.var):
        require(v[0, 1] == 0 and v[1, 0] == 0 and v[0, 0] == v[1, 1], 'profile is not round')
        out += a * (1. if v[0, 0] == 0 else 1. - np.exp(-0.5 * r**2 / v[0, 0]))
    return out


# accuracy of the published mixtures: largest deviation from the curve of growth up to this index, with a margin
ACC = ((0.4, 0.014), (0.5, 0.0045), (0.55, 0.0016), (0.6, 0.0028), (0.7, 0.004), (0.8, 0.0075), (0.9, 0.012), (1., 0.0175), (1.2, 0.0225), (1.5, 0.029), (2., 0.033), (2.5, 0.0315), (3., 0.03),
       (3.1, 0.027), (3.5, 0.025), (4., 0.0135), (5., 0.0115), (9., 0.0155))


def tol_of(n):
    return max(t for (lo, _), (hi, t) in zip(((0., 0.),) + ACC, ACC) if lo - 0.011 <= n <= hi + 0.011)


def rate_of(n):
    """how fast that deviation may change with the index"""
    return 0.25 if n < 0.62 else 0.08 if n < 2.55 or 2.95 < n < 3.55 else 0.03


def jump_of(n):
    """steps at the joins of the tables"""
    return 0.0015 if n < 0.65 else 5e-4


def check_sweep(c, ctx):
    """The whole range of indices, at any set of places."""
    from tractor.sersic import SersicMixture
    r = gen.rng(c['seed'])
    ns = np.sort(np.append(LO + (HI - LO) * (np.arange(c['N']) + r.uniform(0., 1., size=c['N'])) / c['N'], 0.29 + 0.5 * r.uniform(size=20)))
    last = None
    for n in ns:
        m = SersicMixture.getProfile(n)
        cc = index_ok(m, 'Sersic profile n=%r' % n)
        d = cc - growth(n, RR)
        require(np.abs(d).max() < tol_of(n), lambda: 'light inside radius of n=%r differs by %g from the law at %g half-light radii' % (n, np.abs(d).max(), RR[np.argmax(np.abs(d))]))
        if last is not None:
            j = np.abs(d - last[1]).max()
            require(j < max(rate_of(n), rate_of(last[0])) * (n - last[0]) + jump_of(last[0]), lambda: 'profiles of n=%r and n=%r differ by %g more than the law does' % (last[0], n, j))
        last = (n, d)
    ctx.nt()


def index_ok(mix, what):
    require(abs(mix.amp.sum() - 1.) < 1e-9, lambda: 'total light of %s is %r' % (what, mix.amp.sum()))
    v = mix.var[:, 0, 0]
    require(np.all(v >= 0) and np.all(np.diff(v) >= 0), lambda: 'variances of %s are not sorted and non-negative: %s' % (what, v))
    require(np.all(mix.mean == 0), 'profile is off centre')
    c = cog(mix, RR)
    require(np.all(np.isfinite(c)) and np.all(np.diff(c) > -1e-6) and c.min() > -1e-9, lambda: 'light inside radius of %s is not increasing' % what)
    return c


def check_law(c, ctx):
    from tractor.sersic import SersicMixture, SersicGalaxy, SersicIndex
    n = c['n']
    m = SersicMixture.getProfile(n)
    what = 'Sersic profile n=%r' % n
    cc = index_ok(m, what)
    nc = min(max(n, LO), HI)
    close(cc, growth(nc, RR), tol_of(nc), 0., 'light inside radius, ' + what)
    a0, v0 = m.amp.copy(), m.var.copy()
    # nearby index, at the other side of whatever there is
    m2 = SersicMixture.getProfile(n + c['dn'])
    c2 = index_ok(m2, 'Sersic profile n=%r' % (n + c['dn']))
    n2 = min(max(n + c['dn'], LO), HI)
    close(c2 - growth(n2, RR), cc - growth(nc, RR), max(rate_of(nc), rate_of(n2)) * abs(n2 - nc) + jump_of(min(nc, n2)), 0., 'profile of n=%r next to that of n=%r' % (n + c['dn'], n))
    # neither history nor what is done with it matters
    for h in c['hist']:
        index_ok(SersicMixture.getProfile(h), 'Sersic profile n=%r' % h)
    g = SersicGalaxy(None, None, None, SersicIndex(n))
    m3 = g.getProfile()
    close(m3.amp, a0, 0., 0., 'amplitudes after other look-ups')
    close(m3.var, v0, 0., 0., 'variances after other look-ups')
    require(SersicIndex(n).isLegal() == (LO <= n <= HI), lambda: 'legality of n=%r' % n)
    if n <= LO or n >= HI:
        e = SersicMixture.getProfile(LO if n <= LO else HI)
        close(cc, cog(e, RR), 1e-12, 0., 'profile beyond the end of the range')
    ctx.tag('in' if LO < n < HI else 'clamped')
    ctx.nt(LO < n < HI and abs(n - 0.5) > 0.01 and abs(n - 1.) > 0.01 and abs(n - 4.) > 0.01)


def check_named(c, ctx):
    from tractor.mixture_profiles import get_exp_mixture, get_dev_mixture
    from tractor.galaxy import ExpGalaxy, DevGalaxy, GaussianGalaxy
    from tractor.sersic import SersicMixture
    r = np.array(sorted(c['r']))
    for what, mix, n, tl in (('exponential', get_exp_mixture(), 1., 0.02), ('deVaucouleurs', get_dev_mixture(), 4., 0.02)):
        index_ok(mix, what)
        close(cog(mix, r), growth(n, r), tl, 0., 'light inside radius, %s' % what)
        close(cog(mix, r), cog(SersicMixture.getProfile(n), r), 0.004, 0., '%s against Sersic n=%i' % (what, n))
    for cls, mix in ((ExpGalaxy, get_exp_mixture()), (DevGalaxy, get_dev_mixture())):
        p = cls(None, None, None).getProfile()
        close(cog(p, r), cog(mix, r), 1e-12, 0., 'profile of %s' % cls.__name__)
    close(cog(SersicMixture.getProfile(0.5), r), growth(0.5, r), 1e-3, 0., 'Sersic n=0.5 against a Gaussian')
    p = GaussianGalaxy(None, None, None).getProfile()
    close(cog(p, r), 1. - np.exp(-0.5 * r**2), 1e-12, 0., 'Gaussian galaxy')
    # the one-dimensional profiles the mixtures were fitted to
    from tractor.galaxy_profiles import profile_dev, profile_exp
    for f, out, cut, law in ((profile_exp, 4., 3., lambda q: 2048. * np.exp(-1.67835 * (q - 1.))),
                             (profile_dev, 8., 7., lambda q: 512. * np.exp(-7.66925 * ((q * q + 0.0004)**0.125 - 1.)))):
        w = law(r) * np.where(r > cut, np.where(r > out, 0., (1. - ((r - cut) / (out - cut))**2)**2), 1.)
        r0 = r.copy()
        close(f(r), w, 1e-9, 1e-9, f.__name__)
        close(r, r0, 0., 0., 'radii given')
        for k in (0, -1):
            v = f(float(r[k]))
            require(np.ndim(v) == 0, 'profile of one radius is not a number')
            close(v, w[k], 1e-9, 1e-9, f.__name__ + ' of a number')
        close(f(np.arange(10)), f(np.arange(10.)), 1e-9, 1e-9, f.__name__ + ' at integer radii')
    ctx.nt()


def check_galaxy(c, ctx):
    from tractor import Image, ConstantSky, NCircularGaussianPSF
    from tractor.patch import ModelMask
    k = c['kind']
    W = H = 121
    wcs = c['wcs']
    x, y = 60. + c['dx'], 60. + c['dy']
    shape = c['shape']
    from tractor.brightness import Flux, LinearPhotoCal
    from tractor.galaxy import ExpGalaxy, DevGalaxy
    from tractor.sersic import SersicGalaxy, SersicIndex
    w = gen.build_wcs(wcs)
    pos = w.pixelToPosition(x, y)
    sh = gen.build_shape(shape, wcs['pixscale'])
    n = {'exp': 1., 'dev': 4., 'ser': c['n']}[k]
    s = {'exp': lambda: ExpGalaxy(pos, Flux(c['flux']), sh), 'dev': lambda: DevGalaxy(pos, Flux(c['flux']), sh),
         'ser': lambda: SersicGalaxy(pos, Flux(c['flux']), sh, SersicIndex(c['n']))}[k]()
    img = Image(data=np.zeros((H, W), np.float32), inverr=np.ones((H, W), np.float32), psf=NCircularGaussianPSF([0.5], [1.]), wcs=w,
                sky=ConstantSky(0.), photocal=LinearPhotoCal(1.))
    p = s.getModelPatch(img, modelMask=ModelMask(0, 0, W, H))
    require(p is not None, 'galaxy in the middle of the image has no model')
    full = np.zeros((H, W))
    p.addTo(full)
    C = ref.shape_cov(shape, wcs)
    ci = np.linalg.inv(C)
    # fine sampling of each pixel
    f = (np.arange(5) - 2.) / 5.
    fy, fx = np.meshgrid(f, f)
    yy, xx = np.mgrid[:H, :W]
    for q in c['q']:
        inside = np.zeros((H, W))
        for a, b in zip(fx.ravel(), fy.ravel()):
            dx, dy = xx + a - x, yy + b - y
            inside += (ci[0, 0] * dx**2 + 2 * ci[0, 1] * dx * dy + ci[1, 1] * dy**2 <= q * q)
        got = (full * inside / 25.).sum() / c['flux']
        want = growth(n, q)
        close(got, want, 0.03, 0., '%s n=%s: fraction of the light inside %s half-light ellipses' % (k, n, q))
    ctx.tag(k)
    ctx.nt(shape['ab'] < 0.8)


near = st.one_of(pick(*JOINS), fl(0.2, 7., 3), fl(0.29, 1., 4))
index = st.one_of(near, st.tuples(pick(*JOINS), pick(-1e-9, 1e-9, -1e-4, 1e-4, -0.003, 0.003)).map(lambda t: t[0] + t[1]), pick(-1., 0., 0.1, 8., 20.))
SUBS = [
    Sub('sweep', st.fixed_dictionaries(dict(seed=gen.seeds, N=st.integers(60, 200))), check_sweep, 24, 800, shards=2, doc='the whole range of indices against the Sersic law'),
    Sub('law', st.fixed_dictionaries(dict(n=index, dn=pick(1e-12, -1e-12, 1e-6, -1e-6, 1e-3, -1e-3, 0.01, -0.01, 0.05), hist=lst(near, 0, 8))), check_law, quick=1200, thorough=30000, shards=2),
    Sub('named', st.fixed_dictionaries(dict(r=lst(st.one_of(fl(0., 9., 3), pick(1., 3., 4., 7., 8.)), 1, 8))), check_named, quick=300, thorough=5000),
    Sub('galaxy', st.fixed_dictionaries(dict(kind=pick('exp', 'dev', 'ser', 'ser'), n=st.one_of(fl(0.3, 6.2, 2), pick(*JOINS)), flux=pick(1., 100., 1e4),
                                             wcs=gen.wcs_spec(), dx=fl(-1., 1., 2), dy=fl(-1., 1., 2), q=lst(fl(0.8, 2.5, 1), 1, 2),
                                             shape=gen.shape_spec(rmin=10., rmax=14.).filter(lambda s: s['ab'] >= 0.4))), check_galaxy, quick=250, thorough=5000, shards=2),
]
