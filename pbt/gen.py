"""Generators of plain-data specs, and builders of real tractor objects.

Every strategy here yields JSON-able data; every build_* function turns it into
real objects of the code under test.  Nothing here judges anything.
"""
import numpy as np
from hypothesis import strategies as st


# ---------------------------------------------------------------- primitives

def fl(lo, hi, nd=3):
    """Near-uniform floats with nd decimals (shrinks towards lo, or 0)."""
    s = 10 ** nd
    return st.integers(int(round(lo * s)), int(round(hi * s))).map(lambda i: i / float(s))


def pick(*xs):
    return st.sampled_from(list(xs))


def lst(s, n0, n1=None):
    return st.lists(s, min_size=n0, max_size=n0 if n1 is None else n1)


seeds = st.integers(0, 9999)


def rng(seed):
    return np.random.RandomState(seed)


# ---------------------------------------------------------------- mixtures

def cov_spec(smin=0.7, smax=4.):
    """[sx, sy, rho]"""
    return st.tuples(fl(smin, smax, 2), fl(smin, smax, 2),
                     fl(-0.9, 0.9, 2)).map(list)


def cov_of(c):
    sx, sy, rho = c
    return np.array([[sx * sx, rho * sx * sy], [rho * sx * sy, sy * sy]])


@st.composite
def mog_spec(draw, kmax=4, smin=0.7, smax=4., off=2., neg=False):
    k = draw(st.integers(1, kmax))
    amp = [draw(fl(-1.5 if (neg and i) else 0.1, 2., 2)) for i in range(k)]
    mean = [[draw(fl(-off, off, 2)), draw(fl(-off, off, 2))] for i in range(k)]
    cov = [draw(cov_spec(smin, smax)) for i in range(k)]
    return dict(amp=amp, mean=mean, cov=cov)


def mog_arrays(spec):
    return (np.array(spec['amp'], float), np.array(spec['mean'], float),
            np.array([cov_of(c) for c in spec['cov']]))


def build_mog(spec):
    from tractor.mixture_profiles import MixtureOfGaussians
    a, m, v = mog_arrays(spec)
    return MixtureOfGaussians(a, m, v)


def ref_mog(amp, mean, var, xx, yy):
    """Sum of normalised 2-d Gaussians at points xx,yy: plain numpy, float64."""
    out = np.zeros(np.broadcast(xx, yy).shape)
    for a, m, v in zip(np.atleast_1d(amp), mean, var):
        v = np.asarray(v, float)
        det = v[0, 0] * v[1, 1] - v[0, 1] * v[1, 0]
        dx = xx - m[0]
        dy = yy - m[1]
        q = (v[1, 1] * dx * dx - (v[0, 1] + v[1, 0]) * dx * dy + v[0, 0] * dy * dy) / det
        out = out + a * np.exp(-0.5 * q) / (2. * np.pi * np.sqrt(det))
    return out


# ---------------------------------------------------------------- PSFs

def psf_spec(kinds=('ncirc', 'mog', 'mogell', 'pix', 'hybrid', 'norm'), unit=True):
    s = []
    if 'ncirc' in kinds:
        s.append(st.fixed_dictionaries(dict(
            t=st.just('ncirc'), sig=st.tuples(fl(0.8, 2., 2), fl(2., 4., 2)).map(list),
            w=fl(0.05, 0.95, 2), k=st.integers(1, 2))))
    if 'mog' in kinds:
        s.append(st.fixed_dictionaries(dict(
            t=st.just('mog'), mog=mog_spec(kmax=3, smin=0.9, smax=2.5, off=0.3))))
    if 'mogell' in kinds:
        s.append(st.fixed_dictionaries(dict(
            t=st.just('mogell'), amp=lst(fl(0.2, 1., 2), 1, 2),
            ell=lst(st.tuples(fl(0., 0.9, 2), fl(-0.5, 0.5, 2), fl(-0.5, 0.5, 2)).map(list), 2))))
    for k in ('pix', 'hybrid', 'norm'):
        if k in kinds:
            s.append(st.fixed_dictionaries(dict(
                t=st.just(k), hs=st.integers(7, 12), sig=fl(1., 2., 2),
                e=fl(-0.3, 0.3, 2), halo=fl(0., 0.2, 2),
                skew=st.booleans())))
    return st.one_of(s)


def psf_stamp(spec):
    """The postage stamp of a pixelized PSF spec: normalised, odd-sized."""
    hs = spec['hs']
    xx, yy = np.meshgrid(np.arange(-hs, hs + 1), np.arange(-hs, hs + 1))
    s = spec['sig']
    v0 = np.array([[s * s * (1. + spec['e']), 0.3 * spec['e'] * s * s],
                   [0.3 * spec['e'] * s * s, s * s * (1. - spec['e'])]])
    m1 = (0.4, -0.3) if spec.get('skew') else (0., 0.)
    img = ref_mog([1. - spec['halo'], spec['halo']], [(0., 0.), m1],
                  [v0, np.eye(2) * (s * 1.6)**2], xx, yy)
    return (img / img.sum()).astype(np.float32)


def build_psf(spec):
    from tractor.psf import (NCircularGaussianPSF, GaussianMixturePSF,
                             GaussianMixtureEllipsePSF, PixelizedPSF,
                             HybridPixelizedPSF, NormalizedPixelizedPsf)
    t = spec['t']
    if t == 'ncirc':
        if spec['k'] == 1:
            return NCircularGaussianPSF([spec['sig'][0]], [1.])
        return NCircularGaussianPSF(list(spec['sig']), [spec['w'], 1. - spec['w']])
    if t == 'mog':
        a, m, v = mog_arrays(spec['mog'])
        return GaussianMixturePSF(a / a.sum(), m, v)
    if t == 'mogell':
        from tractor.ellipses import EllipseESoft
        a = np.array(spec['amp'])
        k = len(a)
        return GaussianMixtureEllipsePSF(a / a.sum(), np.zeros((k, 2)),
                                         [EllipseESoft(*e) for e in spec['ell'][:k]])
    img = psf_stamp(spec)
    if t == 'pix':
        return PixelizedPSF(img)
    if t == 'norm':
        # (the class promises to normalise)
        return NormalizedPixelizedPsf(img * np.float32(2.5))
    if t == 'hybrid':
        s = spec['sig']
        g = GaussianMixturePSF(np.array([1. - spec['halo'], spec['halo']]), np.zeros((2, 2)),
                               np.array([np.eye(2) * s**2, np.eye(2) * (1.6 * s)**2]))
        return HybridPixelizedPSF(PixelizedPSF(img), g)
    raise ValueError(t)


def psf_is_mog(spec):
    return spec['t'] in ('ncirc', 'mog', 'mogell')


# ---------------------------------------------------------------- WCS

def wcs_spec(kinds=('null', 'fits'), offsets=True):
    s = []
    if 'null' in kinds:
        s.append(st.fixed_dictionaries(dict(
            t=st.just('null'), pixscale=pick(1., 0.5, 2., 0.262),
            dx=fl(-3, 3, 1) if offsets else st.just(0.),
            dy=fl(-3, 3, 1) if offsets else st.just(0.))))
    if 'fits' in kinds:
        s.append(st.fixed_dictionaries(dict(
            t=st.just('fits'), ra=fl(0.5, 359.5, 1), dec=fl(-70, 70, 1),
            pixscale=pick(0.262, 0.4, 1., 2.75), rot=fl(0, 360, 0), flip=st.booleans(),
            cx=fl(0, 60, 1), cy=fl(0, 60, 1),
            x0=st.integers(-5, 40), y0=st.integers(-5, 40))))
    return st.one_of(s)


def tan_of(spec, W=100, H=100):
    from astrometry.util.util import Tan
    ps = spec['pixscale'] / 3600.
    th = np.deg2rad(spec['rot'])
    f = -1. if spec['flip'] else 1.
    cd = ps * np.dot(np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]),
                     np.diag([f, 1.]))
    return Tan(float(spec['ra']), float(spec['dec']), float(spec['cx']), float(spec['cy']),
               float(cd[0, 0]), float(cd[0, 1]), float(cd[1, 0]), float(cd[1, 1]),
               float(W), float(H))


def build_wcs(spec, W=100, H=100):
    from tractor.wcs import NullWCS, ConstantFitsWcs
    if spec['t'] == 'null':
        return NullWCS(pixscale=spec['pixscale'], dx=spec['dx'], dy=spec['dy'])
    w = ConstantFitsWcs(tan_of(spec, W, H))
    if spec['x0'] or spec['y0']:
        w.setX0Y0(spec['x0'], spec['y0'])
    return w


# ---------------------------------------------------------------- brightness

BANDS = ('g', 'r', 'z')
# brightness systems: which Brightness and which PhotoCal classes are paired
SYSTEMS = ('flux', 'fluxlin', 'fluxes', 'nmgy', 'mags')


def photocal_spec():
    return st.fixed_dictionaries(dict(scale=fl(0.2, 5., 2), zp=fl(21., 24., 2),
                                      band=pick(*BANDS)))


def build_photocal(system, spec):
    from tractor.brightness import (NullPhotoCal, LinearPhotoCal, FluxesPhotoCal,
                                    MagsPhotoCal)
    if system == 'flux':
        return NullPhotoCal()
    if system == 'fluxlin':
        return LinearPhotoCal(spec['scale'])
    if system == 'fluxes':
        return FluxesPhotoCal(spec['band'])
    if system == 'nmgy':
        return LinearPhotoCal(spec['scale'], band=spec['band'])
    if system == 'mags':
        return MagsPhotoCal(spec['band'], spec['zp'])
    raise ValueError(system)


def build_brightness(system, fluxes, order=None):
    """fluxes: one positive number per band (only the first one for the
    single-number systems)"""
    from tractor.brightness import Flux, Fluxes, NanoMaggies, Mags
    if system in ('flux', 'fluxlin'):
        return Flux(fluxes[0])
    order = list(order or BANDS)
    kw = dict(zip(order, fluxes))
    if system == 'fluxes':
        return Fluxes(order=order, **kw)
    if system == 'nmgy':
        return NanoMaggies(order=order, **kw)
    if system == 'mags':
        return Mags(order=order, **dict((b, float(22.5 - 2.5 * np.log10(max(f, 1e-3)))) for b, f in kw.items()))
    raise ValueError(system)


def ref_counts(system, pc, fluxes, order=None):
    """Expected counts of a brightness built by build_brightness."""
    order = list(order or BANDS)
    if system == 'flux':
        return fluxes[0]
    if system == 'fluxlin':
        return fluxes[0] * pc['scale']
    f = dict(zip(order, fluxes))[pc['band']]
    if system == 'fluxes':
        return f
    if system == 'nmgy':
        return f * pc['scale']
    if system == 'mags':
        return max(f, 1e-3) * 10.**(0.4 * (pc['zp'] - 22.5))


# ---------------------------------------------------------------- shapes

def shape_spec(kinds=('e', 'soft', 'galshape'), rmin=0.3, rmax=4.):
    """re in pixels, axis ratio, position angle"""
    return st.fixed_dictionaries(dict(t=pick(*kinds), re=fl(rmin, rmax, 2),
                                      ab=fl(0.2, 1., 2), phi=fl(-180, 180, 0)))


def build_shape(spec, pixscale=1.):
    from tractor.ellipses import EllipseE, EllipseESoft
    from tractor.galaxy import GalaxyShape
    r = spec['re'] * pixscale
    if spec['t'] == 'e':
        return EllipseE.fromRAbPhi(r, spec['ab'], spec['phi'])
    if spec['t'] == 'soft':
        return EllipseESoft.fromRAbPhi(r, spec['ab'], spec['phi'])
    return GalaxyShape(r, spec['ab'], spec['phi'])


# ---------------------------------------------------------------- sources

SRCTYPES = ('ptsrc', 'gauss', 'exp', 'dev', 'sersic', 'comp', 'fcomp',
            'devcore', 'sercore')


def flux_spec():
    """mostly ordinary fluxes; also negative, zero, unit, tiny and huge ones (magnitude systems take at least 1e-3)"""
    return st.one_of(fl(5., 200., 1), fl(5., 200., 1), fl(5., 200., 1), fl(-50., 200., 1), pick(0., 1., -1., 1e-3, 2e4))


def source_spec(types=SRCTYPES, W=32, H=32, margin=4., shapes=('e', 'soft', 'galshape'),
                rmax=4., flux=None):
    return st.fixed_dictionaries(dict(
        t=pick(*types),
        x=fl(-margin, W + margin, 2), y=fl(-margin, H + margin, 2),
        flux=lst(flux or flux_spec(), 3),
        flux2=lst(flux or flux_spec(), 3),
        shape=shape_spec(shapes, rmax=rmax), shape2=shape_spec(shapes, rmax=rmax),
        n=fl(0.5, 5., 2), frac=fl(0.05, 0.95, 2), soft=st.booleans()))


def build_position(wcs, x, y):
    """The sky position that lands on pixel x,y of this (base) WCS."""
    from tractor.wcs import NullWCS, PixPos
    if isinstance(wcs, NullWCS):
        return PixPos(x - wcs.dx, y - wcs.dy)
    return wcs.pixelToPosition(x, y)


def build_source(spec, system, wcs, pixscale=1., pos=None):
    from tractor.pointsource import PointSource
    from tractor.galaxy import (GaussianGalaxy, ExpGalaxy, DevGalaxy, CompositeGalaxy,
                                FixedCompositeGalaxy, FracDev, SoftenedFracDev)
    from tractor.sersic import SersicGalaxy, SersicIndex
    from tractor.devcore import DevCoreGalaxy
    from tractor.sercore import SersicCoreGalaxy
    if pos is None:
        pos = build_position(wcs, spec['x'], spec['y'])
    b = build_brightness(system, spec['flux'])
    b2 = build_brightness(system, spec['flux2'])
    s1 = build_shape(spec['shape'], pixscale)
    s2 = build_shape(spec['shape2'], pixscale)
    t = spec['t']
    if t == 'ptsrc':
        return PointSource(pos, b)
    if t == 'gauss':
        return GaussianGalaxy(pos, b, s1)
    if t == 'exp':
        return ExpGalaxy(pos, b, s1)
    if t == 'dev':
        return DevGalaxy(pos, b, s1)
    if t == 'sersic':
        return SersicGalaxy(pos, b, s1, SersicIndex(spec['n']))
    if t == 'comp':
        return CompositeGalaxy(pos, b, s1, b2, s2)
    if t == 'fcomp':
        f = SoftenedFracDev(spec['frac']) if spec['soft'] else FracDev(spec['frac'])
        return FixedCompositeGalaxy(pos, b, f, s1, s2)
    if t == 'devcore':
        return DevCoreGalaxy(pos, b, s1, b2)
    if t == 'sercore':
        return SersicCoreGalaxy(pos, b, s1, SersicIndex(spec['n']), b2)
    if t == 'csb':
        from tractor.basics import ConstantSurfaceBrightness
        return ConstantSurfaceBrightness(b)
    raise ValueError(t)


# ---------------------------------------------------------------- images

def sky_spec(kinds=('null', 'const')):
    return st.fixed_dictionaries(dict(t=pick(*kinds), val=fl(-20, 20, 1)))


def spline_spec(order=(1, 2, 3)):
    return st.fixed_dictionaries(dict(nx=st.one_of(st.integers(4, 6), st.integers(4, 6), st.integers(4, 14)), ny=st.one_of(st.integers(4, 7), st.integers(4, 7), st.integers(4, 14)), order=pick(*order), seed=seeds, frac=st.booleans(),
                                      lo=fl(-3, 3, 1), amp=pick(0., 1., 10., 100.), lev=fl(-50, 50, 1)))


def spline_grid(spec, W, H):
    """control points and values"""
    r = rng(spec['seed'])
    X = spec['lo'] + np.cumsum(np.append(0., r.uniform(0.5, 1.5, size=spec['nx'] - 1))) * W / float(spec['nx'] - 1)
    Y = -spec['lo'] + np.cumsum(np.append(0., r.uniform(0.5, 1.5, size=spec['ny'] - 1))) * H / float(spec['ny'] - 1)
    if not spec['frac']:
        X, Y = np.cumsum(np.maximum(1, np.diff(X, prepend=0).astype(int))), np.cumsum(np.maximum(1, np.diff(Y, prepend=0).astype(int)))
    return X, Y, spec['lev'] + spec['amp'] * r.normal(size=(len(Y), len(X)))


def build_spline(spec, W, H):
    from tractor.splinesky import SplineSky
    X, Y, v = spline_grid(spec, W, H)
    return SplineSky(X, Y, v, order=spec['order'])


def build_sky(spec, W=None, H=None):
    from tractor.sky import NullSky, ConstantSky
    if spec['t'] == 'null':
        return NullSky()
    if spec['t'] == 'spline':
        s = int(abs(spec['val']) * 10)
        sky = build_spline(dict(nx=4, ny=4 + s % 2, order=3, seed=s, frac=bool(s % 3), lo=0., amp=5., lev=spec['val']), W, H)
        if s % 5:
            sky.setPriorSmoothness(3.)
        return sky
    return ConstantSky(spec['val'])


def image_spec(W=None, H=None, psfs=('ncirc', 'mog', 'mogell', 'pix', 'hybrid', 'norm'),
               wcs=('null', 'fits'), skies=('null', 'const'), wmin=12, wmax=40):
    return st.fixed_dictionaries(dict(
        W=st.integers(wmin, wmax) if W is None else st.just(W),
        H=st.integers(wmin, wmax) if H is None else st.just(H),
        psf=psf_spec(psfs), wcs=wcs_spec(wcs), pc=photocal_spec(), sky=sky_spec(skies),
        seed=seeds, sig=fl(0.5, 5., 1), mask=pick('none', 'none', 'pix', 'half', 'all')))


def image_arrays(spec):
    """data, inverr (float64)"""
    r = rng(spec['seed'])
    H, W = spec['H'], spec['W']
    data = r.normal(size=(H, W)) * spec['sig']
    ie = np.ones((H, W)) / spec['sig']
    m = spec['mask']
    if m == 'pix':
        ie[r.uniform(size=(H, W)) < 0.2] = 0.
    elif m == 'half':
        ie[:, :W // 2] = 0.
    elif m == 'all':
        ie[:, :] = 0.
    return data, ie


def build_image(spec, system='flux', wcs=None, psf=None):
    from tractor.image import Image
    data, ie = image_arrays(spec)
    return Image(data=data, inverr=ie, psf=psf or build_psf(spec['psf']),
                 wcs=wcs or build_wcs(spec['wcs'], spec['W'], spec['H']),
                 photocal=build_photocal(system, spec['pc']),
                 sky=build_sky(spec['sky'], spec['W'], spec['H']), name='im')


# ---------------------------------------------------------------- worlds

@st.composite
def world_spec(draw, nim=(1, 2), nsrc=(1, 3), types=SRCTYPES, psfs=('ncirc', 'mog', 'pix', 'hybrid'),
               wcs=('null', 'fits'), systems=SYSTEMS, skies=('null', 'const'),
               wmin=12, wmax=36, rmax=4., margin=4.):
    """All images share one WCS family; sources are placed in pixel coords of
    image 0."""
    system = draw(pick(*systems))
    ims = draw(lst(image_spec(psfs=psfs, wcs=wcs, skies=skies, wmin=wmin, wmax=wmax), *nim))
    # one WCS family for all images: same reference point, different offsets
    for im in ims[1:]:
        w = dict(ims[0]['wcs'])
        if w['t'] == 'null':
            w['dx'] = draw(fl(-3, 3, 1))
            w['dy'] = draw(fl(-3, 3, 1))
        else:
            w['x0'] = w['x0'] + draw(st.integers(-4, 4))
            w['y0'] = w['y0'] + draw(st.integers(-4, 4))
        im['wcs'] = w
    srcs = draw(lst(source_spec(types, ims[0]['W'], ims[0]['H'], margin, rmax=rmax), *nsrc))
    return dict(system=system, ims=ims, srcs=srcs)


def build_world(w, optimizer=None):
    """Tractor with the images and sources of the spec."""
    from tractor.engine import Tractor
    ims = [build_image(i, w['system']) for i in w['ims']]
    srcs = [build_source(s, w['system'], ims[0].wcs, w['ims'][0]['wcs']['pixscale'])
            for s in w['srcs']]
    return Tractor(ims, srcs, optimizer=optimizer)
