"""C16: world coordinates: sky <-> pixel maps, windows, local scale."""
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close
from .gen import fl, pick, lst

PROP = 'C16'
RULE = ('A case is a TAN world coordinate system (any RA, |Dec|<=80, scale 0.26-3 arcsec/pixel, any rotation and parity) '
        'or the pixel-identity system, a pixel point and a window offset. Non-trivial: rotated or flipped system (or '
        'non-zero pixel offsets) with a non-zero window offset.')
ASSUMPTIONS = ['fields below one degree, away from the poles']


def tan_ref_pix2rd(s, x, y):
    """Independent gnomonic deprojection; x,y zero-indexed pixels of the full image."""
    ps = s['pixscale'] / 3600.
    th = np.deg2rad(s['rot'])
    f = -1. if s['flip'] else 1.
    cd = ps * np.dot(np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]), np.diag([f, 1.]))
    u, v = x + 1. - s['cx'], y + 1. - s['cy']
    xi, eta = np.deg2rad(cd.dot([u, v]))
    a0, d0 = np.deg2rad(s['ra']), np.deg2rad(s['dec'])
    rho = np.hypot(xi, eta)
    if rho == 0:
        return s['ra'], s['dec'], cd
    c = np.arctan(rho)
    dec = np.arcsin(np.cos(c) * np.sin(d0) + eta * np.sin(c) * np.cos(d0) / rho)
    ra = a0 + np.arctan2(xi * np.sin(c), rho * np.cos(d0) * np.cos(c) - eta * np.sin(d0) * np.sin(c))
    return np.rad2deg(ra) % 360., np.rad2deg(dec), cd


def dra(a, b):
    return (a - b + 180.) % 360. - 180.


def fits_spec():
    return st.fixed_dictionaries(dict(
        t=st.just('fits'), ra=fl(0., 359.9, 1), dec=fl(-80, 80, 1), pixscale=pick(0.262, 0.4, 1., 2.75),
        rot=fl(0, 360, 0), flip=st.booleans(), cx=fl(-20, 80, 1), cy=fl(-20, 80, 1),
        x0=st.integers(-30, 40), y0=st.integers(-30, 40)))


def same_pos(p, ra, dec, tol, what):
    require(abs(dra(p.ra, ra)) * np.cos(np.deg2rad(dec)) < tol and abs(p.dec - dec) < tol,
            lambda: '%s: got (%.10f,%.10f), expected (%.10f,%.10f)' % (what, p.ra, p.dec, ra, dec))


def judge(w, s, x0, y0, x, y, what, scale=1.):
    """w must map pixel (x,y) to the sky point that the full image's TAN header gives for pixel (x+x0, y+y0)"""
    from tractor.wcs import RaDecPos
    ps = s['pixscale'] / 3600.
    ra, dec, cd = tan_ref_pix2rd(s, x + x0, y + y0)
    tol = ps * 1e-5
    if hasattr(w, 'pixelToPosition'):
        same_pos(w.pixelToPosition(x, y), ra, dec, tol, what + ': pixel to sky')
        q = w.positionToPixel(w.pixelToPosition(x, y))
        close(np.array(q), np.array([x, y], float), 1e-5, 0., what + ': round trip')
    p = w.positionToPixel(RaDecPos(ra, dec))
    close(np.array(p), np.array([x, y], float), 1e-5, 0., what + ': sky to pixel')
    # local scale: one pixel along x moves the sky by CD[:,0]
    M = np.array(w.cdAtPixel(x, y))
    J = np.zeros((2, 2))
    h = 0.5
    for k, (a, b) in enumerate(((h, 0), (0, h))):
        r1, d1, _ = tan_ref_pix2rd(s, x + x0 + a, y + y0 + b)
        r2, d2, _ = tan_ref_pix2rd(s, x + x0 - a, y + y0 - b)
        J[0, k] = dra(r1, r2) * np.cos(np.deg2rad(dec))
        J[1, k] = d1 - d2
    # the TAN header's constant matrix is the true Jacobian up to the rotation between north at the reference point and
    # here: compare in those terms (distance from the reference point matters near the poles)
    dist = np.hypot(x + x0 - s['cx'], y + y0 - s['cy']) * np.deg2rad(ps)
    slack = 3. * dist * (1. + abs(np.tan(np.deg2rad(s['dec'])))) + 1e-4
    close(M, J, ps * slack, 0., what + ': CD matrix vs local Jacobian')
    if hasattr(w, 'cdInverseAtPixel'):
        close(np.array(w.cdInverseAtPixel(x, y)).dot(M), np.eye(2), 1e-8, 0., what + ': inverse CD matrix')
    if hasattr(w, 'cdInverseAtPosition'):
        close(np.array(w.cdInverseAtPosition(RaDecPos(ra, dec))).dot(M), np.eye(2), 1e-6, 0., what + ': inverse CD at position')
    if hasattr(w, 'pixscale_at'):
        close(w.pixscale_at(x, y), s['pixscale'], 0., 1e-4, what + ': pixel scale')


def check_fits(c, ctx):
    from tractor.wcs import ConstantFitsWcs
    from tractor.shifted import ShiftedWcs
    from tractor.basics import TractorWCSWrapper
    s = c['wcs']
    x, y = c['x'], c['y']
    x0, y0 = s['x0'], s['y0']
    sx, sy = c['sx'], c['sy']
    w = gen.build_wcs(s, 100, 100)
    ctx.nt((s['rot'] % 90 != 0 or s['flip']) and (sx or sy) and (x0 or y0))
    judge(w, s, x0, y0, x, y, 'offset WCS')
    require(tuple(w.getX0Y0()) == (x0, y0), 'getX0Y0')
    w2 = w.shifted(sx, sy)
    judge(w2, s, x0 + sx, y0 + sy, x, y, 'shifted')
    judge(w2.shifted(3, -2), s, x0 + sx + 3, y0 + sy - 2, x, y, 'shifted twice')
    judge(w, s, x0, y0, x, y, 'original after shifting')
    cp = w.copy()
    judge(cp, s, x0, y0, x, y, 'copy')
    cp.setX0Y0(x0 + 7, y0 - 5)
    judge(w, s, x0, y0, x, y, 'original after changing a copy')
    judge(cp, s, x0 + 7, y0 - 5, x, y, 'after setX0Y0')
    judge(ShiftedWcs(w, sx, sy), s, x0 + sx, y0 + sy, x, y, 'ShiftedWcs')
    judge(ShiftedWcs(ShiftedWcs(w, sx, sy), 2, 5), s, x0 + sx + 2, y0 + sy + 5, x, y, 'ShiftedWcs twice')
    judge(ShiftedWcs(w, sx, sy).shifted(2, 5), s, x0 + sx + 2, y0 + sy + 5, x, y, 'ShiftedWcs shifted')
    # astrometry-style wrapper: FITS (1-indexed) pixels
    wr = TractorWCSWrapper(w, 100, 100)
    ra, dec, _ = tan_ref_pix2rd(s, x + x0, y + y0)
    r, d = wr.pixelxy2radec(x + 1., y + 1.)
    require(abs(dra(r, ra)) < 1e-7 / np.cos(np.deg2rad(dec)) and abs(d - dec) < 1e-7, 'wrapper pixelxy2radec')
    ok, a, b = wr.radec2pixelxy(ra, dec)
    close(np.array([a, b], float).ravel(), np.array([x + 1., y + 1.]), 1e-5, 0, 'wrapper radec2pixelxy')
    ra2, dec2, _ = tan_ref_pix2rd(s, x + x0 + 3, y + y0 - 2)
    ok, a, b = wr.radec2pixelxy(np.array([ra, ra2]), np.array([dec, dec2]))
    close(np.asarray(a, float), np.array([x + 1., x + 4.]), 1e-5, 0, 'wrapper radec2pixelxy, vector')
    close(np.asarray(b, float), np.array([y + 1., y - 1.]), 1e-5, 0, 'wrapper radec2pixelxy, vector')
    # the same, for a cutout starting at (sx, sy): and with one dimension broadcast
    wr = TractorWCSWrapper(w, 100, 100, x0=sx, y0=sy)
    r, d = wr.pixelxy2radec(x + 1. - sx, y + 1. - sy)
    require(abs(dra(r, ra)) < 1e-7 / np.cos(np.deg2rad(dec)) and abs(d - dec) < 1e-7, 'cutout wrapper pixelxy2radec')
    ok, a, b = wr.radec2pixelxy(ra, dec)
    close(np.array([a, b], float).ravel(), np.array([x + 1. - sx, y + 1. - sy]), 1e-5, 0, 'cutout wrapper radec2pixelxy')
    ok, a, b = wr.radec2pixelxy(np.array([ra, ra2]), np.array([dec, dec2]))
    close(np.asarray(a, float), np.array([x + 1., x + 4.]) - sx, 1e-5, 0, 'cutout wrapper radec2pixelxy, vector')
    close(np.asarray(b, float), np.array([y + 1., y - 1.]) - sy, 1e-5, 0, 'cutout wrapper radec2pixelxy, vector')
    ok, a, b = wr.radec2pixelxy(np.array([ra, ra2, ra]), dec)
    require(np.shape(a) == (3,) and np.shape(b) == (3,), 'wrapper radec2pixelxy, broadcast')
    close(np.asarray(a, float)[[0, 2]], np.array([x + 1., x + 1.]) - sx, 1e-5, 0, 'wrapper radec2pixelxy, broadcast')


def check_scaled(c, ctx):
    """ScaledWcs: pixel (x,y) of the rescaled image; pixel edges, not centres, scale"""
    from tractor.shifted import ScaledWcs
    from tractor.wcs import RaDecPos
    s = c['wcs']
    w = gen.build_wcs(s, 100, 100)
    f = c['factor']
    sw = ScaledWcs(w, f)
    x, y = c['x'], c['y']
    ra, dec, cd = tan_ref_pix2rd(s, x + s['x0'], y + s['y0'])
    p = sw.positionToPixel(RaDecPos(ra, dec))
    want = np.array([(x + 0.5) * f - 0.5, (y + 0.5) * f - 0.5])
    close(np.array(p), want, 1e-5 * max(1, f), 0, 'scaled sky to pixel')
    close(np.array(sw.cdAtPixel(*want)), cd / f, 1e-12, 1e-9, 'scaled CD matrix')
    close(np.array(sw.cdInverseAtPixel(*want)).dot(cd / f), np.eye(2), 1e-9, 0, 'scaled inverse CD matrix')
    close(sw.pixscale_at(*want), s['pixscale'] / f, 0., 1e-6, 'scaled pixel scale')

    # a system whose matrix varies: the matrix must be taken at the right place
    class Vary(object):
        def cdAtPixel(self, x, y):
            return np.array([[1. + 0.01 * x, 0.02 * y], [0.001 * x, 2. + 0.03 * y]])
    vw = ScaledWcs(Vary(), f)
    close(vw.cdAtPixel(*want), Vary().cdAtPixel(x, y) / f, 1e-9, 1e-9, 'scaled CD matrix of a varying system')
    ctx.nt(f != 1 and x != y)


def check_null(c, ctx):
    from tractor.wcs import NullWCS, PixPos
    w = NullWCS(pixscale=c['ps'], dx=c['dx'], dy=c['dy'])
    x, y, sx, sy = c['x'], c['y'], c['sx'], c['sy']
    ctx.nt((sx or sy) and (c['dx'] or c['dy']) and c['ps'] != 1.)

    def judge_null(w, dx, dy, what):
        close(np.array(w.positionToPixel(PixPos(x, y))), np.array([x + dx, y + dy]), 1e-12, 0, what)
        close(np.array(w.positionToPixel(w.pixelToPosition(x, y))), np.array([x, y]), 1e-9, 0, what + ' round trip')
        close(np.array(w.cdAtPixel(x, y)), np.eye(2) * c['ps'] / 3600., 0, 1e-12, what + ' CD')
        close(np.array(w.cdInverseAtPixel(x, y)), np.eye(2) * 3600. / c['ps'], 0, 1e-12, what + ' inverse CD')
        close(w.pixscale_at(x, y), c['ps'], 0, 1e-12, what + ' pixel scale')
    judge_null(w, c['dx'], c['dy'], 'null')
    judge_null(w.shifted(sx, sy), c['dx'] - sx, c['dy'] - sy, 'null shifted')
    judge_null(w.shifted(sx, sy).shifted(1, 2), c['dx'] - sx - 1, c['dy'] - sy - 2, 'null shifted twice')
    judge_null(w.copy(), c['dx'], c['dy'], 'null copy')
    w2 = w.copy()
    w2.setPixscale(7.)
    judge_null(w, c['dx'], c['dy'], 'null after changing a copy')


def check_pos(c, ctx):
    """Angular distance between sky positions; step sizes are the same angle in both directions"""
    from tractor.wcs import RaDecPos
    p = RaDecPos(c['ra'], c['dec'])
    q = RaDecPos(c['ra'] + c['dr'] / max(0.05, np.cos(np.deg2rad(c['dec']))), c['dec'] + c['dd'])
    v = []
    for o in (p, q):
        a, d = np.deg2rad(o.ra), np.deg2rad(o.dec)
        v.append(np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)]))
    ang = np.rad2deg(2. * np.arcsin(0.5 * np.linalg.norm(v[0] - v[1])))
    close(float(np.ravel(p.distanceFrom(q))[0]), ang, 1e-7, 1e-6, 'angular distance')
    close(float(np.ravel(q.distanceFrom(p))[0]), ang, 1e-7, 1e-6, 'angular distance (symmetric)')
    st_ = p.getStepSizes()
    close(st_[0] * np.cos(np.deg2rad(c['dec'])), st_[1], 0, 1e-9, 'step sizes in RA and Dec')
    ctx.nt(abs(c['dec']) > 20 and c['dr'] != 0)


SUBS = [
    Sub('fits', st.fixed_dictionaries(dict(wcs=fits_spec(), x=fl(-20, 80, 2), y=fl(-20, 80, 2), sx=st.integers(-20, 20),
                                           sy=st.integers(-20, 20))), check_fits, quick=1500, thorough=30000, shards=3,
        doc='TAN systems with offsets: vs an independent gnomonic projection'),
    Sub('scaled', st.fixed_dictionaries(dict(wcs=fits_spec(), x=fl(-20, 80, 2), y=fl(-20, 80, 2),
                                             factor=pick(0.25, 0.5, 2., 3., 1.))), check_scaled, quick=500, thorough=10000),
    Sub('null', st.fixed_dictionaries(dict(ps=pick(1., 0.5, 2., 0.262), dx=fl(-9, 9, 1), dy=fl(-9, 9, 1), x=fl(-20, 80, 2),
                                           y=fl(-20, 80, 2), sx=st.integers(-9, 9), sy=st.integers(-9, 9))),
        check_null, quick=500, thorough=5000),
    Sub('pos', st.fixed_dictionaries(dict(ra=fl(0, 360, 2), dec=fl(-85, 85, 2), dr=fl(-2, 2, 3), dd=fl(-2, 2, 3))),
        check_pos, quick=500, thorough=5000),
]
