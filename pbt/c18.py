"""C18: ellipse parameterisations describe the same ellipse."""
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close
from .gen import fl, pick, lst

PROP = 'C18'
RULE = ('A case is a radius, an axis ratio in (0.02,1], a position angle, a local pixel-to-sky matrix (rotated, flipped, '
        'sheared) and soft ellipticities up to |ee|=6. Non-trivial: axis ratio below 0.95.')


def cov_ref(r, ba, phi):
    """covariance (arcsec^2) in (RA,Dec): semi-major axis r along (-sin phi, cos phi), semi-minor r*ba across"""
    p = np.deg2rad(phi)
    u = np.array([-np.sin(p), np.cos(p)])
    v = np.array([np.cos(p), np.sin(p)])
    return r * r * (np.outer(u, u) + ba * ba * np.outer(v, v))


def check(c, ctx):
    from tractor.ellipses import EllipseE, EllipseESoft
    from tractor.galaxy import GalaxyShape
    r, ba, phi = c['r'], c['ba'], c['phi']
    ctx.nt(ba < 0.95)
    want = cov_ref(r, ba, phi)
    E = EllipseE.fromRAbPhi(r, ba, phi)
    S = EllipseESoft.fromRAbPhi(r, ba, phi)
    G = GalaxyShape(r, ba, phi)
    cd = np.array(c['cd']).reshape(2, 2)
    if abs(np.linalg.det(cd)) < 0.2:
        cd = cd + 3. * np.eye(2)
    if abs(np.linalg.det(cd)) < 0.2:
        cd = np.eye(2)
    cd = cd / 3600.
    for o, nm in ((E, 'EllipseE'), (S, 'EllipseESoft'), (G, 'GalaxyShape')):
        A = np.array(o.getRaDecBasis()) * 3600.
        close(A.dot(A.T), want, 1e-7 * r * r, 0, nm + ': ellipse from (r, b/a, phi)')
        close(o.re, r, 0, 1e-9, nm + ': radius')
        close(o.ab, ba, 1e-9, 1e-9, nm + ': axis ratio')
        T = np.array(o.getTensor(cd))
        # T takes pixel offsets to units of r_e: a point on the ellipse maps to the unit circle
        for t in np.linspace(0, 2 * np.pi, 7):
            p = np.deg2rad(phi)
            sky = r * (np.cos(t) * np.array([-np.sin(p), np.cos(p)]) + ba * np.sin(t) * np.array([np.cos(p), np.sin(p)]))
            pix = np.linalg.solve(cd * 3600., sky)
            close(np.linalg.norm(T.dot(pix)), 1., 1e-6, 0, nm + ': tensor maps the ellipse to the unit circle')
    e = (1. - ba) / (1. + ba)
    for o, nm in ((E, 'EllipseE'), (S, 'EllipseESoft')):
        close(o.e, e, 1e-9, 0, nm + ': ellipticity')
        require(o.isLegal(), nm + ' not legal')
        close(np.array(o.getCovariance()), want, 1e-7 * r * r, 0, nm + ': covariance')
        if ba < 0.999:
            close(np.cos(2 * (o.theta + np.deg2rad(phi))), 1., 1e-7, 0, nm + ': angle')
    close(E.e1, e * np.cos(2 * np.deg2rad(phi)), 1e-9, 0, 'e1')
    close(E.e2, -e * np.sin(2 * np.deg2rad(phi)), 1e-9, 0, 'e2')

    def same(o, w, what, tol=1e-6):
        close(np.array(o.getCovariance()), w, tol * r * r, 0, what)
    # conversions
    x = S.toEllipseE()
    require(type(x) is EllipseE, 'toEllipseE type')
    same(x, want, 'soft to plain')
    same(EllipseE.fromEllipseESoft(S), want, 'fromEllipseESoft')
    y = E.toEllipseE()
    require(y is not E and type(y) is EllipseE, 'toEllipseE makes a copy')
    same(y, want, 'plain to plain')
    z = EllipseESoft.fromEllipseE(E)
    require(type(z) is EllipseESoft, 'type')
    same(z, want, 'plain to soft')
    close(z.getParams(), S.getParams(), 1e-6, 1e-6, 'parameters, plain to soft')
    same(EllipseE.fromCovariance(want), want, 'plain from covariance', 1e-5)
    q = EllipseESoft.fromCovariance(want)
    require(type(q) is EllipseESoft, 'type')
    same(q, want, 'soft from covariance', 1e-5)
    same(EllipseE.fromRAbPhi(r, ba, phi + 180.), want, 'angle is defined modulo 180 degrees')
    close(EllipseESoft.rAbPhiToESoft(r, ba, phi), S.getParams(), 1e-12, 1e-12, 'rAbPhiToESoft')


def check_soft(c, ctx):
    """every value of the soft parameters is a legal ellipse"""
    from tractor.ellipses import EllipseE, EllipseESoft
    ee = np.hypot(c['ee1'], c['ee2'])
    ctx.nt(ee > 0.05)
    s = EllipseESoft(c['logr'], c['ee1'], c['ee2'])
    close(s.re, np.exp(c['logr']), 0, 1e-12, 'radius')
    close(s.softe, ee, 1e-12, 0, 'soft ellipticity')
    e = 1. - np.exp(-ee)
    close(s.e, e, 1e-12, 0, 'ellipticity')
    require(0. <= s.e < 1. and s.isLegal(), 'soft ellipse not legal')
    x = s.toEllipseE()
    require(x.isLegal(), 'converted ellipse not legal')
    close([x.re, x.e1, x.e2], [np.exp(c['logr']), e * c['ee1'] / max(ee, 1e-30), e * c['ee2'] / max(ee, 1e-30)], 2e-6, 1e-9,
          'conversion keeps direction and size')
    C = np.array(s.getCovariance())
    w = np.linalg.eigvalsh(C)
    r2 = np.exp(2 * c['logr'])
    ab = max((1 - e) / (1 + e), 1e-3)
    close(w, [r2 * ab**2, r2], r2 * 1e-9, 1e-6, 'axes')
    back = EllipseESoft.fromEllipseE(x)
    close(back.getParams(), [c['logr'], c['ee1'], c['ee2']], 1e-4, 1e-4, 'soft to plain to soft')
    # plain: legal inside the unit disc only
    p = EllipseE(1., c['e1'], c['e2'])
    require(bool(p.isLegal()) == (c['e1']**2 + c['e2']**2 < 1.), 'isLegal of %s' % p)
    require(not EllipseE(-0.5, 0., 0.).isLegal(), 'negative radius legal')


SUBS = [
    Sub('same', st.fixed_dictionaries(dict(r=fl(0.05, 30., 2), ba=fl(0.02, 1., 2), phi=fl(-200, 400, 0),
                                           cd=lst(fl(-2, 2, 2), 4))), check, quick=1200, thorough=20000, shards=2),
    Sub('soft', st.fixed_dictionaries(dict(logr=fl(-3, 4, 2), ee1=fl(-4, 4, 2), ee2=fl(-4, 4, 2), e1=fl(-1.2, 1.2, 2),
                                           e2=fl(-1.2, 1.2, 2))), check_soft, quick=1000, thorough=20000, shards=2),
]
