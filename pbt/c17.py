"""C17: brightness units: counts, magnitudes, fluxes, scale factors."""
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, require, close
from .gen import fl, pick, lst

PROP = 'C17'
RULE = ('A case is a set of 1-4 bands in random order with fluxes over 8 decades, a calibration and scale factors. '
        'Non-trivial: at least two bands and the band order is not alphabetical, or the brightness is negative/very faint.')

ALLB = ('g', 'r', 'i', 'z', 'W1')


def flux_val():
    return st.tuples(fl(1, 9.99, 2), st.integers(-4, 4), pick(1., 1., 1., -1.)).map(lambda t: t[0] * 10.**t[1] * t[2])


@st.composite
def spec(draw):
    bands = draw(st.permutations(ALLB))[:draw(st.integers(1, 4))]
    n = len(bands)
    return dict(bands=list(bands), f=[draw(flux_val()) for i in range(n)], f2=[draw(flux_val()) for i in range(n)],
                k=draw(st.integers(0, n - 1)), scale=draw(fl(0.01, 30., 2)), zp=draw(fl(15, 30, 2)),
                a=draw(fl(-5, 5, 2)), iv=draw(fl(0, 50, 2)))


def check(c, ctx):
    from tractor.brightness import (Flux, Fluxes, NanoMaggies, Mags, Mag, NullPhotoCal, LinearPhotoCal,
                                    FluxesPhotoCal, MagsPhotoCal)
    from tractor.shifted import ScaledPhotoCal
    B, f, f2, k = c['bands'], c['f'], c['f2'], c['k']
    b = B[k]
    ctx.nt((len(B) > 1 and B != sorted(B)) or min(f) < 0)
    ctx.tag('bands%d' % len(B))
    a = c['a']
    for cls in (Fluxes, NanoMaggies):
        x = cls(order=list(B), **dict(zip(B, f)))
        y = cls(order=list(B), **dict(zip(B, f2)))
        z = cls(order=list(B[::-1]), **dict(zip(B, f2)))
        # band access is by name, whatever the order
        for i, nm in enumerate(B):
            close(x.getFlux(nm), f[i], 0, 0, 'getFlux')
            close(x.getBand(nm), f[i], 0, 0, 'getBand')
            close(LinearPhotoCal(c['scale'], band=nm).brightnessToCounts(x), f[i] * c['scale'], 0, 1e-12,
                  'counts through a linear calibration in band %s' % nm)
            close(FluxesPhotoCal(nm).brightnessToCounts(x), f[i], 0, 0, 'counts in band')
            close(ScaledPhotoCal(LinearPhotoCal(c['scale'], band=nm), 3.).brightnessToCounts(x), 3. * f[i] * c['scale'], 0,
                  1e-12, 'scaled calibration')
            for s, what in ((x + y, 'sum'), (x + z, 'sum with another band order')):
                require(type(s) is cls, 'class of a sum')
                close(s.getFlux(nm), f[i] + f2[i], 1e-12 * (abs(f[i]) + abs(f2[i])), 1e-12, what)
            close((x * a).getFlux(nm), f[i] * a, 0, 1e-12, 'scaled brightness')
        require(list(x.getParamNames()) == list(B), 'band order in the parameter vector')
        close(x.getParams(), f, 0, 0, 'operands unchanged')
        # counts react to their own band only
        w = x * 1.
        j = (k + 1) % len(B)
        w.setFlux(B[j], f[j] + 1.)
        close(LinearPhotoCal(c['scale'], band=b).brightnessToCounts(w),
              (f[k] + (1. if j == k else 0.)) * c['scale'], 0, 1e-12, 'counts after changing another band')
        close(x.getFlux(B[j]), f[j], 0, 0, 'original unchanged')
        # alphabetical default order
        d = cls(**dict(zip(B, f)))
        require(list(d.getParamNames()) == sorted(B), 'default band order')
        close(d.getFlux(b), f[k], 0, 0, 'default order access')
    # single numbers
    fx = Flux(f[k])
    close(NullPhotoCal().brightnessToCounts(fx), f[k], 0, 0, 'identity calibration')
    close(LinearPhotoCal(c['scale']).brightnessToCounts(fx), f[k] * c['scale'], 0, 1e-12, 'linear calibration')
    close((fx * a).getValue(), f[k] * a, 0, 1e-12, 'Flux * number')
    close((a * fx).getValue(), f[k] * a, 0, 1e-12, 'number * Flux')
    close((fx + Flux(f2[k])).getValue(), f[k] + f2[k], 0, 1e-12, 'Flux + Flux')
    close(fx.getValue(), f[k], 0, 0, 'operand unchanged')
    close(LinearPhotoCal(c['scale']).getScale(), c['scale'], 0, 0, 'scale')
    # magnitudes
    p, p2 = np.abs(f), np.abs(f2)
    nm = [NanoMaggies.nanomaggiesToMag(v) for v in p]
    close(nm, 22.5 - 2.5 * np.log10(p), 1e-10, 0, 'nanomaggies to mag')
    close([NanoMaggies.magToNanomaggies(m) for m in nm], p, 0, 1e-10, 'mag to nanomaggies')
    n = NanoMaggies(order=list(B), **dict(zip(B, p)))
    close([n.getMag(q) for q in B], nm, 1e-10, 0, 'NanoMaggies.getMag')
    m = Mags(order=list(B), **dict(zip(B, nm)))
    m2 = Mags(order=list(B), **dict((q, 22.5 - 2.5 * np.log10(v)) for q, v in zip(B, p2)))
    close([NanoMaggies.fromMag(m).getFlux(q) for q in B], p, 0, 1e-9, 'fromMag')
    zp = c['zp']
    cal = MagsPhotoCal(b, zp)
    S = NanoMaggies.zeropointToScale(zp)
    close(S, 10.**(0.4 * (zp - 22.5)), 0, 1e-10, 'zeropoint to scale')
    close(NanoMaggies.scaleToZeropoint(S), zp, 1e-9, 0, 'scale to zeropoint')
    want = p[k] * 10.**(0.4 * (zp - 22.5))
    close(cal.brightnessToCounts(m), want, 0, 1e-9, 'magnitude to counts')
    close(LinearPhotoCal(S, band=b).brightnessToCounts(n), want, 0, 1e-9, 'the two calibrations agree')
    close(cal.countsToMag(want), nm[k], 1e-9, 0, 'counts to magnitude')
    # arithmetic of magnitudes is arithmetic of light
    close(cal.brightnessToCounts(m + m2), (p[k] + p2[k]) * S, 0, 1e-8, 'sum of magnitudes')
    if a != 0:
        close(cal.brightnessToCounts(m * a), abs(a) * want, 0, 1e-8, 'scaled magnitude')
    close([(m + 0.5).getMag(q) for q in B], np.array(nm) + 0.5, 1e-9, 0, 'magnitude offset')
    close([m.getMag(q) for q in B], nm, 0, 0, 'operand unchanged')
    for bad in (np.inf, np.nan, 51.):
        mm = m * 1.
        mm.setMag(b, bad)
        close(cal.brightnessToCounts(mm), 0., 0, 0, 'counts of magnitude %s' % bad)
        ctx.tag('faint')
    # the faintest magnitude that counts can be set, and goes with copies
    cal.maxmag = nm[k] + (1. if c['zp'] > 23. else -1.)
    for q in (cal, cal.copy()):
        close(q.brightnessToCounts(m), want if c['zp'] > 23. else 0., 0, 1e-9, 'counts near the faintest magnitude')
    # errors
    iv = c['iv']
    mg, dm = NanoMaggies.fluxErrorsToMagErrors(np.array(f), np.array([iv] * len(f)))
    for i in range(len(f)):
        if f[i] > 0:
            close(mg[i], nm[i], 1e-4, 0, 'magnitude of a flux')
        else:
            require(not np.isfinite(mg[i]), 'magnitude of a negative flux')
        if f[i] > 0 and iv > 0:
            # |d mag/d flux| * sigma
            h = 1e-5 * f[i]
            slope = abs(NanoMaggies.nanomaggiesToMag(f[i] + h) - NanoMaggies.nanomaggiesToMag(f[i] - h)) / (2 * h)
            close(dm[i], slope / np.sqrt(iv), 0, 1e-4, 'magnitude error')
        else:
            require(not np.isfinite(dm[i]), 'magnitude error without flux or variance')


SUBS = [Sub('units', spec(), check, quick=1200, thorough=20000, shards=4, doc='brightness classes and calibrations vs closed forms')]
