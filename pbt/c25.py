"""C25: the native code stays inside its arrays."""
import importlib
import numpy as np
from hypothesis import strategies as st
from . import gen
from .core import Sub, Skip, Violation
from .gen import fl, pick, lst

PROP = 'C25'
SANITIZE = True
RULE = ('The extensions are compiled from the working tree with AddressSanitizer and UndefinedBehaviorSanitizer and driven two ways: directly, with mixtures, windows '
        '(empty, one pixel, far from the centre), masks, stamps and starting guesses; and through the scenes that the other properties render, differentiate, fit and photometer. '
        'The oracle is the sanitizer: any access outside an array, use of freed memory, or undefined operation ends the run. Non-trivial: the native code was called '
        'and the case has an off-centre, clipped, tiny or masked window, or is a scene that its own property counts as non-trivial.')
ASSUMPTIONS = ['the results themselves are judged by the other properties, on the ordinary build',
               'libceres and numpy are not instrumented: only accesses made by the code of this repository (and memory it hands over) are seen']

WIN = st.tuples(st.integers(-30, 30), st.integers(0, 25), st.integers(-30, 30), st.integers(0, 25))


def guarded(fn, *a, **k):
    """An exception is an answer; only the sanitizer decides here."""
    try:
        return fn(*a, **k)
    except Skip:
        raise
    except (Violation, Exception):
        return None


def check_grid(c, ctx):
    from tractor.mixture_profiles import MixtureOfGaussians
    amp, mean, var = [np.array(x) for x in gen.mog_arrays(c['mog'])]
    if c['layout'] == 'fortran':
        mean, var = np.asfortranarray(mean), np.asfortranarray(var)
    elif c['layout'] == 'float32':
        amp, mean, var = amp.astype(np.float32), mean.astype(np.float32), var.astype(np.float32)
    elif c['layout'] == 'strided':
        amp, mean, var = np.repeat(amp, 2)[::2], np.repeat(mean, 2, axis=0)[::2], np.repeat(var, 2, axis=0)[::2]
    mix = guarded(MixtureOfGaussians, amp, mean, var, **({'quick': True} if c['quick'] else {}))
    if mix is None:
        return
    x0, w, y0, h = c['win']
    x1, y1 = x0 + w, y0 + h
    guarded(mix.evaluate_grid, x0, x1, y0, y1, c['fx'], c['fy'])
    guarded(mix.evaluate_grid_approx, x0, x1, y0, y1, c['fx'], c['fy'], c['minval'])
    for ds in (True, False):
        for sl in (True, False):
            guarded(mix.evaluate_grid_approx3, x0, x1, y0, y1, c['fx'], c['fy'], c['minval'], derivs=ds, doslice=sl, minradius=c['minradius'])
            mask = gen.rng(c['seed']).uniform(size=(h, w)) < c['frac']
            if c['layout'] == 'fortran':
                mask = np.asfortranarray(mask)
            guarded(mix.evaluate_grid_masked, x0, y0, mask, c['fx'], c['fy'], derivs=ds)
    # centres on, just inside and just outside each edge and corner of the window
    if c['layout'] == 'plain':
        for ex in (x0 - 1, x0, x0 + w // 2, x1 - 1, x1):
            for ey in (y0 - 1, y0, y0 + h // 2, y1 - 1, y1):
                # (truncated towards zero by the code under test)
                dx, dy = (0.3 if ex >= 0 else -0.3), (0.3 if ey >= 0 else -0.3)
                guarded(mix.evaluate_grid_approx3, x0, x1, y0, y1, ex + dx - mean[0, 0], ey + dy - mean[0, 1], c['minval'], derivs=c['quick'], doslice=False, minradius=c['minradius'])
    r = gen.rng(c['seed'])
    for shape in ((2,), (1, 2), (7, 2), (0, 2)):
        guarded(mix.evaluate_2, r.normal(size=shape) * 5.)
    v, u = np.fft.rfftfreq(max(1, w)), np.fft.fftfreq(max(1, h))
    for use in (True, False):
        guarded(mix.getFourierTransform, v, u, use_mp_fourier=use)
        guarded(mix.getFourierTransform, v, u, use_mp_fourier=use, zero_mean=True)
    if min(w, h) < 3 or abs(c['fx'] - x0) > 20 or c['layout'] != 'plain':
        ctx.nt()


def check_stamp(c, ctx):
    from tractor.psf import lanczos_shift_image, PixelizedPSF, GaussianMixturePSF, NCircularGaussianPSF
    from tractor.patch import ModelMask
    r = gen.rng(c['seed'])
    img = r.normal(size=(c['h'], c['w'])).astype(np.float32 if c['single'] else float)
    if c['layout'] == 'fortran':
        img = np.asfortranarray(img)
    elif c['layout'] == 'strided':
        img = np.repeat(np.repeat(img, 2, 0), 3, 1)[::2, ::3]
    guarded(lanczos_shift_image, img, c['dx'], c['dy'])
    guarded(lanczos_shift_image, img.copy(), c['dx'], c['dy'], inplace=True)
    odd = np.abs(img[:c['h'] - (1 - c['h'] % 2), :c['w'] - (1 - c['w'] % 2)]) + 0.01
    x0, w, y0, h = c['win']
    px, py = c['px'], c['py']
    if c['edge'] is not None:
        px, py = [x0 - 1, x0, x0 + w - 1, x0 + w][c['edge'] % 4] + c['dx'], [y0 - 1, y0, y0 + h - 1, y0 + h][c['edge'] // 4] + c['dy']
    for mk in (lambda: PixelizedPSF(odd.copy()), lambda: PixelizedPSF(odd.copy(), sampling=0.5), lambda: NCircularGaussianPSF([c['sig']], [1.]),
               lambda: GaussianMixturePSF(1., 0., 0., c['sig']**2, c['sig']**2, 0.)):
        psf = guarded(mk)
        if psf is None:
            continue
        for mm in (None, ModelMask(x0, y0, w, h), ModelMask(x0, y0, r.uniform(size=(h, w)) < 0.5) if w and h else None):
            for ext in (None, [x0, x0 + w, y0, y0 + h]):
                for minval in (0., c['minval']):
                    for d in (False, True):
                        guarded(psf.getPointSourcePatch, px, py, minval=minval, modelMask=mm, derivs=d, radius=c['radius'],
                                minradius=c['minradius'], **({} if mm is not None else dict(clipExtent=ext)))
        guarded(lambda *a: psf.getFourierTransform(*a), c['px'], c['py'], c['radius'] or 5)
    if c['h'] < 12 or c['w'] < 12 or min(w, h) < 3:
        ctx.nt()


def check_em(c, ctx):
    from tractor.psf import GaussianMixturePSF
    from tractor.emfit import em_fit_1d_samples
    r = gen.rng(c['seed'])
    yy, xx = np.mgrid[:c['h'], :c['w']]
    img = np.exp(-0.5 * ((xx - c['w'] / 2.)**2 + (yy - c['h'] / 2.)**2) / c['sig']**2) + c['noise'] * r.normal(size=(c['h'], c['w']))
    K = c['K']
    P0 = None
    if c['P0']:
        P0 = (np.ones(K) / K, r.normal(size=(K, 2)), np.array([np.eye(2) * (i + 1.) for i in range(K)]))
        if c['single']:
            P0 = tuple(x.astype(np.float32) for x in P0)
    kw = dict(N=K, P0=P0, emsteps=c['steps'], alpha=c['alpha'])
    if c['xy0']:
        kw['xy0'] = c['xy0']
    if c['single']:
        img = img.astype(np.float32)
    guarded(GaussianMixturePSF.fromStamp, img, **kw)
    guarded(GaussianMixturePSF.fromStamp, img, v2=True, **kw)
    x = r.normal(size=c['h'] * c['w'])
    guarded(em_fit_1d_samples, x, np.ones(K) / K, r.normal(size=K), np.ones(K))
    ctx.nt()


def reuse(mod, sub):
    m = importlib.import_module('pbt.' + mod)
    s = [x for x in m.SUBS if x.name == sub][0]

    def check(case, ctx):
        guarded(s.check, case, ctx)
    return Sub('%s_%s' % (mod, sub), s.strategy, check, 1, 1, doc='the scenes of %s/%s' % (mod.upper(), sub))


LAYOUT = pick('plain', 'plain', 'fortran', 'float32', 'strided')
SUBS = [
    Sub('grid', st.fixed_dictionaries(dict(mog=gen.mog_spec(4), win=WIN, fx=fl(-40., 40.), fy=fl(-40., 40.), minval=pick(0., 1e-6, 1e-3, 0.1, 10.), minradius=st.integers(0, 12),
                                           frac=fl(0., 1.), seed=gen.seeds, layout=LAYOUT, quick=st.booleans())),
        check_grid, 300, 10000, shards=2, doc='mixtures of Gaussians on any window, mask and memory layout'),
    Sub('stamp', st.fixed_dictionaries(dict(h=st.integers(1, 70), w=st.integers(1, 70), single=st.booleans(), layout=pick('plain', 'fortran', 'strided'), seed=gen.seeds,
                                            dx=fl(-0.5, 0.5), dy=fl(-0.5, 0.5), edge=st.one_of(st.none(), st.integers(0, 15)), win=WIN, sig=fl(0.3, 3.), px=fl(-40., 40.), py=fl(-40., 40.), minval=pick(1e-6, 1e-3, 0.1),
                                            radius=st.one_of(st.none(), st.integers(0, 15)), minradius=st.one_of(st.none(), st.integers(0, 8)))),
        check_stamp, 150, 5000, shards=2, doc='stamps of any size, shifted, and PSFs in any window'),
    Sub('em', st.fixed_dictionaries(dict(h=st.integers(1, 25), w=st.integers(1, 25), sig=fl(0.5, 3.), noise=pick(0., 0.01, 1.), K=st.integers(1, 4), P0=st.booleans(),
                                         single=st.booleans(), steps=st.integers(0, 20), alpha=pick(0., 0.1), xy0=st.one_of(st.none(), st.tuples(st.integers(-9, 9), st.integers(-9, 9))),
                                         seed=gen.seeds)),
        check_em, 100, 3000, doc='EM fits of stamps'),
]
for _m, _s, _q in (('c05', 'approx', 80), ('c05', 'masked', 80), ('c08', 'render', 60), ('c09', 'mask', 40), ('c09', 'minsb', 30), ('c11', 'source', 25), ('c13', 'ceres', 40),
                   ('c14', 'ceres', 40), ('c15', 'ceres', 30), ('c20', 'psfex', 30), ('c24', 'render', 60)):
    _x = reuse(_m, _s)
    _x.quick, _x.thorough = _q, 40 * _q
    SUBS.append(_x)
