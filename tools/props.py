#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below
(a property is claimed when its module pbt/cNN.py exists)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note='', observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, observe=observe))


prop('C01', 'The parameter vector mirrors exactly the thawed parameters, in tree order',
     'For every parameter-holding object (positions, brightnesses, shapes, PSFs, skies, calibrations, sources, '
     'catalogs, images, the whole problem), the names, values, step sizes, lower/upper limits and maximum steps it '
     'lists always have one entry per thawed parameter, in the same tree order, and the parameter count agrees. '
     'Writing a vector (or one entry, or all values) through any level changes exactly the thawed parameters it '
     'names, reading it back returns it, and frozen parameters keep their values, steps and limits. This holds after '
     'any sequence of freezing, thawing, (recursively or by path), setting, appending and removing.',
     ['histories', 'inputs'], 'every parameter tree and every sequence of freeze/thaw/set/add/remove operations on any of its nodes',
     'Alignment has to hold after every history of operations on every tree; the tests freeze one or two things once.',
     ['tractor/utils.py', 'tractor/engine.py', 'tractor/image.py', 'tractor/basics.py', 'tractor/brightness.py',
      'tractor/ellipses.py', 'tractor/psf.py', 'tractor/wcs.py'],
     [['NamedParams liquid flags', 'tractor/utils.py'], ['ParamList/MultiParams/ArrayParams getters and setters', 'tractor/utils.py']],
     'stateful property-based testing against a reference model of the parameter tree')

prop('C04', 'Patches behave as images on an infinite canvas of zeros',
     'A patch stands for an image that is zero outside its box, and every patch operation agrees with that reading: '
     'sum, difference, product and quotient of patches, scaling, shifting, trimming, clipping, accumulating into an '
     'image and reporting extents, slices and overlap. No operation changes a patch it was not asked to change, and a patch '
     'without an image behaves as zero. A model mask selects exactly the pixels it describes.',
     ['inputs', 'histories'], 'every pair of patches at every relative placement (overlapping, touching, disjoint, off-image, empty) and every sequence of operations',
     'Tests sample a few overlapping placements; the edge and no-overlap placements are unbounded.',
     ['tractor/patch.py'],
     [['Patch arithmetic and clipping', 'tractor/patch.py'], ['ModelMask', 'tractor/patch.py']],
     'stateful property-based testing of patch operations against a dense-canvas reference model')

prop('C05', 'Every evaluator of a mixture of Gaussians gives the sum of its Gaussians',
     'Evaluating a mixture of Gaussians on a pixel grid, by any of the available routes (exact, approximate, masked, '
     'with derivatives, in Fourier space, native or pure Python), gives the mathematical sum of the components at '
     'each pixel, within the accuracy the caller asked for, for every box, offset and covariance. '
     'Convolving, concatenating and scaling mixtures, and their moments and symmetrised forms, are the '
     'corresponding operations on the Gaussians. Inputs are not modified.',
     ['inputs'], 'every mixture (component count, weights, means, covariances), pixel box, offset, mask and threshold',
     'A fixed mixture in a fixed box cannot show out-of-window starts, elongated components or mixed means.',
     ['tractor/mixture_profiles.py', 'tractor/mp_fourier.i', 'tractor/mix.i', 'tractor/gauss_masked.c', 'tractor/approx3.c'],
     [['native Gaussian evaluation', 'tractor/mix.i'], ['masked native evaluation', 'tractor/gauss_masked.c'],
      ['MixtureOfGaussians', 'tractor/mixture_profiles.py']],
     'property-based differential testing of every evaluator against the closed form')

prop('C06', 'Galaxy profiles follow the Sersic law: half-light radius, unit light, continuity',
     'For every Sersic index, within the supported range or clamped to its ends, the profile mixture is round, centred, carries unit light, and the light inside any radius follows '
     'the (truncated) Sersic curve of growth with radius in units of the half-light radius, to the accuracy of the mixtures, varying continuously with the index across all the joins of the tables. '
     'The exponential, deVaucouleurs and Gaussian profiles are the members n=1, 4 and 1/2 of that family. '
     'A rendered galaxy of any shape, orientation and sky-to-pixel map holds that fraction of its light inside its own ellipses on the sky.',
     ['inputs'], 'every Sersic index, radius, ellipse, orientation and world-coordinate map',
     'The tables are joined from eight fits with ramps and clamps; tests evaluate a few indices.',
     ['tractor/sersic.py', 'tractor/mixture_profiles.py', 'tractor/galaxy.py', 'tractor/galaxy_profiles.py'],
     [['SersicMixture', 'tractor/sersic.py'], ['profile mixtures', 'tractor/mixture_profiles.py'], ['galaxy rendering', 'tractor/galaxy.py']],
     'property-based testing against the closed-form Sersic curve of growth')

prop('C07', 'A pixelized PSF appears at its sub-pixel position with its shape and flux',
     'Shifting an image by any sub-pixel amount (in place or not, any size, memory layout and number type) is the normalised Lanczos-3 '
     'interpolation of that image, and whole-image flux and the position of the content come out right. '
     'A point source with a pixelized PSF, whatever the stamp size, sampling, normalisation, radius or mask window, is that stamp interpolated to the '
     'requested position, and its Fourier transform is the transform of the same stamp placed at the stated centre. '
     'For a smooth stamp the result is the smooth function sampled at the shifted pixel positions.',
     ['inputs'], 'every image size, layout and shift, and every stamp, sampling, position, radius and mask window',
     'Fast paths depend on the array size, type and the size of the shift; tests shift a couple of stamps.',
     ['tractor/psf.py', 'tractor/mp_fourier.i'],
     [['lanczos_shift_image', 'tractor/psf.py'], ['PixelizedPSF', 'tractor/psf.py'], ['native Lanczos kernels', 'tractor/mp_fourier.i']],
     'property-based testing against a double-precision Lanczos-3 interpolation and a closed-form Gaussian')

prop('C08', 'A rendered source is its profile, PSF-convolved, placed, scaled to its counts',
     'For every source type (point, galaxy profiles, composites, Sersic, constant surface brightness), PSF kind and '
     'sky-to-pixel map, each pixel of the rendered source equals its calibrated counts times its normalised profile '
     'convolved with the PSF of that image at the source position. Rendering is linear in counts, moves with the source by whole pixels, '
     'and the counts of a source well inside the image sum to its counts. Everything holds up to the documented mixture/FFT accuracy.',
     ['inputs'], 'every source type x PSF kind x world-coordinate map x shape x position x brightness system',
     'Rendering has to be right at every position, shape and PSF combination; tests render a few fixed scenes.',
     ['tractor/galaxy.py', 'tractor/pointsource.py', 'tractor/sersic.py', 'tractor/psf.py', 'tractor/basics.py', 'tractor/mixture_profiles.py'],
     [['ProfileGalaxy/HoggGalaxy rendering', 'tractor/galaxy.py'], ['PointSource rendering', 'tractor/pointsource.py'],
      ['PSF point-source patches and Fourier transforms', 'tractor/psf.py']],
     'property-based testing against an independent direct-convolution renderer, plus metamorphic relations')

prop('C09', 'What is rendered in a pixel does not depend on the window it is rendered in',
     'Rendering a source in a sub-window, a masked region, a cut-out image or with a limited radius gives, pixel for '
     'pixel inside that window, what rendering in the full window gives; pixels outside a mask or window are not '
     'claimed to hold flux. Minimum-surface-brightness cuts drop only light at or below the stated level.',
     ['inputs'], 'every window, mask, sub-image, radius and surface-brightness threshold, for every source and PSF kind',
     'Windows can cut a source anywhere, including off its centre or off the image; tests use one or two.',
     ['tractor/galaxy.py', 'tractor/pointsource.py', 'tractor/psf.py', 'tractor/image.py', 'tractor/patch.py', 'tractor/wcs.py', 'tractor/sky.py'],
     [['model masks', 'tractor/patch.py'], ['sub-images', 'tractor/image.py'], ['render extents and radii', 'tractor/galaxy.py']],
     'property-based metamorphic testing: windowed versus full rendering, and against the reference renderer')

prop('C10', 'Model image, residuals, likelihood and posterior are what they are defined to be',
     'The model image is the sky plus the sum of the requested sources, residuals are (data - model) times the inverse error, '
     'the log-likelihood is minus half the sum of squared residuals over all images, and the log-posterior adds the log-prior. '
     'They always reflect the current parameter values and model masks, after any edits of sources, images, masks or parameters; a '
     'pixel with zero inverse error never contributes.',
     ['inputs', 'histories'], 'every scene (images, sources, PSFs, skies, calibrations, masks) and every edit between evaluations',
     'The bookkeeping identity spans every scene and edit history; tests evaluate one scene once.',
     ['tractor/engine.py', 'tractor/image.py', 'tractor/utils.py', 'tractor/sky.py'],
     [['getModelImage/getChiImage/getLogLikelihood/getLogProb', 'tractor/engine.py'], ['setModelMasks', 'tractor/engine.py']],
     'property-based testing of whole scenes against an independent renderer and the defining formulas')

prop('C11', 'Derivatives handed to the optimizers are the derivatives of the model image',
     'For every thawed parameter of every source and image, in parameter order, the published derivative images equal the change of the '
     'rendered model per unit change of that parameter (within the accuracy of its own finite step), for each image the parameter affects and no other. '
     'This holds for any set of frozen parameters, with and without model masks, for sources on, near and off the image; '
     'computing derivatives leaves the parameters unchanged.',
     ['inputs'], 'every source type x PSF x world-coordinate map x brightness system x freeze pattern x window x position',
     'Derivatives are computed by shortcuts per source type; the shortcut must agree with the model everywhere, not at one test point.',
     ['tractor/engine.py', 'tractor/galaxy.py', 'tractor/pointsource.py', 'tractor/sersic.py', 'tractor/devcore.py', 'tractor/sercore.py',
      'tractor/image.py', 'tractor/sky.py', 'tractor/ducks.py', 'tractor/psf.py'],
     [['Tractor.getDerivs', 'tractor/engine.py'], ['getParamDerivatives of sources', 'tractor/galaxy.py']],
     'property-based differential testing of derivatives against finite differences of the rendered model')

prop('C12', 'Optimization never lowers the posterior, and reports what it did',
     'One call of any optimizer (sparse least-squares, bounded, dense, multi-image dense, Ceres), and the loop around it, leaves the log-posterior '
     'no lower than it found it, at the best point it evaluated on the way. The improvement it reports is the '
     'difference of the posteriors (likelihood of the images plus the priors), the parameters have moved by exactly the reported step length times the reported '
     'direction, and when it reports no improvement nothing moved. Frozen parameters and image pixels never change.',
     ['inputs', 'histories'], 'every scene, start point, frozen subset, prior set, optimizer, option set and number of steps',
     'The tests run one or two fits from one starting point; the guarantee concerns every path of the step-length search, including the ones that go nowhere.',
     ['tractor/optimize.py', 'tractor/lsqr_optimizer.py', 'tractor/constrained_optimizer.py', 'tractor/dense_optimizer.py',
      'tractor/smarter_dense_optimizer.py', 'tractor/ceres_optimizer.py', 'tractor/engine.py'],
     [['tryUpdates', 'tractor/optimize.py'], ['step-length search', 'tractor/lsqr_optimizer.py'],
      ['bounded step-length search', 'tractor/constrained_optimizer.py'], ['Ceres cost interface', 'tractor/ceres_optimizer.py']],
     'property-based testing of optimization histories with invariants on posterior, parameters and frozen state')

prop('C13', 'On linear problems every optimizer gives the exact weighted least-squares answer',
     'When the free parameters enter the model linearly (fluxes and constant skies, with Gaussian priors), one '
     'step of any optimizer lands on the solution of the weighted least-squares problem over all '
     'unmasked pixels of all images plus the prior terms, however the problem is distributed over images, masks, frozen, shared and '
     'off-image parameters, and with or without column scaling. The variances reported are those of '
     'that problem (inverse of the summed squared derivatives). For nonlinear models the update direction solves the linearised problem, whichever optimizer is used.',
     ['inputs'], 'every linear scene (images, masks, noise, calibration, PSFs, sources), frozen/shared subset, prior set and optimizer setting',
     'The tests fit one or two single-image scenes; index bookkeeping fails only with several images, shared or off-image parameters.',
     ['tractor/lsqr_optimizer.py', 'tractor/dense_optimizer.py', 'tractor/smarter_dense_optimizer.py', 'tractor/constrained_optimizer.py',
      'tractor/ceres_optimizer.py', 'tractor/ceres-tractor.cc', 'tractor/optimize.py', 'tractor/engine.py'],
     [['getUpdateDirection', 'tractor/lsqr_optimizer.py'], ['dense normal equations', 'tractor/dense_optimizer.py'],
      ['per-image reduction', 'tractor/smarter_dense_optimizer.py'], ['Ceres interface', 'tractor/ceres-tractor.cc']],
     'property-based differential testing of every optimizer against float64 linear algebra on a measured design matrix')

prop('C14', 'Parameter limits and maximum steps are never exceeded while optimizing',
     'The bounded optimizers (constrained, dense, multi-image dense), in one step or a loop, never evaluate or return a point with a parameter below its '
     'lower or above its upper limit, and never move a parameter by more than its maximum step in one step; Ceres with bounds=True respects the '
     'limits too. With a limit in the way of a single linear parameter the step ends exactly on it, and the loop reports '
     'that a limit was hit; limits on the far side change nothing. Limits themselves, and frozen parameters, are left alone.',
     ['inputs', 'histories'], 'every scene, subset of limited parameters, distance of the limits from the start (including zero), maximum steps, step-length lists and optimizers',
     'The limits matter only for particular combinations of direction, distance and step-length list, with several limits competing; a test samples one.',
     ['tractor/constrained_optimizer.py', 'tractor/dense_optimizer.py', 'tractor/smarter_dense_optimizer.py', 'tractor/ceres_optimizer.py', 'tractor/utils.py',
      'tractor/ellipses.py', 'tractor/sersic.py'],
     [['getParameterSteps', 'tractor/constrained_optimizer.py'], ['lubounds', 'tractor/ceres_optimizer.py'], ['getLowerBounds/getUpperBounds/getMaxStep', 'tractor/utils.py']],
     'property-based testing monitoring every evaluated parameter vector, plus exact oracle for one linear parameter')

prop('C15', 'Forced photometry returns the exact least-squares fluxes, errors and statistics',
     'With everything but one flux per source component (and optionally one sky level per image) frozen, forced photometry, with either solver, sets '
     'the fluxes to the weighted least-squares solution over the unmasked pixels of all images or of the regions of '
     'interest given, frozen sources held fixed. The inverse variances are the summed squared unit models over the '
     'noise; the before/after model and residual images are those of the scene at the old and new fluxes; the per-image and '
     'profile-weighted per-source statistics are the sums they are named for. minFlux and nonneg keep their promise, '
     'the fit never gets worse, and nothing else (frozen parameters, pixels, image list) changes.',
     ['inputs'], 'every scene (images, masks, noise, calibration, PSF, source types, frozen sources, edge placements) and every option set of both solvers',
     'The tests measure one source in one image; the bookkeeping (regions, skies, frozen sources, composite components) only shows in combinations.',
     ['tractor/optimize.py', 'tractor/lsqr_optimizer.py', 'tractor/ceres_optimizer.py', 'tractor/ceres.i', 'tractor/ceres-tractor.cc'],
     [['forced_photometry', 'tractor/optimize.py'], ['_lsqr_forced_photom', 'tractor/lsqr_optimizer.py'],
      ['_ceres_forced_photom', 'tractor/ceres_optimizer.py'], ['ForcedPhotCostFunction', 'tractor/ceres-tractor.cc']],
     'property-based differential testing against float64 linear algebra and directly computed statistics')

prop('C16', 'Sky-to-pixel maps invert, shift and scale consistently, with true derivatives',
     'For every world-coordinate map, going to pixels and back returns the position, sub-window offsets translate pixels '
     'exactly, and copies, shifted and scaled maps describe the same sky. Their local derivative matrix is the derivative of the map '
     'at that pixel (in its stated tangent-plane units), and angular distances are true great-circle or planar distances.',
     ['inputs'], 'every map (tangent, distorted, shifted, scaled, trivial), window offset and position, including across RA 0 and near the poles',
     'Wrap-around, poles and composed offsets are outside the few fixed headers used in tests.',
     ['tractor/wcs.py', 'tractor/basics.py', 'tractor/tractortime.py'],
     [['ConstantFitsWcs and friends', 'tractor/wcs.py'], ['NullWCS', 'tractor/wcs.py']],
     'property-based round-trip and numerical-derivative testing')

prop('C17', 'Brightness units convert and combine as fluxes and magnitudes define',
     'Counts reported for a brightness under a calibration follow the definition of its unit (linear flux, magnitude '
     'with zeropoint, nanomaggies, per band), conversions round-trip, and brightness arithmetic (addition, scaling, '
     'magnitude offsets) is arithmetic on the underlying fluxes. Operations return new values and leave operands alone.',
     ['inputs'], 'every brightness value, band set, unit system and calibration',
     'Closed forms must hold for all magnitudes, bands and zeropoints; tests sample single values.',
     ['tractor/brightness.py', 'tractor/basics.py', 'tractor/utils.py'],
     [['brightness classes', 'tractor/brightness.py'], ['LinearPhotoCal/MagsPhotoCal', 'tractor/basics.py']],
     'property-based testing against closed-form photometric definitions')

prop('C18', 'All ellipse parameterisations describe the same ellipse',
     'Converting an ellipse between its parameterisations (radius/axis ratio/angle, ellipticity components, softened '
     'log-radius components) preserves its half-light radius, axis ratio, position angle and the affine map onto the '
     'sky; soft forms map every real parameter triple to a valid ellipse. Angles wrap without changing the shape.',
     ['inputs'], 'every radius, axis ratio, angle and every real softened-parameter triple',
     'Round or extremely elongated shapes and wrapped angles are edge cases of a continuous domain.',
     ['tractor/ellipses.py', 'tractor/galaxy.py'],
     [['EllipseE/EllipseESoft', 'tractor/ellipses.py'], ['GalaxyShape', 'tractor/galaxy.py']],
     'property-based testing of conversions against the covariance of the ellipse')

prop('C02', 'Priors count once, agree with their linearised form, and respect freezing',
     'The log-prior reported at any level of the parameter tree is the sum of the Gaussian terms put on its parameters (and smoothness terms of '
     'spline skies) below thawed branches, or minus infinity when a value is out of its legal range. The linearised rows used by the optimizers, and '
     'the list of Gaussian priors, are indexed by the currently thawed parameters and predict exactly how the log-prior changes when '
     'parameters move, whatever is frozen or thawed and in whatever order. The log-posterior is log-likelihood plus log-prior, and minus infinity for illegal parameters.',
     ['inputs', 'histories'], 'every scene, every set of prior terms and every sequence of prior, freeze, thaw and move operations',
     'Index bookkeeping between frozen and thawed parameters at several levels only fails for particular histories.',
     ['tractor/utils.py', 'tractor/splinesky.py', 'tractor/engine.py', 'tractor/ellipses.py', 'tractor/sersic.py'],
     [['GaussianPriors', 'tractor/utils.py'], ['MultiParams.getLogPriorDerivatives', 'tractor/utils.py'], ['SplineSky.getLogPriorDerivatives', 'tractor/splinesky.py']],
     'stateful property-based testing against an explicit sum of the terms added')

prop('C19', 'Sky models add the background they describe, and shift, copy, save and fit it',
     'A constant or spline sky adds to an image, at any scale, exactly the background it describes (the spline through its control points, '
     'constant beyond them); shifting, offsetting, scaling, copying and saving and reloading it describe the same background moved, changed or unchanged '
     'accordingly, and leave the original alone. Estimating a spline sky from an image gives the medians of the unmasked pixels of its boxes; fitting sky '
     'parameters (with or without smoothness prior, frozen coefficients, several images) reaches the least-squares solution.',
     ['inputs', 'histories'], 'every grid, order, image size, scale, mask and every sequence of operations on the sky',
     'No test touches the spline sky at all; orientation, offsets and stale coefficients only show for non-square grids and sequences.',
     ['tractor/sky.py', 'tractor/splinesky.py', 'tractor/engine.py'],
     [['SplineSky', 'tractor/splinesky.py'], ['ConstantSky', 'tractor/sky.py']],
     'stateful property-based testing against an independent tensor-product spline and dense least squares')

prop('C03', 'Copies and pickles are faithful, and independent of the original',
     'A copy, deep copy or pickle of any part of a scene (parameter, brightness, shape, source, PSF, coordinate map, calibration, sky, image, catalog, '
     'or the whole engine) has the same type, values, frozen state and size settings and renders the same pixels; pickles also keep step sizes, limits, '
     'priors, masks and options. Whatever is then done to either one, the other does not change.',
     ['inputs', 'histories'], 'every scene, every node of it, every freeze state and size setting, and any later change of either object',
     'Every class duplicates itself in its own way; a dropped attribute or a shared array only shows for a frozen, resized or later-modified object.',
     ['tractor/utils.py', 'tractor/image.py', 'tractor/psf.py', 'tractor/brightness.py', 'tractor/galaxy.py', 'tractor/sersic.py', 'tractor/pointsource.py',
      'tractor/mixture_profiles.py', 'tractor/engine.py', 'tractor/splinesky.py', 'tractor/wcs.py'],
     [['copy methods', 'tractor/utils.py'], ['Image.copy', 'tractor/image.py'], ['Tractor.__getstate__/__setstate__', 'tractor/engine.py']],
     'metamorphic property-based testing: substitute the duplicate, then change one and compare the other')

prop('C20', 'A spatially varying PSF is its model evaluated at the place asked for',
     'At every pixel position a PsfEx PSF is the polynomial combination of its basis images there (normalised or not, whatever the sampling), and a spline-varying mixture PSF is the mixture interpolated there: '
     'in its stamp, its point sources, its Fourier transforms and the sources rendered with it. '
     'Cut-outs, in-place shifts, copies, pickles and files of the PSF describe the same PSF in the corresponding frame, in any order and combination, and leave the objects they were made from alone.',
     ['inputs', 'histories'], 'every PSF model, position and history of shifts, cut-outs, copies and saves',
     'Errors show only away from the origin, after shifts, or in oversampled or cut-out images.',
     ['tractor/psfex.py', 'tractor/psf.py', 'tractor/shifted.py'],
     [['PsfExModel and PixelizedPsfEx', 'tractor/psfex.py'], ['VaryingGaussianPSF', 'tractor/psfex.py'], ['ShiftedPsf', 'tractor/shifted.py']],
     'stateful property-based testing against an independent evaluation of the polynomial or spline')

prop('C21', 'Results depend on the current scene only, never on what was computed before',
     'After any history of evaluations, parameter changes, freezing, mask changes, PSF replacements and catalog edits, with or without the caching Tractor, models and likelihood equal those of a scene '
     'built from scratch with the current values. '
     'Evaluating anything (models, residuals, derivatives, optimizer directions, cut-outs, copies) leaves parameters, data, masks and freezing as they were, even if the caller overwrites the arrays it got. '
     'The cache returns exactly what was last stored under a key, evicts the least recently used item only when full, and counts correctly.',
     ['histories'], 'every history of operations and evaluations on every scene',
     'Stale caches and forgotten restores need a particular sequence of evaluation and change; tests evaluate fresh objects.',
     ['tractor/engine.py', 'tractor/cache.py', 'tractor/psf.py', 'tractor/galaxy.py', 'tractor/utils.py'],
     [['Tractor', 'tractor/engine.py'], ['Cache, TractorCacheMixin', 'tractor/cache.py'], ['PSF Fourier caches', 'tractor/psf.py']],
     'stateful property-based testing: living scene versus scene from scratch; model-based testing of the cache')

prop('C24', 'Moving sources are drawn, differentiated and fitted where they are at the time',
     'A moving point source appears in each image exactly as a star at its position plus proper motion times elapsed years since its epoch plus the parallax ellipse at the time of that image, and so do its copies and pickles. '
     'Its parameter derivatives are those of that model, in and out of model windows, and fitting noise-free epochs finds the motion again. '
     'Arithmetic on times, positions, motions and parallaxes is that of their values, leaves the operands alone and keeps the type.',
     ['inputs', 'histories'], 'every place, motion, parallax, epoch and set of images and times',
     'No existing test touches moving sources; wrap-around, epochs, copies and off-image sources need particular values.',
     ['tractor/motion.py', 'tractor/tractortime.py', 'tractor/utils.py', 'tractor/pointsource.py'],
     [['MovingPointSource', 'tractor/motion.py'], ['TAITime', 'tractor/tractortime.py'], ['ArithmeticParams', 'tractor/utils.py']],
     'property-based testing against an independent astrometric model; differential against a static star; finite differences')

prop('C25', 'Native code never touches memory outside its arrays',
     'Whatever windows (empty, one pixel, far off), masks, stamps, mixtures, memory layouts, guesses and scenes are given to rendering, convolution, derivative, EM-fit and Ceres code through the Python interface, '
     'the compiled extensions never read or write outside the arrays involved, use freed memory, perform an undefined operation or abort the process.',
     ['inputs'], 'every call of the compiled extensions through the Python API',
     'An out-of-bounds access usually goes unnoticed in an uninstrumented test run, and needs an unusual window or size.',
     ['tractor/mix.i', 'tractor/approx3.c', 'tractor/gauss_masked.c', 'tractor/mp_fourier.i', 'tractor/emfit.i', 'tractor/emfit2.c', 'tractor/ceres.i', 'tractor/ceres-tractor.cc'],
     [['c_gauss_2d_*', 'tractor/mix.i'], ['lanczos_shift_3f', 'tractor/mp_fourier.i'], ['em_fit_2d_reg', 'tractor/emfit.i'], ['ceres_forced_phot, ceres_opt', 'tractor/ceres.i']],
     'fuzzing of sanitized extensions (AddressSanitizer, UndefinedBehaviorSanitizer) with structured generators')

prop('C23', 'Gaussian approximations fitted to a PSF image describe that image',
     'Fitting a mixture of Gaussians to a PSF stamp takes exactly the expectation-maximisation steps asked for from the given (or default) guess, never lowers the likelihood and leaves the stamp and the guess alone. '
     'A stamp made of well-sampled Gaussians is fitted by those Gaussians, also as the Gaussian side of a hybrid PSF, whose stars stay those of its pixels; the least-squares variants never end worse than they began. '
     'A PSF that varies over the image is fitted once on its grid, equals the fits there and follows the true PSF in between.',
     ['inputs'], 'every stamp (size, origin, noise, precision), component count, starting guess, number of steps, regularisation and variation over the image',
     'No existing test runs the fitting code; wrong moments or origins need off-centre, elongated or several components to show.',
     ['tractor/psf.py', 'tractor/emfit.i', 'tractor/emfit2.c', 'tractor/fitpsf.py', 'tractor/psfex.py'],
     [['GaussianMixturePSF.fromStamp, GaussianMixtureEllipsePSF.fromStamp, HybridPixelizedPSF', 'tractor/psf.py'], ['em_fit_2d_reg', 'tractor/emfit.i'], ['VaryingGaussianPSF', 'tractor/psfex.py']],
     'property-based differential testing against an independent EM implementation; recovery of generated mixtures')

prop('C26', 'The batched (GPU-style) optimizer gives the models and fits of the ordinary one',
     'For one source (star, galaxy, or none) with or without a constant surface brightness in several images with hybrid PSFs, rectangular masks, frozen images and free brightness, the batched optimizer (numpy backend) renders the '
     'model the ordinary code renders, proposes the update that minimises the linearised posterior (priors, frozen and uninformed parameters included), and in its line search reports the true gain, takes '
     'the best step within the bounds and says when it hit them; image parameters cached earlier, at another place of the source, make no difference. What it does not handle it hands to the ordinary optimizer, unchanged.',
     ['inputs', 'configuration'], 'every rotation, parity, pixel scale, declination, calibration, band order, PSF, mask box, bad-pixel pattern, prior, frozen part, starting place and list of step sizes',
     'No existing test runs it on images that differ; wrong scale factors, unit conversions, axis swaps and stale caches need rotated, rescaled, off-equator or several images to show.',
     ['tractor/gpu_optimizer.py', 'tractor/smarter_dense_optimizer.py', 'tractor/sersic.py', 'tractor/galaxy.py'],
     [['GpuOptimizer.gpu_one_source_models, getLinearUpdateDirection, tryUpdates, lanczos_shift_images_gpu, cache_image_params', 'tractor/gpu_optimizer.py'], ['getDerivativeShearedProfiles', 'tractor/galaxy.py']],
     'property-based testing: differential (batched versus ordinary code), analytic Gaussian models, linear algebra on measured derivatives')

MODS = {}


def main():
    claimed, na = [], []
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['text']),
                     why_tests_cant=p['why'],
                     anchors=dict(files=p['files'],
                                  mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
            f.write(json.dumps(d) + '\n')
    for p in P:
        if os.path.exists(os.path.join(VERIF, 'pbt', p['id'].lower() + '.py')):
            claimed.append(dict(property=p['id'],
                                quick_cmd='/opt/venv/bin/python run.py %s' % p['id'],
                                thorough_cmd='/opt/venv/bin/python run.py %s --tier thorough' % p['id'],
                                technique=p['technique'], level='exploration',
                                level_note=(p['note'] or 'Seeded generated-input search over the domain described by the '
                                            "evidence file's rule; says nothing beyond the generated cases.")))
        else:
            na.append(dict(property=p['id'], reason='check not built yet'))
    M = dict(version=1, setup_cmd='bash /opt/vp/build.sh', checks=claimed, not_applicable=na,
             notes='No hooks in /repo. All commits there are "fix:" repairs, listed in known_findings.json.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(M, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
