"""The properties and how they are claimed (source of properties.jsonl / MANIFEST.json)."""
NOTES = ('All checks run /repo\'s own code (python modules linked from the working tree, native '
         'extensions rebuilt from it) under seeded workloads with monitors; see DESIGN.md.')

LN = ('Exploration: holds on the executions observed (seeded random workloads over the space named in '
      'the quantifier); trusts the independent oracle written in the check module and numpy/scipy.')
TECH = 'runtime monitor: '


def P(id, title, statement, over, text, why, files, mech, observe, technique, note=None, **kw):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe, hook_needed=None),
                technique=TECH + technique, level_note=LN + (' ' + note if note else ''), **kw)


PROPS = [
P('C01', 'Parameter vector stays aligned under any freeze/thaw/edit history',
  'For every object that carries parameters (single values, lists, nested sources, images, the whole '
  'tractor) and after any sequence of freezing, thawing (by name, index, recursively, by path), setting, '
  'adding and removing components, the parameter count, values, names, step sizes, bounds and maximum '
  'steps all describe exactly the currently thawed parameters in one common order. '
  'Setting through the vector changes exactly the addressed thawed parameters (and reports the old value), '
  'never a frozen one; the freeze-ignoring full vector is unaffected by freezing; and by-name freeze queries, '
  'thawed/frozen indices and the recursive state report agree with it. Calibrations wrapped for cutouts or rescaled images expose exactly the parameters of what they wrap.',
  ['histories', 'configurations'], 'all parameter classes, all nestings, all operation sequences',
  'The unit tests freeze and thaw a handful of fixed objects; alignment must hold for every nesting and history.',
  ['tractor/utils.py', 'tractor/engine.py', 'tractor/image.py'],
  [('liquid flags and liquid-index arithmetic', 'tractor/utils.py:NamedParams'),
   ('flattening of sub-params', 'tractor/utils.py:MultiParams')],
  ['getParams/setParams/getParamNames/getStepSizes/getLowerBounds and friends'],
  'lock-step reference-model comparison over random operation histories'),
P('C02', 'Copies, deep copies and pickles are faithful and independent',
  'Copying (by copy(), copy.deepcopy or pickling) any model object -- brightnesses, positions, shapes, sources, '
  'PSFs, skies, photometric and astrometric calibrations, images, patches, a whole tractor -- gives an object with '
  'the same parameter values, the same frozen/thawed state and the same behaviour (conversions, rendering); '
  'afterwards, changing the parameters or freeze state of either object never changes the other.',
  ['inputs', 'histories'], 'all copyable classes, values, freeze patterns and later edits of either object',
  'Tests copy few classes and never probe aliasing under later mutation.',
  ['tractor/utils.py', 'tractor/psf.py', 'tractor/galaxy.py', 'tractor/image.py', 'tractor/engine.py', 'tractor/wcs.py'],
  [('copy methods', 'tractor/*.py:copy'), ('pickling', 'tractor/engine.py:Tractor.__getstate__')],
  ['copy(), copy.deepcopy, pickle round trip'],
  'observation functions on original and duplicate before and after mutation of either'),
P('C03', 'Patches behave as pixel arrays placed on an infinite zero canvas',
  'A Patch is an image placed at an integer offset on an infinite canvas of zeros: adding, subtracting, multiplying '
  'and dividing patches, scaling by a number, adding a patch to an image (with any scale), clipping, shifting, '
  'trimming to nonzero, extracting slices and pixel indices, and overlap tests give what the canvas arithmetic gives, for every '
  'offset (negative, partly or wholly outside) and every size including empty.',
  ['inputs'], 'all patch offsets, sizes, overlaps and image sizes',
  'Off-by-one and clipping errors show only for particular overlaps.',
  ['tractor/patch.py'], [('patch arithmetic', 'tractor/patch.py:Patch')],
  ['Patch methods'], 'dense-canvas reference model for every operation'),
P('C04', 'Model images are the sky plus the sum of PSF-convolved source profiles',
  'For every image and catalog the model image equals the sky model plus the sum over sources of counts times the '
  'source profile (point, exponential, de Vaucouleurs, Gaussian, composite, Sersic, constant surface brightness), transformed to pixels by the '
  'image WCS (including rotation, flip and shear), convolved with the image PSF and centred on the source\'s pixel '
  'position, within the source\'s nominal extent and clipped to the frame; counts come from the image\'s '
  'photometric calibration in its band. Sources add, in any order; subsets, sky=False, None entries and catalog edits '
  'do exactly that; rendering scales linearly with flux and reflects current parameter values.',
  ['inputs', 'configurations'], 'all scenes: source kinds, parameters, positions on and off the frame, WCS, PSF, sky, photocal kinds',
  'Tests render a handful of sources with one PSF and compare against previous output or nothing.',
  ['tractor/engine.py', 'tractor/galaxy.py', 'tractor/pointsource.py', 'tractor/psf.py', 'tractor/mixture_profiles.py'],
  [('model accumulation', 'tractor/engine.py:Tractor.getModelImage'), ('profile rendering', 'tractor/galaxy.py:ProfileGalaxy'),
   ('PSF rendering', 'tractor/psf.py')],
  ['Tractor.getModelImage/getModelPatch'], 'independent numpy renderer compared pixel by pixel, plus superposition relations'),
P('C05', 'Model masks restrict rendering to their pixels without changing it',
  'Rendering a source through a model mask (a rectangle, or a rectangle with a boolean mask) returns a patch of exactly the mask\'s '
  'extent whose pixels equal the unmasked model (outside the boolean mask a pixel may be left at zero). Set on a tractor, '
  'masks apply per image and source; a source without a mask is not rendered (or, when masks are not assumed, is rendered '
  'normally); derivatives stay inside the masks; clearing the masks restores the model. Unit-flux patches obey the same masks. '
  '(Galaxies with a purely pixelized PSF require the mask to contain the source centre.)',
  ['inputs', 'configurations'], 'all mask rectangles and boolean masks, source kinds, PSF kinds',
  'Tests use few masks; misplacement needs off-centre masks and particular sub-pixel positions.',
  ['tractor/patch.py', 'tractor/engine.py', 'tractor/galaxy.py', 'tractor/psf.py', 'tractor/gauss_masked.c'],
  [('masked rendering', 'tractor/galaxy.py:_realGetUnitFluxModelPatch'), ('mask lookup', 'tractor/engine.py:_getModelMaskFor')],
  ['getModelPatch(modelMask=...), Tractor.setModelMasks'], 'reference renderer restricted to the mask'),
P('C06', 'Gaussian-mixture evaluators all return the analytic mixture',
  'For every 2-d Gaussian mixture and pixel grid, evaluating on points, on a grid, through a boolean mask, and in Fourier '
  'space returns the analytic sum of Gaussians (and analytic derivatives with respect to the centre); thresholded evaluation '
  'of concentric positive mixtures never exceeds the exact value and differs from it by at most a few times the threshold, stays inside the '
  'requested box and always covers the minimum radius. Convolving, shearing, shifting, extending and adding mixtures agree with the '
  'corresponding operation on the densities and leave their inputs unchanged; Lanczos-3 shifting equals normalized Lanczos convolution with zeros outside.',
  ['inputs'], 'all mixtures, grids (also one pixel wide, off-centre), thresholds, masks, shifts',
  'The tests compare a few fixed mixtures by eye; kernel errors depend on geometry.',
  ['tractor/mixture_profiles.py', 'tractor/mix.i', 'tractor/approx3.c', 'tractor/gauss_masked.c', 'tractor/mp_fourier.i', 'tractor/psf.py'],
  [('native evaluators', 'tractor/mix.i'), ('Fourier kernels', 'tractor/mp_fourier.i')],
  ['MixtureOfGaussians methods, lanczos_shift_image'], 'independent numpy evaluation of every mixture'),
P('C07', 'Native kernels stay inside their arrays and refuse ill-formed arguments',
  'Whatever the geometry (empty and one-pixel boxes, negative coordinates, centres far outside), the mixture parameters (also '
  'degenerate or non-finite), the memory layout of the arrays (strided, Fortran-ordered, byte-swapped, other float type) and the scene, the native code '
  '(mixture evaluators, Fourier and Lanczos kernels, EM fitting, Ceres optimization and forced photometry) neither reads nor '
  'writes outside its arrays, nor crashes or hangs; it writes results only where asked; arrays of the wrong type, shape or length are '
  'refused with an error or error code, after which well-formed calls still work; no reference to an argument is gained or lost; '
  'the reported bounding box of a thresholded evaluation lies in the array and contains all nonzero pixels.',
  ['inputs'], 'all geometries, mixtures, array layouts and argument errors reaching the native extensions',
  'Memory errors rarely change results; they need sanitizers and hostile geometry to be seen.',
  ['tractor/mix.i', 'tractor/approx3.c', 'tractor/gauss_masked.c', 'tractor/mp_fourier.i', 'tractor/emfit.i', 'tractor/ceres.i',
   'tractor/ceres-tractor.cc'],
  [('native evaluators', 'tractor/mix.i'), ('thresholded evaluation', 'tractor/approx3.c'), ('Ceres bridge', 'tractor/ceres-tractor.cc')],
  ['native entry points called from python'],
  'AddressSanitizer + UndefinedBehaviorSanitizer builds with guard zones, reference counts and layout-equivalence oracles'),
P('C08', 'PSF models put a unit flux where asked, however evaluated',
  'For every PSF model (Gaussian mixtures, circular mixtures, ellipse mixtures, pixelized, normalized, hybrid, oversampled) a unit point source rendered at '
  'any sub-pixel position is the PSF centred there: right values, flux and centroid; a whole-pixel move moves the patch; '
  'radius, minimum value, minimum radius, clip extent and mask options only limit the extent; derivative patches are the derivatives '
  'with respect to the centre. The Fourier transform of a pixelized PSF, for every radius and however often asked, is that of the stamp centred at the reported '
  'position; normalized PSFs and circular mixtures (whose weights are relative) have unit sum; oversampled PSFs sample the fine stamp at native pixels. Scaled, shifted and '
  'evaluated-elsewhere PSFs and reported mixtures agree with it, and evaluation never alters the PSF.',
  ['inputs', 'histories'], 'all PSF kinds and parameters, positions, extents and evaluation histories',
  'Tests render few PSFs at few positions; sub-pixel and boundary errors are small and position dependent.',
  ['tractor/psf.py', 'tractor/mixture_profiles.py'],
  [('pixelized PSF', 'tractor/psf.py:PixelizedPSF'), ('mixture PSFs', 'tractor/psf.py:GaussianMixturePSF'),
   ('normalization', 'tractor/psf.py:NormalizedPsf')],
  ['getPointSourcePatch, getFourierTransform, getImage, getMixtureOfGaussians'],
  'analytic mixtures and independent Lanczos/Fourier recomputation'),
P('C09', 'Model derivatives: one per thawed parameter, correct, without side effects',
  'For every source kind, image, mask and freeze pattern, the derivative list has exactly one entry per thawed parameter, in parameter order, each '
  'the derivative of the rendered model with respect to that parameter (within finite-difference accuracy; absent only where it is zero, and '
  'one pixel at the patch border may be left out for positions), inside the mask if there is one; for a whole tractor every entry is attached to '
  'the right image, image calibration parameters (sky, PSF, photometric) come first, and computing derivatives changes no parameter, freeze state or later result.',
  ['inputs', 'configurations'], 'all source and PSF kinds, parameter values (zero and negative flux too), masks, freeze patterns',
  'Tests compare no derivative with the model; a misfiled or mis-scaled derivative only slows or biases fits.',
  ['tractor/galaxy.py', 'tractor/pointsource.py', 'tractor/sersic.py', 'tractor/engine.py', 'tractor/image.py', 'tractor/ducks.py', 'tractor/motion.py'],
  [('source derivatives', 'tractor/galaxy.py:getParamDerivatives'), ('tractor assembly', 'tractor/engine.py:Tractor.getDerivs'),
   ('WCS chain rule', 'tractor/ducks.py:WCS.pixelDerivsToPositionDerivs')],
  ['getParamDerivatives, Tractor.getDerivs'], 'finite differences of the rendered model with step-derived error bounds'),
P('C10', 'Evaluating the model has no side effects and never returns stale results',
  'Rendering models, patches, derivatives, chi images, likelihoods, priors, Fourier transforms, names, copies and strings never changes a parameter, a freeze '
  'state, the PSF or the image data, and the result depends only on current parameter values, not on what was evaluated before: '
  'after any history of evaluations and parameter changes the model equals that of a freshly built scene with the same parameters, restoring the '
  'parameters restores the model, and writing into a returned patch is not remembered. A tractor with a model cache (any size, any flux or position values, '
  'model masks, minimum-brightness settings) returns the same models as one without.',
  ['histories'], 'all evaluation/parameter-change histories over all scene kinds',
  'Stale caches and in-place modification show only for particular sequences.',
  ['tractor/engine.py', 'tractor/psf.py', 'tractor/galaxy.py', 'tractor/sersic.py', 'tractor/mixture_profiles.py', 'tractor/cache.py'],
  [('FFT cache', 'tractor/psf.py:PixelizedPSF.fftcache'), ('profile caches', 'tractor/sersic.py:SersicMixture'), ('model cache', 'tractor/cache.py:TractorCacheMixin')],
  ['Tractor.getModelImage and every other evaluation'], 'state snapshots around each evaluation and comparison with freshly unpickled scenes'),
P('C11', 'The posterior is the Gaussian likelihood of the unmasked pixels plus the prior',
  'For every scene the chi image of each image is (data - model) times the inverse error, pixel by pixel and in image order; the log-likelihood is minus half the '
  'sum of squared chi over all images; the log-posterior is that plus the log-prior, minus infinity for illegal parameters or non-finite results and never NaN. '
  'Pixels of zero weight never matter, whatever (finite) value they hold; masking pixels removes exactly their terms; '
  'inverse variances and inverse errors are interchangeable; calling a tractor with a vector sets those parameters and returns their posterior.',
  ['inputs', 'configurations'], 'all scenes, weights, masks, priors and parameter values',
  'Tests evaluate the posterior at few points and never recompute it independently.',
  ['tractor/engine.py', 'tractor/image.py', 'tractor/utils.py'],
  [('chi image', 'tractor/engine.py:Tractor.getChiImage'), ('posterior', 'tractor/engine.py:Tractor.getLogProb'), ('weights', 'tractor/image.py:Image.setInvvar')],
  ['getChiImage, getLogLikelihood, getLogProb, __call__'], 'independent float64 recomputation of chi, likelihood and prior'),
P('C12', 'Priors: value, least-squares form and indices agree for every freeze pattern',
  'For every tree of parameters and every freeze pattern, the log-prior is the sum over active components of their Gaussian terms -(p-mu)^2/(2 sigma^2) (and the '
  'smoothness prior of a spline sky), and minus infinity as soon as one active component is illegal (ellipticity, radius, Sersic index, variances, parallax). The least-squares form handed to '
  'optimizers has one weighted row per thawed prior term, in the column of its parameter in the thawed vector, and predicts exactly how the log-prior changes '
  'under any displacement; the reported (index, mean, sigma) list names the same parameters. Priors on unknown parameters are refused.',
  ['inputs', 'configurations', 'histories'], 'all parameter trees, prior layouts and freeze patterns',
  'Misplaced prior columns show only with several components partly frozen; tests place one prior on one object.',
  ['tractor/utils.py', 'tractor/splinesky.py', 'tractor/ellipses.py', 'tractor/sersic.py', 'tractor/motion.py'],
  [('Gaussian priors', 'tractor/utils.py:_GaussianPriors'), ('prior assembly', 'tractor/utils.py:MultiParams.getLogPriorDerivatives')],
  ['getLogPrior, getLogPriorDerivatives, getGaussianPriors'], 'closed-form priors and displacement test of the least-squares form'),
P('C14', 'The update direction is the weighted least-squares solution',
  'For every scene, freeze pattern, prior and damping, the linear update direction computed by the LSQR, constrained and dense optimizers (and the "smarter" dense one when all sources of an image share one '
  'model-mask rectangle) minimises the linearised weighted chi-squared plus prior terms: one entry per thawed parameter in parameter order, zero for parameters without derivatives, '
  'independent of column scaling, using the given chi images if there are any; parameters shared between sources get one common update. Reported variances are the inverse of the summed squared weighted '
  'derivatives (plus priors), reported column scales their square roots, the reported inverse covariance is A^T A. Computing a direction, or asking for just the variances, changes no parameter.',
  ['inputs', 'configurations'], 'all scenes, freeze patterns, priors, damping, parameter sharing (well-conditioned systems)',
  'A misplaced row or column still descends; tests check only that fits end near the truth.',
  ['tractor/lsqr_optimizer.py', 'tractor/dense_optimizer.py', 'tractor/smarter_dense_optimizer.py', 'tractor/constrained_optimizer.py', 'tractor/splinesky.py'],
  [('sparse system', 'tractor/lsqr_optimizer.py:LsqrOptimizer.getUpdateDirection'), ('dense system', 'tractor/dense_optimizer.py:ConstrainedDenseOptimizer.getUpdateDirection'),
   ('reduced dense system', 'tractor/smarter_dense_optimizer.py:SmarterDenseOptimizer.getUpdateDirection')],
  ['getLinearUpdateDirection, getUpdateDirection'], 'independent dense float64 SVD solution of the same system'),
P('C13', 'Optimization steps never worsen the posterior and report what they did',
  'A step of any of the Python optimizers (least-squares, constrained, dense) leaves the posterior no lower than it was; '
  'the reported improvement is the actual posterior change and the reported step length the one taken; of the trial steps evaluated the best is '
  'kept; when none improves, the parameters are restored exactly and zero is reported. Frozen parameters, freeze '
  'states and image data are never touched, and the options of one run do not stick to the tractor. Loops of steps climb monotonically, stop when their callback asks, and '
  'on linear problems end at the weighted least-squares optimum, on noiseless data at the truth.',
  ['inputs', 'histories'], 'all scenes, start points, optimizers, step lists, freeze patterns, priors, directions',
  'Step acceptance depends on the path of trial posteriors; tests look only at a final fit.',
  ['tractor/lsqr_optimizer.py', 'tractor/constrained_optimizer.py', 'tractor/dense_optimizer.py', 'tractor/optimize.py', 'tractor/engine.py'],
  [('trial steps', 'tractor/lsqr_optimizer.py:tryUpdates'), ('constrained trial steps', 'tractor/constrained_optimizer.py:tryUpdates'),
   ('loops', 'tractor/optimize.py:optimize_loop')],
  ['Tractor.optimize, Tractor.optimize_loop, tryUpdates; every posterior evaluation'],
  'online trace of every posterior evaluation of an optimizer, checked against the step it reports'),
P('C15', 'Bounded optimization stays within bounds and maximum steps',
  'With the constrained optimizers, every point at which the posterior is evaluated and every fit result lies within the lower and '
  'upper bounds of all thawed parameters and within the maximum step of the point it started from. Trial steps go '
  'along the given direction and are as long as asked or as the limits allow, in increasing order; the flags for '
  'a limited step or a bound that was hit are right; bounds and maximum steps stay aligned with the thawed '
  'parameters and are never changed by a fit.',
  ['inputs', 'histories'], 'all scenes, bounds, maximum steps, directions, step lists, freeze patterns',
  'A step that leaves the allowed range shows only for particular combinations of several limits and a direction.',
  ['tractor/constrained_optimizer.py', 'tractor/dense_optimizer.py', 'tractor/utils.py', 'tractor/sersic.py'],
  [('trial steps within limits', 'tractor/constrained_optimizer.py:getParameterSteps'), ('acceptance', 'tractor/constrained_optimizer.py:tryUpdates'),
   ('limits of containers', 'tractor/utils.py:MultiParams')],
  ['every posterior evaluation of a bounded fit; getParameterSteps'],
  'online monitor on every posterior evaluation of bounded fits plus an independent step-length oracle'),
P('C16', 'Forced photometry finds the least-squares fluxes',
  'Forced photometry, with either the LSQR or the Ceres optimizer, sets the thawed fluxes (and sky levels, if asked) to the '
  'weighted linear least-squares solution (with Gaussian priors, where LSQR is asked for them) given the other sources, over the images or the given regions of '
  'them; with nonnegativity asked for no flux is negative. Reported inverse variances, initial and final model and chi '
  'images and per-source fit statistics are those of the data and of the fitted fluxes. Frozen sources, freeze states and image '
  'data are untouched; a source that touches no pixel keeps its flux or gets zero.',
  ['inputs'], 'all catalogs, images, regions of interest, sky options, masks, block sizes, threads, frozen subsets',
  'The flux solution must match the normal equations for any overlap of sources, tests fit one or two isolated ones.',
  ['tractor/optimize.py', 'tractor/lsqr_optimizer.py', 'tractor/ceres_optimizer.py', 'tractor/ceres.i', 'tractor/ceres-tractor.cc'],
  [('driver', 'tractor/optimize.py:forced_photometry'), ('LSQR', 'tractor/lsqr_optimizer.py'), ('Ceres', 'tractor/ceres_optimizer.py:_ceres_forced_photom'),
   ('fit statistics', 'tractor/optimize.py:_get_fitstats')],
  ['Tractor.optimize_forced_photometry results and side effects'],
  'differential monitor: every forced-photometry run against a float64 dense least-squares solution'),
P('C17', 'Brightness and photometric calibration conversions agree',
  'Magnitudes, fluxes, nanomaggies and counts convert into each other consistently in every band: conversions and their inverses '
  'round-trip, the photocal counts of a brightness equal zeropoint scaling of its flux, counts are linear in flux, error and inverse-variance '
  'conversions are the first-order propagation, and brightness arithmetic (sums, scalings, copies) matches flux or magnitude '
  'arithmetic without changing operands. A source in an image has total counts given by its photocal.',
  ['inputs'], 'all brightness types, bands, fluxes, magnitudes, zeropoints, scales',
  'The relations hold between several classes for every value and band; tests look at single conversions.',
  ['tractor/brightness.py', 'tractor/basics.py', 'tractor/ducks.py'],
  [('magnitudes and fluxes', 'tractor/brightness.py:NanoMaggies'), ('photocals', 'tractor/brightness.py:LinearPhotoCal'), ('mag photocal', 'tractor/brightness.py:MagsPhotoCal')],
  ['brightnessToCounts, getFlux/getMag, unit conversions, arithmetic'],
  'round-trip and linearity oracles on recorded conversions of generated brightnesses'),
P('C18', 'Ellipse representations describe the same shape',
  'The galaxy shape, ellipticity and softened ellipticity parametrizations of an ellipse agree on its radius, axis ratio, position angle and covariance matrix, '
  'and converting between them preserves the shape. The covariance of the tensor a galaxy is rendered with in pixel '
  'space is the sky-space covariance mapped through the local CD matrix, with the effective radius as its major scale; '
  'an ellipse is legal (finite prior) exactly when its ellipticity is allowed.',
  ['inputs'], 'all radii, ellipticities, angles, including round and needle-like limits; all CD matrices',
  'Angle and axis conventions go wrong only in particular quadrants or limits.',
  ['tractor/ellipses.py', 'tractor/galaxy.py'],
  [('e1,e2', 'tractor/ellipses.py:EllipseE'), ('softened', 'tractor/ellipses.py:EllipseESoft'), ('shape', 'tractor/galaxy.py:GalaxyShape')],
  ['getRaDecBasis, getTensor, fromRAbPhi, rAbPhi conversions'],
  'closed-form covariance oracle on each converted shape and rendered tensor'),
P('C19', 'WCS objects are consistent sky-to-pixel maps',
  'For every WCS, position to pixel and back are inverse, and the CD matrix and its inverse are the local derivative of that '
  'map in degrees on the sky at any pixel, declination and across RA 0/360, the pixel scale its determinant. TAN projections match the '
  'gnomonic formulas. Shifted or wrapped WCSs give the same sky for the '
  'shifted pixel, composing over repeated shifts, without changing the original. Setting a WCS parameter moves the map as that parameter means. '
  'Position arithmetic (sums, differences, scalings, in place or not, with numbers or other positions, motions or times) is component-wise and leaves its operands alone; angular distances are right near the poles and RA wrap.',
  ['inputs', 'histories'], 'all WCS types, pixel positions, sky positions, shift sequences, parameter edits',
  'A wrong factor (cos dec, the FITS 1-offset, wrap) shows only at particular declinations, offsets or after several shifts.',
  ['tractor/wcs.py', 'tractor/basics.py', 'tractor/ducks.py'],
  [('identity', 'tractor/wcs.py:NullWCS'), ('TAN', 'tractor/wcs.py:ConstantFitsWcs'), ('fittable TAN', 'tractor/wcs.py:TanWcs'), ('wcslib', 'tractor/wcs.py:WcslibWcs'), ('positions', 'tractor/wcs.py:RaDecPos')],
  ['positionToPixel, pixelToPosition, cdAtPixel, cdInverseAtPixel, shifted, distanceFrom'],
  'independent gnomonic-projection oracle and finite-difference monitor on recorded WCS calls'),
P('C20', 'Subimages show the same world as the image they are cut from',
  'A subimage (of a subimage, of any region) has the pixels and errors of its region, the name, time and freeze state of its parent, and calibration such that '
  'positions, sky, models, residuals and derivatives within it equal those of the parent restricted to the region; '
  'moving sources are where the parent has them; likelihoods of a tiling add up to that of the whole. Changing the pixels or calibration of a subimage does not '
  'change the parent, nor the reverse.',
  ['inputs', 'histories'], 'all images, PSFs (also varying), skies, WCSs, regions, nesting, sources inside and outside',
  'Each calibration shifts by its own convention; an error shows only for offset, nested or spatially varying ones.',
  ['tractor/image.py', 'tractor/wcs.py', 'tractor/psf.py', 'tractor/sky.py', 'tractor/splinesky.py', 'tractor/psfex.py'],
  [('cutting', 'tractor/image.py:subimage'), ('sky shift', 'tractor/splinesky.py:shifted'), ('psf shift', 'tractor/psf.py:getShifted')],
  ['Image.subimage; renderings through Tractor on parent and cut'],
  'differential monitor: renderings of nested cuts against cuts of the parent rendering'),
P('C25', 'Cache keys tell different objects apart; the model cache is a true LRU map',
  'Two sources or calibration objects (PSF, WCS, photometric calibration, brightness, sky) that render or map differently have different hash keys, '
  'whatever single respect they differ in; the key of an unchanged object is stable under use and equal for a copy of a source. The model '
  'cache returns exactly the value last stored under a key, never one stored under another; it never exceeds its size limit and drops the least '
  'recently used entry; its length, size and hit counts are right. So a tractor with a model cache gives the models of one without, through any '
  'history of changes of sources or calibration.',
  ['inputs', 'histories'], 'all pairs of calibration objects of the library types; histories of cache operations and recalibrations',
  'A stale or colliding key gives a wrong model silently, and only when the two colliding objects meet in one cache.',
  ['tractor/cache.py', 'tractor/psf.py', 'tractor/psfex.py', 'tractor/wcs.py', 'tractor/basics.py', 'tractor/brightness.py', 'tractor/splinesky.py', 'tractor/shifted.py', 'tractor/pointsource.py', 'tractor/galaxy.py'],
  [('cache', 'tractor/cache.py:Cache'), ('cached tractor', 'tractor/cache.py:TractorCacheMixin'), ('psf keys', 'tractor/psf.py:hashkey')],
  ['hashkey of each object and its renderings; Cache.get/put; TractorCacheMixin model images'],
  'key-versus-behaviour monitor on object pairs; reference LRU map run in lockstep; cached-versus-uncached model comparison'),
P('C21', 'Galaxy profiles have unit flux, the right size and the right light curve',
  'Each galaxy profile (exponential, de Vaucouleurs, Gaussian, Sersic of any legal index) is a centred, round, finite mixture in order of size that '
  'carries unit total flux, half of it within the half-light radius, and follows the curve of growth of its Sersic law at the radii that matter. The '
  'Sersic mixture changes continuously with the index across the whole legal range; an index just outside the range acts as the nearest legal one '
  'when stepping; the same index always gives the same profile; special indices agree with the named profiles. The radial profile '
  'functions are decreasing, scalar and array calls agree. Rendered galaxies show the same curve of growth in their elliptical apertures, with '
  'the total flux asked for, and composite galaxies render as the sum of their parts.',
  ['inputs'], 'all Sersic indices, radii, ellipticities and subpixel positions',
  'The fitted amplitude tables are piecewise in the index; an error in one piece shows only for galaxies of that index.',
  ['tractor/sersic.py', 'tractor/galaxy.py', 'tractor/mixture_profiles.py'],
  [('Sersic mixtures', 'tractor/sersic.py:SersicMixture'), ('profiles', 'tractor/mixture_profiles.py:get_exp_mixture'), ('galaxies', 'tractor/galaxy.py:ProfileGalaxy')],
  ['getProfile(); SersicMixture.getProfile; rendered patches'],
  'analytic Sersic curve-of-growth oracle over profiles and rendered galaxies; continuity and equivalence monitors'),
P('C22', 'Sky models evaluate, shift, scale, save and are estimated consistently',
  'Constant and spline skies evaluate to the same values whether added to an image or evaluated at positions, pass through their control points, '
  'and have one linear parameter per control point or level. Shifting by (x0,y0) gives at each pixel what the original gives at the shifted pixel, '
  'adding an offset or scaling changes every value accordingly, and histories of these operations, copies, and writing to and reading from a '
  'FITS table or file keep the function (including irregular grids and shifts). The median-based estimate of a spline sky ignores masked pixels, returns '
  'a constant for a constant image, follows a gradient, and scales and transposes with the image. The smoothness prior of the spline and its least-squares rows agree.',
  ['inputs', 'histories'], 'all grids, spline orders, shifts, offsets, scalings; images with masks',
  'The FITS, shift and scale paths compose; errors show only for particular histories and off-integer grids.',
  ['tractor/sky.py', 'tractor/splinesky.py'],
  [('spline sky', 'tractor/splinesky.py:SplineSky'), ('constant sky', 'tractor/sky.py:ConstantSky')],
  ['addTo, evaluateGrid, getParamDerivatives, shift, offset, scale, write_fits, from_fits, BlantonMethod, getLogPrior(Derivatives)'],
  'reference spline evaluated in lockstep through operation histories; metamorphic relations on sky estimation'),
P('C23', 'EM fits conserve flux and moments, never lose likelihood, and fail cleanly',
  'An expectation-maximization step of a Gaussian mixture on an image or samples never decreases the likelihood; after it the amplitudes add up to '
  'the flux (including the sky component where fitted), the mean and covariance of the mixture are those of the data (without sky and regularization), covariances are symmetric, fluxes '
  'non-negative. N steps at once equal N single steps; the result does not depend on the memory layout of the '
  'arguments; the image is left alone. A PSF fitted to a stamp of a well-separated mixture reproduces the stamp with unit flux. A PSF fitted by optimization is never worse than its starting point and recovers a single Gaussian. Arguments whose shapes '
  'do not match are refused with an error, changing nothing and keeping no hold on the arrays.',
  ['inputs', 'histories'], 'all stamps, starting points, component counts and step counts',
  'Conservation must hold at every step from every start; the tests check one fit.',
  ['tractor/emfit.i', 'tractor/emfit2.c', 'tractor/emfit.py', 'tractor/psf.py', 'tractor/fitpsf.py'],
  [('native EM', 'tractor/emfit2.c'), ('PSF from stamp', 'tractor/psf.py:GaussianMixturePSF.fromStamp')],
  ['em_fit_1d_samples, em_fit_2d, em_fit_2d_reg, em_fit_2d_reg2 and fromStamp, before and after each step'],
  'step-by-step conservation and ascent monitors with independent likelihood; reference-count and writability probes on refused calls'),
P('C24', 'Spatially varying PSFs are the polynomial model at the shifted position',
  'A PsfEx model evaluated at a position is the polynomial combination of its basis images there, resampled to the image; rendering, Fourier transform, '
  'frozen-at-a-position PSF and galaxies rendered through it all use that one PSF. Shifting by (dx,dy) — also repeatedly, and for subimages — gives '
  'at (x,y) the PSF of the original at (x+dx,y+dy), leaving the original alone. Copies, pickles and models written to and read from FITS files (including '
  'rows of merged tables) are equal to the original. Gaussian-mixture approximations fitted on a grid follow the model over the image and shift and save with it; the caching variant '
  'uses the PSF of the cell containing the position, at any position.',
  ['inputs', 'histories'], 'all polynomial degrees, scales, positions, shifts and save/load histories',
  'Shifts compose with polynomial origin and scale; a sign error shows only off-centre in shifted copies.',
  ['tractor/psfex.py', 'tractor/psf.py'],
  [('polynomial model', 'tractor/psfex.py:PsfExModel'), ('pixelized PSF', 'tractor/psfex.py:PixelizedPsfEx'), ('Gaussian grid', 'tractor/psfex.py:PsfEx'), ('caching', 'tractor/psfex.py:CachingPsfEx')],
  ['at(), getImage, getPointSourcePatch, getFourierTransform, constantPsfAt, getShifted, toFits/fromFits, mogAt'],
  'independent polynomial evaluator compared through operation histories'),
P('C26', 'Integral images give exact rectangle sums',
  'The integral image of any array gives, for every non-empty rectangle (scalar or array corners, touching the edges or not), the sum of its pixels; for '
  'images symmetric about both midlines the quarter-size integral image gives the same sums for every rectangle of the full image, whichever quadrants it touches. Inputs are left alone.',
  ['inputs'], 'all images and rectangles',
  'Quadrant logic has 16 corner combinations times edge cases.',
  ['tractor/integral_image.py', 'tractor/symmetric_integral_image.py'],
  [('full', 'tractor/integral_image.py:intimg_rect'), ('symmetric', 'tractor/symmetric_integral_image.py')],
  ['integral_image, intimg_rect, symmetric versions'],
  'direct-summation oracle over random images and rectangles'),
P('C27', 'Moving sources are where proper motion and parallax put them',
  'A source with proper motion and parallax is, at any time, at its position at the epoch displaced by proper motion times elapsed years and by the annual parallactic ellipse '
  '(towards the Sun, right axes), anywhere on the sky including across RA=0 and at high declination; RA stays in [0,360). Evaluating changes nothing. '
  'Model images and derivatives of moving sources use the position at the time of the image. Times convert between dates, MJD, TAI and years, add and subtract consistently. '
  'The parallax prior agrees with its parameters and negative parallax is illegal.',
  ['inputs', 'histories'], 'all positions, motions, parallaxes and dates',
  'Astrometric sign and cos(dec) errors are invisible at most seasons and positions.',
  ['tractor/motion.py', 'tractor/tractortime.py'],
  [('position at time', 'tractor/motion.py:MovingPointSource.getPositionAtTime'), ('times', 'tractor/tractortime.py:TAITime')],
  ['getPositionAtTime, getUnitFluxModelPatch, getParamDerivatives, TAITime conversions'],
  'independent vector-astrometry oracle over random positions and dates'),
P('C28', 'Images and calibrations written to FITS come back unchanged',
  'An image written to FITS with calibrations that have a header form (identity WCS with offset and pixel scale, identity photometry, null or constant sky, Gaussian-mixture PSF) is '
  'read back with equal pixels, inverse variances, masks, calibration classes and parameters — also frozen ones, with key prefixes and extra header cards — and hence the same model '
  'and likelihood. Standard headers (WCS, SKY, MAGZP cards) describe the same sky-to-pixel map, zeropoint and level for shifted WCSes too. Headers with an impossible number of parameters are refused.',
  ['inputs', 'configurations'], 'all such images, calibrations, freeze patterns and prefixes',
  'Header code loops over parameters; frozen or offset ones are lost silently.',
  ['tractor/image.py', 'tractor/utils.py', 'tractor/basics.py', 'tractor/psf.py', 'tractor/sky.py'],
  [('image headers', 'tractor/image.py:Image.toFits'), ('parameter headers', 'tractor/utils.py:BaseParams.toFitsHeader')],
  ['Image.toFits/readFromFits, toFitsHeader/fromFitsHeader, toStandardFitsHeader'],
  'write/read round trips compared in value and in behaviour'),
P('C29', 'Regions of interest and source-extractor catalogues are read faithfully',
  'A region of interest given in pixels, around a position, or as an RA,Dec box is turned into exactly the pixels of the image it covers, clipped to the frame, and '
  'into nothing if outside; without one the whole image is used. A SourceExtractor model-fit catalogue becomes one source per usable row, of the type its fluxes ask for (star, disc, spheroid, composite), '
  'with its position, fluxes per band, radii, axis ratios and position angles; the sources share no state.',
  ['inputs'], 'all regions, WCSes and catalogues of these forms',
  'Edge-clipping and type selection have many combinations.',
  ['tractor/imageutils.py', 'tractor/source_extractor.py'],
  [('regions', 'tractor/imageutils.py:interpret_roi'), ('catalogues', 'tractor/source_extractor.py:get_se_modelfit_cat')],
  ['interpret_roi; get_se_modelfit_cat'],
  'independent recomputation from WCS and table'),
P('C30', 'The Ceres optimizer minimizes the cost it reports and nothing else changes',
  'Optimization with Ceres never raises the cost (half the chi-squared plus Gaussian priors where asked); the initial and final costs (or improvement) it reports '
  'are those of the parameters (within bounds it may report less than it delivers). For linear parameters (fluxes, sky) it reaches the least-squares solution, with the right variances, whichever scaling, numeric-derivative or '
  'prior options are used and whichever images each parameter affects; for a single bounded parameter it stops at the minimum or the bound in its way, and with bounds always stays within them. Positions converge to a stationary point '
  'unless limited by the iteration count, which is honoured. Frozen parameters, freeze states and image data never change, nor do parameters that affect nothing.',
  ['inputs', 'configurations'], 'all scenes, freeze patterns and option combinations',
  'Block bookkeeping between images and parameters depends on overlaps and frozen patterns the tests do not sample.',
  ['tractor/ceres_optimizer.py', 'tractor/ceres.i', 'tractor/ceres-tractor.cc', 'tractor/ceres-tractor.h'],
  [('python side', 'tractor/ceres_optimizer.py:CeresOptimizer._ceres_opt'), ('native', 'tractor/ceres-tractor.cc')],
  ['CeresOptimizer.optimize and optimize_loop: reported costs, parameters before and after'],
  'independent least-squares oracle; frozen-state and cost-accounting monitors'),
]
DESIGN = {}
