# ruff: noqa: F821
T_META = 'property-based testing (hypothesis): metamorphic relation over generated inputs'
T_MODEL = 'property-based testing (hypothesis): generated inputs against an independent reference model'
T_HIST = 'property-based testing (hypothesis): generated operation histories against a reference model'
T_RT = 'property-based testing (hypothesis): round trips over generated inputs'
NOTE = ('Generated-input search with shrinking: no counterexample among the cases counted in the evidence file, over the input '
        'domain stated in DESIGN.md. Trusts numpy/scipy/h5py as oracle arithmetic and the tolerances given there. ')
EX = 'The tests run one or two fixed configurations per class and compare against stored numbers of an earlier run; '

prop('C01', 'Block streaming: the samples delivered do not depend on the block size',
     'For every chain of sources, processing blocks and time-domain beamformers, the concatenation of the delivered blocks is the same signal for every requested block size. Every block has the announced number of channels and exactly the requested number of samples, except for a last one that is shorter but never empty. The announced number of samples, channels and sampling frequency are those of the delivered signal.',
     ['inputs', 'schedules'], 'every composition of stream processing classes, every signal length, every block size', EX + 'block boundaries that fall at arbitrary places relative to filter kernels, buffers and averages, in arbitrary compositions, are not reached.',
     ['acoular/base.py', 'acoular/sources.py', 'acoular/tprocess.py', 'acoular/process.py', 'acoular/fprocess.py', 'acoular/tbeamform.py'],
     [('Generator.result protocol', 'acoular/base.py'), ('block loops', 'acoular/tprocess.py, acoular/sources.py'), ('overlap buffering', 'acoular/process.py SamplesBuffer'), ('delay-and-sum block loop', 'acoular/tbeamform.py')],
     ['Generator.result(num), num_samples, num_channels, sample_freq'], T_META + ' (block-size invariance) and invariants over the block sequence', NOTE)

prop('C02', 'No interference: runs neither change their inputs nor each other',
     'Running any generator or frequency-domain calculation leaves the input data, the user-supplied arrays and all configuration of the objects it uses unchanged. Running it again, whether completely, after an abandoned run or interleaved with another run of the same object, gives the same result.',
     ['inputs', 'histories', 'schedules'], 'every chain of objects, every interleaving of runs, abandoned runs included', EX + 'nothing is run twice, abandoned half-way or interleaved with a second consumer.',
     ['acoular/tprocess.py', 'acoular/sources.py', 'acoular/fprocess.py', 'acoular/spectra.py', 'acoular/fbeamform.py', 'acoular/tbeamform.py'],
     [('blocks of the source are not written to', 'acoular/tprocess.py, acoular/tbeamform.py'), ('state is local to a run', 'result methods'), ('copies of kernels and weights', 'acoular/sources.py, acoular/signals.py')],
     ['input arrays before and after', 'results of repeated runs'], T_HIST + ' (interleaved schedules of runs)', NOTE)

prop('C03', 'The digest identifies the configuration: no two different results share one',
     'Two objects built from the same configuration have the same digest, in any process. If changing one user-settable parameter anywhere in an object tree changes what the object computes, then it changes the digest of the object.',
     ['configurations', 'inputs'], 'every class with a digest, every parameter of every object in its tree, every pair of values', EX + 'the digest tests only check that a digest exists; a parameter missing from it (which lets the cache return a wrong result) is only visible by comparing results across configurations.',
     ['acoular/internal.py', 'acoular/sources.py', 'acoular/signals.py', 'acoular/tprocess.py', 'acoular/fbeamform.py', 'acoular/grids.py', 'acoular/environments.py', 'acoular/trajectory.py', 'acoular/spectra.py'],
     [('digest()', 'acoular/internal.py'), ('depends_on lists', 'all modules')], ['digest', 'results'], T_META + ' (different results imply different digests)', NOTE)

prop('C04', 'No stale values: after any change, objects behave as if freshly built that way',
     'After any history of assigning parameters anywhere in an object tree and reading results in between, every result and derived value equals that of a freshly built object tree with the final parameters.',
     ['histories', 'configurations'], 'every object tree, every history of assignments and reads', EX + 'objects are built once and read once; a missing dependency shows only after a read-change-read history.',
     ['acoular/spectra.py', 'acoular/fbeamform.py', 'acoular/grids.py', 'acoular/environments.py', 'acoular/microphones.py', 'acoular/tprocess.py', 'acoular/sources.py', 'acoular/signals.py', 'acoular/trajectory.py'],
     [('cached_property depends_on lists', 'all modules'), ('digest-controlled recalculation', 'acoular/fbeamform.py, acoular/spectra.py')], ['results and derived attributes'], T_HIST + ' (fresh object as model)', NOTE)

prop('C05', 'The result cache is transparent',
     'With any caching mode, and any history of reads, parameter changes, abandoned or interrupted runs, killed processes and new objects sharing the cache directory, every result equals the one computed without cache. In mode "none" no cache file is written, in mode "readonly" no cache file is changed, and in mode "overwrite" wrong cached data is replaced.',
     ['histories', 'configurations', 'crash_points'], 'every history over objects with caches, every caching mode, runs abandoned at any block, interrupted or killed at any source line of the caching modules', EX + 'cache tests use one configuration and complete runs.',
     ['acoular/h5cache.py', 'acoular/tprocess.py', 'acoular/spectra.py', 'acoular/fbeamform.py', 'acoular/base.py', 'acoular/configuration.py'],
     [('H5cache file handling', 'acoular/h5cache.py'), ('Cache.result', 'acoular/tprocess.py'), ('_get_filecache', 'acoular/spectra.py, acoular/fbeamform.py')], ['results, cache files on disk'], T_HIST + ' (uncached computation as model)', NOTE)

prop('C06', 'Time data input delivers exactly the selected samples and channels',
     'Time data given as array, HDF5 file or sound device is delivered sample by sample unchanged, restricted to exactly the selected sample range and valid channels and scaled by the calibration factors of the delivered channels. The announced numbers of samples and channels agree, and impossible selections or mismatched calibrations are rejected.',
     ['inputs', 'configurations'], 'all data shapes, block sizes, start/stop and invalid-channel selections, calibrations', EX + 'masks use one start/stop pair, negative indices, out-of-range stops and empty selections are not covered.',
     ['acoular/sources.py', 'acoular/sdinput.py', 'acoular/calib.py', 'acoular/tprocess.py', 'acoular/h5files.py'],
     [('TimeSamples / MaskedTimeSamples.result', 'acoular/sources.py'), ('MaskedTimeOut.result', 'acoular/tprocess.py'), ('Calib', 'acoular/calib.py')], ['result'], T_MODEL + ' (numpy slicing)', NOTE)

prop('C07', 'Files written by the library read back as the same data',
     'Time data written to HDF5 and read back, microphone geometries exported and imported as XML, calibration and grid XML files and complete HDF5 data sets reproduce the data they were written from. Audio files contain the samples scaled by one common factor to 0.9 of the full range in 16 bit, with the right sampling frequency and channel selection.',
     ['inputs'], 'all data, precisions, channel subsets, sample limits, block sizes, positions and names', EX + 'file tests write one small file each.',
     ['acoular/tprocess.py', 'acoular/microphones.py', 'acoular/calib.py', 'acoular/grids.py', 'acoular/h5files.py', 'acoular/sources.py'],
     [('WriteH5, WriteWAV', 'acoular/tprocess.py'), ('MicGeom import/export', 'acoular/microphones.py'), ('XML import', 'acoular/calib.py, acoular/grids.py')], ['files on disk'], T_RT, NOTE)

prop('C08', 'Buffers and splitters hand on every sample once, in order, to every consumer',
     'A samples buffer returns consecutive windows of exactly the source signal for every combination of source block size, window size and shift, and a sample splitter gives every registered consumer the complete signal in order for every interleaving of consumers, as long as its buffer does not overflow. Overflow is treated as configured (error, warning or silence) and never delivers wrong samples as right ones without notice when an error is configured.',
     ['schedules', 'inputs'], 'all block and buffer sizes, all interleavings of consumers', EX + 'one interleaving, one buffer size.',
     ['acoular/process.py'], [('SamplesBuffer', 'acoular/process.py'), ('SampleSplitter', 'acoular/process.py')], ['result of each consumer'], T_HIST + ' (list as model)', NOTE)

prop('C09', 'Elementwise, averaging and mixing blocks compute what they announce',
     'Average, power, cumulative average, reversal, channel mixing, mixing of several sources and pass-through caches deliver the arithmetic result of their definition for every sample and channel of the source.',
     ['inputs'], 'all signals, weights, averaging lengths and block sizes', EX + 'stored numbers only.',
     ['acoular/process.py', 'acoular/tprocess.py', 'acoular/sources.py'], [('result methods', 'acoular/tprocess.py, acoular/process.py'), ('SourceMixer', 'acoular/sources.py')], ['result'], T_MODEL + ' (numpy)', NOTE)

prop('C10', 'Signal generators produce the signals they describe',
     'Sine generators give amplitude, frequency and phase as configured; noise generators are a deterministic function of their seed with the configured rms and spectral filter; generic signals repeat or zero-pad the given data; upsampled signals interpolate the plain signal at the original samples.',
     ['inputs'], 'all lengths, seeds, amplitudes, filters, upsampling factors', EX + 'one parameter set per class.',
     ['acoular/signals.py'], [('signal()', 'acoular/signals.py'), ('usignal()', 'acoular/signals.py')], ['signal(), usignal()'], T_MODEL + ' and metamorphic relations (linearity, determinism)', NOTE)

prop('C11', 'Stationary sources radiate the delayed, attenuated signal to every microphone',
     'The pressure of a stationary monopole at each microphone is the emitted signal delayed by the propagation time (rounded to the upsampled sample) and divided by the distance, in any environment, with the configured start times and padding. Dipoles, line sources, spherical harmonic sources, convolved and uncorrelated sources follow from it by their definitions.',
     ['inputs', 'configurations'], 'all geometries, environments, signals, start times and upsampling factors', EX + 'one geometry.',
     ['acoular/sources.py', 'acoular/tools/helpers.py'], [('PointSource.result', 'acoular/sources.py'), ('_fill_mic_signal_block', 'acoular/sources.py')], ['result'], T_MODEL + ' (direct evaluation of the retarded signal)', NOTE)

prop('C12', 'Moving sources radiate from where they were at emission time',
     'For a subsonically moving source every received sample is the emitted signal at the emission time that solves the retarded-time equation along the trajectory, attenuated by the distance at that time and, if enabled, by convective amplification. A source that does not move gives the same pressure as a stationary one.',
     ['inputs', 'configurations'], 'all trajectories, geometries, start times', EX + 'one trajectory.',
     ['acoular/sources.py', 'acoular/trajectory.py'], [('MovingPointSource.result', 'acoular/sources.py')], ['result'], T_MODEL + ' (independent retarded-time solver)', NOTE)

prop('C13', 'Filters and convolutions equal the reference filtering of the whole signal',
     'Octave, third-octave, zero-phase, frequency-weighting and exponential-averaging filters equal the reference filtering of the complete signal, filter banks equal the individual filters, and convolution equals the complete linear convolution with the kernel of each channel.',
     ['inputs'], 'all signals, bands, orders, weights, kernels and block sizes', EX + 'stored numbers of one signal.',
     ['acoular/tprocess.py'], [('Filter.result', 'acoular/tprocess.py'), ('FiltFiltOctave', 'acoular/tprocess.py'), ('TimeConvolve', 'acoular/tprocess.py')], ['result, sos'], T_MODEL + ' (scipy.signal on the whole signal)', NOTE)

prop('C14', 'The cross spectral matrix is the Welch estimate of the data',
     'The cross spectral matrix equals the windowed, overlapped, averaged Welch estimate in every frequency bin, is Hermitian and positive semidefinite, and its eigenvalues and eigenvectors decompose it. Imported matrices and synthesised ones agree with what they were built from.',
     ['inputs', 'configurations'], 'all data, block sizes, windows, overlaps, precisions and frequency ranges', EX + 'one data set and a few combinations against stored numbers.',
     ['acoular/spectra.py', 'acoular/fastFuncs.py'], [('PowerSpectra.calc_csm', 'acoular/spectra.py'), ('calcCSM', 'acoular/fastFuncs.py'), ('PowerSpectraImport', 'acoular/spectra.py')], ['csm, eva, eve, fftfreq, num_blocks'], T_MODEL + ' (direct numpy Welch)', NOTE)

prop('C15', 'Short-time spectra and their inverse obey the DFT definitions',
     'Block spectra equal the scaled, windowed DFT of consecutive overlapping blocks; auto- and cross-power spectra follow from them with their scalings; the inverse transform returns the original samples; and averaged cross spectra equal the cross spectral matrix of the same data.',
     ['inputs', 'configurations'], 'all data, block sizes, windows, overlaps and scalings', EX + 'a few combinations.',
     ['acoular/fprocess.py'], [('RFFT, IRFFT, AutoPowerSpectra, CrossPowerSpectra', 'acoular/fprocess.py')], ['result, freqs'], T_MODEL + ' and round trip', NOTE)

prop('C16', 'Environments return the acoustic distance',
     'Without flow the distance is Euclidean; in uniform flow it is the closed-form convected distance; flow fields have consistent gradients; and the ray-traced distance in a general flow agrees with the closed form where one exists and with the straight line without flow.',
     ['inputs', 'configurations'], 'all point pairs, Mach numbers, flow directions and jets', EX + 'one geometry.',
     ['acoular/environments.py'], [('Environment._r, UniformFlowEnvironment._r', 'acoular/environments.py'), ('dist_mat', 'acoular/environments.py'), ('FlowField.v', 'acoular/environments.py')], ['_r, v'], T_MODEL + ' (closed forms, finite differences)', NOTE)

prop('C17', 'Trajectories interpolate their points smoothly',
     'A trajectory passes through every given point at its time, its derivatives are those of the interpolating curve, and stepping through it yields exactly the requested time grid.',
     ['inputs'], 'all point sets, times, derivatives and step ranges', EX + 'one trajectory.',
     ['acoular/trajectory.py'], [('Trajectory.location, Trajectory.traj', 'acoular/trajectory.py')], ['location, traj'], T_MODEL + ' (scipy spline per coordinate)', NOTE)

prop('C18', 'Arrays and grids enumerate their positions consistently',
     'Valid microphone positions, numbers, centre and aperture are those of the remaining microphones. Grid size, shape, extent, positions and index look-up agree with one another for every grid type, and grids merged or filtered from others contain exactly the points selected.',
     ['inputs', 'configurations'], 'all microphone sets, grid extents, increments, point sets', EX + 'one instance per class.',
     ['acoular/microphones.py', 'acoular/grids.py'], [('MicGeom', 'acoular/microphones.py'), ('RectGrid.index, RectGrid3D.index', 'acoular/grids.py'), ('MergeGrid, ImportGrid, LineGrid', 'acoular/grids.py')], ['pos, size, shape, extend, index'], T_MODEL + ' (direct enumeration)', NOTE)

prop('C19', 'Sectors select, and integration sums, exactly the grid points inside',
     'Each sector type and combination of sectors contains exactly the grid points inside its geometric region, falling back to the nearest point if it is configured to and none is inside. Integrating a map over a sector is the sum over exactly these points.',
     ['inputs', 'configurations'], 'all sectors, grids and maps', EX + 'one sector per class on one grid.',
     ['acoular/grids.py', 'acoular/fbeamform.py'], [('Sector.contains', 'acoular/grids.py'), ('integrate', 'acoular/fbeamform.py')], ['contains, indices, subdomain, integrate'], T_MODEL + ' (computational geometry done independently)', NOTE)

prop('C20', 'Steering vectors follow their formulation, beamforming maps their definition',
     'Steering vectors of all formulations equal their formulas, and the level-true ones recover the level of a source at the focus point. The conventional beamformer, with and without diagonal removal, equals the quadratic form of steering vector and cross spectral matrix; point spread functions equal the map of a unit source; both independent of precision, calculation mode and set of grid points requested.',
     ['inputs', 'configurations'], 'all geometries, frequencies, reference points, matrices', EX + 'stored maps of one data set.',
     ['acoular/fbeamform.py', 'acoular/fastFuncs.py'], [('SteeringVector.steer_vector', 'acoular/fbeamform.py'), ('beamformerFreq, calcPointSpreadFunction', 'acoular/fastFuncs.py'), ('PointSpreadFunction', 'acoular/fbeamform.py')], ['steer_vector, transfer, result, psf'], T_MODEL + ' (dense linear algebra)', NOTE)

prop('C21', 'High-resolution beamformers equal their matrix definitions',
     'Functional, Capon, eigenvalue, MUSIC and orthogonal beamforming equal their definitions in terms of the eigen-decomposition of the cross spectral matrix, for every choice of exponents, eigenvalue indices and steering vectors.',
     ['inputs', 'configurations'], 'all matrices incl. rank-deficient ones, gammas, eigenvalue choices', EX + 'stored maps of one data set.',
     ['acoular/fbeamform.py', 'acoular/fastFuncs.py'], [('_calc methods', 'acoular/fbeamform.py')], ['result, synthetic'], T_MODEL + ' (dense linear algebra)', NOTE)

prop('C22', 'Deconvolution methods obey their constraints and recover what they must',
     'DAMAS, DAMAS plus, CLEAN, CLEAN-SC, SODIX, covariance-matrix fitting and generalised inverse beamforming deliver non-negative source strengths consistent with their defining iteration or optimisation problem. For data synthesised from sources on grid points they reproduce the source strengths where their model guarantees it.',
     ['inputs', 'configurations'], 'all geometries, source distributions, iteration numbers, solvers', EX + 'stored maps of one data set.',
     ['acoular/fbeamform.py', 'acoular/fastFuncs.py'], [('BeamformerDamas, BeamformerClean, BeamformerCleansc, BeamformerCMF, BeamformerSODIX, BeamformerGIB', 'acoular/fbeamform.py'), ('damasSolverGaussSeidel', 'acoular/fastFuncs.py')], ['result'], T_MODEL + ' and model-based oracles (synthetic sources)', NOTE)

prop('C23', 'Band, sector and level evaluations of maps agree with the plain result',
     'Reading the result of a beamformer in any order, by any index, slice or band gives the same values as calculating each frequency alone. Synthesised bands are the sum over exactly the frequency lines of the band, and levels are ten times the decadic logarithm with a floor.',
     ['inputs', 'histories'], 'all index expressions, orders of access, bands and bandwidths', EX + 'a few frequencies, one order of access.',
     ['acoular/fbeamform.py'], [('LazyBfResult', 'acoular/fbeamform.py'), ('BeamformerBase.synthetic', 'acoular/fbeamform.py'), ('L_p, integrate', 'acoular/fbeamform.py')], ['result[...], synthetic, integrate, L_p'], T_HIST + ' (eager result as model)', NOTE)

prop('C24', 'Time-domain beamformers equal direct delay-and-sum',
     'The output of the time-domain beamformers equals, for every sample and grid point, the weighted sum of the interpolated microphone signals at the propagation delays, and the squared versions with and without autocorrelation removal follow from it. For a resting trajectory the moving beamformers equal the stationary ones, and CLEAN in the time domain never increases the remaining power.',
     ['inputs', 'configurations'], 'all signals, geometries, trajectories, weights, steering formulations', EX + 'stored numbers of one data set.',
     ['acoular/tbeamform.py', 'acoular/tfastfuncs.py'], [('BeamformerTime.result', 'acoular/tbeamform.py'), ('_delayandsum4, _delayandsum5, _delays', 'acoular/tfastfuncs.py')], ['result'], T_MODEL + ' (direct delay-and-sum)', NOTE)

prop('C25', 'Rotation tracking and spatial interpolation reproduce known rotations and fields',
     'Triggers are found where they are, the tracked angle of a uniform rotation is linear in time with the right speed and direction, and spatial interpolation reproduces values at the virtual positions that coincide with microphones, for every interpolation method and rotation.',
     ['inputs', 'configurations'], 'all rotation speeds, trigger shapes, array types, methods', EX + 'one signal.',
     ['acoular/tprocess.py'], [('Trigger, AngleTracker, SpatialInterpolator', 'acoular/tprocess.py')], ['trigger_data, rpm, angle, result'], T_MODEL + ' (known rotation)', NOTE)

prop('C26', 'Configuration and mismatched inputs are validated',
     'Global configuration switches take effect everywhere, accept exactly their documented values and keep the last valid one. Objects whose inputs do not fit together (numbers of channels, sampling frequencies, lengths, shapes) refuse to calculate with an exception instead of delivering a wrong result.',
     ['configurations', 'histories'], 'all mismatches of channel numbers, frequencies and shapes; all configuration values and orders of assignment', EX + 'single hand-picked mismatches.',
     ['acoular/configuration.py', 'acoular/sources.py', 'acoular/tprocess.py', 'acoular/fbeamform.py', 'acoular/tbeamform.py', 'acoular/spectra.py', 'acoular/calib.py'],
     [('Config', 'acoular/configuration.py'), ('validate methods', 'all modules')], ['exceptions'], 'property-based testing (hypothesis): generated mismatches and configuration histories against a model', NOTE)

prop('C27', 'Deprecated names remain aliases of the current ones',
     'Every deprecated attribute and class still reads and writes exactly the state of its replacement, in any order of access by either name, issues a deprecation warning (and only the deprecated name does), and gives the same results and digests. Attributes that are derived cannot be assigned through a deprecated name either.',
     ['configurations', 'histories'], 'all aliases, all orders of reading and writing either name', EX + 'a few aliases are checked once.',
     ['acoular/deprecation.py', 'acoular/sources.py', 'acoular/tprocess.py', 'acoular/sdinput.py', 'acoular/fbeamform.py'], [('deprecated_alias', 'acoular/deprecation.py')], ['attribute values, warnings'], T_HIST + ' (one state for both names)', NOTE)

prop('C28', 'Helper tools, metrics and exchange formats are consistent',
     'Band synthesis, bar spectra, collected results, file base names, the speed of sound in humid air and cylindrical coordinates agree with their definitions, inside and outside their ranges of validity. Level errors of maps (overall, specific, inverse) equal their definition for every sector size and assignment, do not change the data evaluated and are refused for mismatched shapes. AIAA benchmark files (cross spectra, microphones, time data, trigger) import as written.',
     ['inputs'], 'all arguments in the documented domain', EX + 'single values.',
     ['acoular/tools/helpers.py', 'acoular/tools/utils.py', 'acoular/tools/metrics.py', 'acoular/aiaa/aiaa.py'], [('helpers', 'acoular/tools'), ('import', 'acoular/aiaa/aiaa.py')], ['return values'], T_MODEL + ' and round trips', NOTE)
