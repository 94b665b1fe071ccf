"""The properties, in one place (see mkmeta.py)."""
NOT_APPLICABLE = []
PROPS = []


def P(id, title, statement, over, forall, why, files, mech, technique, note, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why,
                      files=files, mech=mech, technique=technique, note=note, **k))


P('C01', 'Every component runs in dataflow order on the values it was wired to',
  """In a simulation built from a parameter file, at every step each component that has a fresh input (and only such a
  component) runs exactly once, after all the components it reads without delay, and sees exactly the outputs they
  produced in this step, whatever the declaration order. An input marked with a one-step delay shows the producer's output of the
  previous step. A wiring that names a missing object, output or input, or has the wrong type, is refused when the simulation is built.""",
  ['configurations', 'histories'],
  'all acyclic wirings with optional one-step-delayed feedback links, all declaration orders, update rates and run lengths; and all single wiring faults',
  """Tests run a handful of hand-written wirings, mostly chains, and look at final values; they never compare whole runs of
  random graphs with feedback, mixed rates and shuffled declarations against an independent evaluator.""",
  ['specula/simul.py', 'specula/loop_control.py', 'specula/base_processing_obj.py', 'specula/connections.py'],
  [('trigger order', 'Simul.trigger_order / build_trigger_order'), ('freshness test', 'BaseProcessingObj.check_ready'),
   ('input resolution', 'InputValue / InputList'), ('connection checks', 'Simul.connect_objects')],
  'random wirings of probe components run through Simul and LoopControl, compared with a dictionary interpreter of the dataflow semantics; injected wiring faults',
  'Generated wirings of up to 10 components, up to 9 steps; CPU, single process.')

P('C02', 'Simulated time is exact and integrations cover exactly their windows',
  """Times given in decimal seconds are represented exactly on the nanosecond clock, and a run executes exactly the
  steps of its total duration at exact multiples of the time step, whatever the step length. Every output of a component with an
  integration time is the integral of exactly the input samples inside its window: no sample is lost, counted twice, or leaked into a
  neighbouring window. An integration time that is not a multiple of the time step is refused.""",
  ['configurations', 'histories'],
  'all decimal time steps from 1 ns, run lengths, integration times, and input histories including steps with no fresh input',
  """Tests use one or two round time steps for which binary rounding does not bite, and integrate one window of constant input.""",
  ['specula/base_time_obj.py', 'specula/loop_control.py', 'specula/processing_objects/ccd.py', 'specula/processing_objects/windowed_integration.py'],
  [('clock', 'BaseTimeObj.seconds_to_t, t_to_seconds'), ('loop', 'LoopControl.start/iter'), ('integration', 'CCD.trigger_code, WindowedIntegration.trigger_code')],
  'generated decimal times against rational arithmetic; generated input histories against a window-sum model',
  'Decimal mantissas up to 5 digits and exponents -9..-1; windows up to a few tens of steps.')

P('C03', 'Parameter files, extra files and command-line overrides compose as documented',
  """The parameters a simulation runs with are the main file followed by the additional files and command-line
  overrides in order: additions, overrides and removals each affect exactly the objects and entries they name and
  nothing else, and files for another simulation index are ignored. A combination that contradicts itself (adding an existing object,
  overriding or removing a missing one) is refused.""",
  ['configurations'],
  'all sequences of parameter files and override strings over generated objects and values, and single-fault variants of them',
  'Tests compose one or two files with one override; precedence between several files, simulation indexes, removals and the command line is not sampled together.',
  ['specula/simul.py', 'specula/__init__.py'],
  [('file combination', 'Simul.combine_params'), ('overrides', 'Simul.apply_overrides')],
  'generated stacks of parameter files against a dictionary-merge model, with fault injection',
  'Up to 5 additional files, up to 3 simulation indexes.')

P('C04', 'Parameter files resolve to exactly the objects and data they name',
  """Every object described in a parameter file is built with exactly the parameter values given there: references to
  other objects become those very objects, names of calibration data become the data stored under that name (in the place where data of
  that type belong), and everything not given takes the documented default, in any order of declaration. A file that names an unknown
  parameter, a missing object, or missing calibration data is refused when the simulation is built, not silently ignored.
  Data written to the calibration tree under a name are read back, unchanged, under that name only.""",
  ['configurations'],
  'all parameter files over objects with plain, referenced, listed and tagged parameters, in any order; all single contradictions of them',
  'Tests build a few fixed files; they do not vary order, mix of reference kinds and calibration names together, nor inject one contradiction in each place.',
  ['specula/simul.py', 'specula/calib_manager.py', 'specula/init_gpu.py'],
  [('object construction', 'Simul.build_objects'), ('calibration tree', 'CalibManager.filename, read/write methods')],
  'generated systems of objects and a calibration tree with known content, compared with what was built; injected contradictions',
  'Up to 7 objects per file, one contradiction at a time.')

P('C05', 'Stored data are the history of the run, and replaying them reproduces it',
  """For every output chosen for storage, the files written hold exactly the samples that output produced and the exact
  times at which it produced them, subject only to the requested down-sampling, start time and splitting in several folders:
  no sample is lost, altered, duplicated between consecutive chunks or reordered, in either file format. Feeding the files back through a
  data source re-creates objects of the same type, metadata and values at the same times, and a replay generated from a run (whole, or
  targeted at one component) gives every component left in it exactly what it computed in the original run.""",
  ['configurations', 'histories'],
  'all histories of outputs of all storable types with missing samples, all storage options, all wirings with a subset of outputs stored',
  'Tests store one or two outputs present at every step; chunk boundaries, irregular updates, down-sampling per input and replays of random graphs are not combined.',
  ['specula/processing_objects/data_store.py', 'specula/processing_objects/data_source.py', 'specula/simul.py'],
  [('storage', 'DataStore.trigger_code, finalize, save_fits/save_pickle'), ('replay source', 'DataSource'),
   ('replay files', 'Simul.build_replay, build_targeted_replay')],
  'generated histories compared with the files and with the replay; generated wirings run, replayed and compared with an interpreter',
  'Up to 14 steps, 3 stored objects, wirings of up to 10 components. With splitting, a repeated copy of the samples of the last step is accepted (finalize looks at it again).')

P('C06', 'Saving an object and restoring it gives back the same object',
  """Every data object written to disk and read back is equal to the original: same values, shape, numeric type, and
  every physical and descriptive attribute (geometry, units, tags, normalizations, filters' coefficients), whatever its content. The header-only
  reconstruction agrees with the full one, existing files are overwritten only when asked, and spot kernels taken from the
  on-disk cache equal those computed afresh.""",
  ['inputs'],
  'all savable object types, shapes, contents and attribute combinations, in single and double precision',
  'Tests save one or two default instances per class and compare the main array; attributes away from their defaults are mostly not compared.',
  ['specula/data_objects', 'specula/base_value.py'],
  [('save/read', 'save, read, restore, get_fits_header, from_header of every data object'), ('kernel cache', 'data_objects/convolution_kernel.py')],
  'generated objects of every savable class through save and restore, attribute by attribute',
  'Arrays up to a few tens of elements per side; textual attributes are plain ASCII as FITS requires.')

P('C08', 'Temporal filters obey their difference equation and their declared delay',
  """Every control filter (IIR, integrator, state-space, low-pass, and the dynamic variants) outputs at every step exactly
  what its difference equation gives for the history of inputs it received since the start or the last reset, mode by mode, with the declared
  total delay (interpolated if fractional), the current gain modulation or dynamic gains, and the previous output when an input is
  missing. Modes do not influence each other. Equivalent descriptions of one filter (gains, poles and zeros, transfer function, state-space)
  give the same output, and the frequency response, stability and gain limits reported for a filter are those of the filter that runs.""",
  ['inputs', 'histories'],
  'all filters up to order 4, delays, per-mode gains and forgetting factors, input histories with missing samples and resets, both precisions',
  'Tests check a step response of one or two integrators; fractional delays, mixed orders, per-mode filters, gain modulation, resets and missing inputs are not combined.',
  ['specula/processing_objects/iir_filter.py', 'specula/processing_objects/integrator.py', 'specula/processing_objects/dynamic_iir_filter.py',
   'specula/processing_objects/dynamic_integrator.py', 'specula/processing_objects/ssr_filter.py', 'specula/processing_objects/low_pass_filter.py',
   'specula/data_objects/iir_filter_data.py', 'specula/data_objects/ssr_filter_data.py'],
  [('recursion', 'IirFilter.trigger_code, SsrFilter.trigger_code'), ('delay line', 'IirFilter.post_trigger'), ('frequency domain', 'IirFilterData transfer functions and stability')],
  'generated filters and input histories run in the real loop against a direct recursion in double precision; differential between equivalent filters',
  'Up to 4 modes, order 4, 25 steps.')

P('C10', 'Signal generators produce exactly the documented signal at every step',
  """Every signal source (waves, schedules, push-pull sequences, recorded histories, random vectors, vibrations from a
  power spectrum) outputs at every step of the run the value its definition gives for that time, element by element, whatever the step,
  start time and length of the run: schedules switch exactly at their times, sequences have the declared amplitudes, order and
  repetitions, and random signals are reproducible from their seed, differ between seeds, and have the declared mean, amplitude and spectrum.""",
  ['configurations', 'histories'],
  'all generator parameters, scalar or vector, time steps, start times and seeds',
  'Tests check one waveform at a few steps with constant parameters; boundaries, vectors of different lengths, late starts and inexact time steps are not sampled.',
  ['specula/processing_objects/wave_generator.py', 'specula/processing_objects/schedule_generator.py', 'specula/processing_objects/push_pull_generator.py',
   'specula/processing_objects/random_generator.py', 'specula/processing_objects/time_history_generator.py', 'specula/processing_objects/vibration_generator.py',
   'specula/lib/modal_pushpull_signal.py', 'specula/lib/utils.py'],
  [('per-step value', 'trigger_code of each generator'), ('push-pull', 'modal_pushpull_signal'), ('spectra', 'psd_to_signal')],
  'generated parameters run in the real loop against closed-form or step-by-step models; statistical checks beyond 6 sigma',
  'Up to a few hundred steps.')

P('C11', 'Vector operations compute exactly what they declare on the values of each step',
  """Components that combine vectors (arithmetic operations, slices, insertions, concatenation, linear combination of
  commands, matrix products, mirror command assembly, buffering, demodulation, optical gain estimation) output exactly the declared function
  of the values their inputs hold at that step: every element goes to its declared place, no element is lost or repeated, a result already
  delivered does not change when the input arrays change later, and inputs are left as they were.""",
  ['inputs', 'histories'],
  'all operations, lengths, index lists, slices, index maps, constants, missing updates and window lengths, both precisions',
  'Tests check each operation once with short constant vectors, never with missing updates, mismatched lengths, or values that change after delivery.',
  ['specula/processing_objects/base_operation.py', 'specula/processing_objects/base_slicer.py', 'specula/processing_objects/base_inserter.py',
   'specula/processing_objects/linear_combination.py', 'specula/processing_objects/mvm.py', 'specula/processing_objects/mirror_commands_combinator.py',
   'specula/processing_objects/data_buffer.py', 'specula/processing_objects/demodulator.py', 'specula/processing_objects/optical_gain_estimator.py'],
  [('element-wise results', 'trigger_code of each component'), ('windows', 'Demodulator, DataBuffer')],
  'generated input histories run in the real loop against dense array algebra',
  'Vectors up to a few tens of elements, runs of a few tens of steps.')


P('C15', 'Light crosses the layers towards each source exactly as geometry prescribes',
  """For every source and set of layers, the field at the pupil is the product of the pupil amplitudes and the sum of the layer
  phases, each sampled where the line of sight to that source crosses that layer (direction, finite height, layer shift, rotation and
  magnification included). A source that falls outside a layer is refused, never answered with wrong data. With wave propagation switched on,
  energy is conserved and the result is the angular-spectrum one. Propagation is linear in the phases; combining, reflecting and flattening fields
  and taking their complex amplitude do exactly what they declare, for any shape.""",
  ['inputs', 'configurations', 'histories'],
  'all layer sizes, heights, shifts, rotations, magnifications, source directions and heights, update histories, merged or layer-by-layer, grid parities, both precisions',
  'Tests use one or two layers with fixed shapes and check few pixels; geometry has too many combinations (direction, height, shift, rotation, size parity) to sample by hand.',
  ['specula/processing_objects/atmo_propagation.py', 'specula/processing_objects/atmo_propagation_up_down.py', 'specula/lib/extrapolation_2d.py', 'specula/lib/interp2d.py',
   'specula/data_objects/electric_field.py', 'specula/data_objects/layer.py', 'specula/processing_objects/electric_field_combinator.py',
   'specula/processing_objects/electric_field_reflection.py', 'specula/processing_objects/chromatic_displacement.py'],
  [('geometry', 'AtmoPropagation.layer_interpolator'), ('bilinear sampling', 'Interp2D'), ('wave propagation', 'AtmoPropagation.physical_propagation'),
   ('complex amplitude', 'ElectricField.ef_at_lambda')],
  'generated layers, sources and update histories run in the real loop against a direct geometric model in double precision; metamorphic relations (superposition, energy)',
  'Layers up to a few tens of pixels.')

P('C16', 'Turbulence follows wind and seeing, has the right statistics, is reproducible',
  """Each turbulent layer is the generated screen displaced by exactly the distance the wind has blown since the start, along the wind direction,
  scaled with seeing, zenith angle and layer strength; it depends only on the elapsed time, not on the steps taken. Screens have the declared
  von Karman spectrum, are the same for the same seed, outer scale, size and pitch (cached or computed), independent for different seeds, and never
  confused with those of other parameters. Layers are large enough for every source in the declared field. Uncorrelated screens change exactly
  every declared number of steps, and recorded screens are interpolated in time.""",
  ['inputs', 'configurations', 'histories'],
  'all profiles, outer scales, zenith angles, fields of view, pupil positions, wind and seeing histories, lead times, seeds and cache contents, both precisions',
  """Tests check shapes, one-step evolutions and structure functions with wide margins; the motion over changing winds, the seeds of each layer,
  cache confusions and the geometry of off-axis pupils need many histories and configurations.""",
  ['specula/processing_objects/atmo_evolution.py', 'specula/processing_objects/atmo_evolution_up_down.py', 'specula/processing_objects/atmo_infinite_evolution.py',
   'specula/processing_objects/atmo_random_phase.py', 'specula/processing_objects/phase_screen_cube.py', 'specula/lib/phasescreen_manager.py',
   'specula/lib/calc_phasescreen.py', 'specula/data_objects/infinite_phase_screen.py'],
  [('motion', 'AtmoEvolution.trigger_code'), ('screens', 'calc_phasescreen'), ('cache', 'phasescreens_manager'), ('infinite screens', 'InfinitePhaseScreen.add_line')],
  'generated atmospheres and wind histories run in the real loop against a model that moves the generated screens; metamorphic relations and statistical tests beyond 6 sigma',
  'Screens up to 256 pixels; one known finding (empty row of calc_phasescreen).')

P('C12', 'Detector frames are the photons integrated, read out as configured',
  """A detector frame is the photon flux integrated over its exposure, in photons, converted by the configured pixel binning,
  background, dark current, throughput and gain with nothing lost or counted twice; without noise it is linear in the incoming light.
  Each noise source, enabled alone, has its documented statistics and is reproducible from its seed; quantization and saturation keep pixels in the
  converter range; and calibrated frames (pixel gain, dark, bias, bad pixels) undo what was applied.""",
  ['inputs', 'histories', 'configurations'],
  'all images, binnings, integration lengths, noise switches and seeds; sequences of frames',
  'Tests check single frames with one switch on and constant images; combinations of switches, non-square images, fluxes near saturation and statistics of each noise over seeds are not sampled.',
  ['specula/processing_objects/ccd.py', 'specula/processing_objects/dynamic_dark_calibrator.py', 'specula/lib/rebin.py', 'specula/data_objects/pixels.py'],
  [('readout', 'CCD.apply_binning, apply_noise, apply_qe'), ('dark calibration', 'DynamicDarkCalibrator'), ('binning', 'rebin2d')],
  'generated images, detector settings and histories against an independent detector model; statistics of generated noise with bounds at many sigmas',
  'Images up to a few tens of pixels; noise statistics over up to 1e5 pixels.')

P('C13', 'Modal reconstruction and control follow their equations at every rate',
  """Reconstructed modes are the configured matrices applied to the most recent slopes of every sensor (and, in pseudo open loop, to the commands
  in force), whatever subset of inputs is fresh, with the pseudo-inverse where an interaction matrix is given: explicit and implicit pseudo-open-loop reconstructors agree, truncations and filters act on the modes they name.
  The multi-rate reconstructors combine sensors so that each mode is taken once with the documented low- and high-pass complement, and the
  gain optimizer chooses the gain which minimises the residual predicted from the recorded spectra within the stable range.""",
  ['inputs', 'histories', 'configurations'],
  'all matrices, sensor partitions, command and slope histories at different rates, modal filters',
  'Tests use one matrix, one step and one sensor; missing inputs, several vectors, different rates and the equivalence of the two formulations over histories are not sampled.',
  ['specula/processing_objects/modalrec.py', 'specula/processing_objects/modalrec_implicit_polc.py', 'specula/processing_objects/modalrec_multirate.py',
   'specula/processing_objects/multirate_complementary_filter.py', 'specula/processing_objects/gain_optimizer.py'],
  [('reconstruction', 'Modalrec.trigger_code'), ('implicit pseudo open loop', 'ModalrecImplicitPolc'), ('multi rate', 'ModalrecMultirate, MultirateComplementaryFilter'), ('gain optimization', 'GainOptimizer')],
  'generated matrices and command/slope histories compared with the matrix equations and with a second formulation; gain search compared with a dense scan of the predicted variance',
  'Up to 12 slopes, 6 modes, 8 steps.')

P('C14', 'Deformable mirrors and modal analysis are linear and inverse of each other',
  """The wavefront of a deformable mirror is, at every step, its sign times the sum of the selected influence functions
  weighted by the latest commands (through the modes-to-commands matrix if there is one), inside the mask and zero outside. Modal analysis
  gives the least-squares modes of the phase inside the mask, for each of its inputs, so it returns the commands of a mirror with the same functions;
  with unwrapping it does so for a wrapped phase. Selecting modes keeps exactly the modes named, and never alters the functions used by other objects.""",
  ['inputs', 'histories', 'configurations'],
  'all influence functions, masks, mode selections, modes-to-commands matrices, command and phase histories',
  'Tests use a few Zernike modes, one command and one selection at a time; shared influence functions, lists of fields and unwrapping of steep phases are not sampled.',
  ['specula/processing_objects/dm.py', 'specula/processing_objects/modal_analysis.py', 'specula/data_objects/ifunc.py', 'specula/data_objects/ifunc_inv.py', 'specula/data_objects/m2c.py'],
  [('mirror', 'DM.trigger_code'), ('analysis', 'ModalAnalysis.trigger_code'), ('unwrapping', 'ModalAnalysis.unwrap_ls'), ('selection', 'cut_modes')],
  'generated functions, masks, selections and histories against matrix products and least squares; mirror-to-analysis round trips; wrapped phases against the phase before wrapping',
  'Masks up to 20x20, 8 modes, 6 steps.')

P('C07', 'Operations on data objects change exactly what they name; copies are independent',
  """Resizing, selecting, assigning and combining fields, slopes, matrices, influence functions and sub-aperture maps
  change exactly the elements they name and leave operands and other objects alone; components of a slope vector, masks, maps and indices of the
  same object always agree with each other; and a value given to an object, or transferred from one object to another, is copied: later changes of one side never show on the other.
  Operations that do not fit the object (shapes, ranges) are refused.""",
  ['inputs', 'histories'],
  'all sequences of operations on objects of any size, both slope orderings, both precisions',
  'Tests apply one operation to one small object; sequences, interleaved ordering, odd shapes, and aliasing between operands are not sampled.',
  ['specula/data_objects/slopes.py', 'specula/data_objects/electric_field.py', 'specula/data_objects/intmat.py', 'specula/data_objects/recmat.py', 'specula/data_objects/pupdata.py',
   'specula/data_objects/subap_data.py', 'specula/base_data_obj.py', 'specula/base_value.py'],
  [('slopes', 'Slopes'), ('fields', 'ElectricField.product, ef_at_lambda'), ('matrices', 'Intmat, Recmat'), ('transfers', 'BaseDataObj.transferDataTo'), ('sub-apertures', 'PupData, SubapData')],
  'stateful sequences of operations against array models; aliasing probes after transfers and assignments',
  'Up to 6 operations, sizes up to 12; CPU only.')

P('C17', 'Slope computers give the documented signals for every frame and option',
  """For every frame, the Shack-Hartmann computer gives for each sub-aperture the (weighted) centroid of its thresholded pixels, in units of half a
  sub-aperture, the pyramid and double-roof computers the differences of the four pupils divided by the mean (or total, or given) flux, or the normalised
  intensities, the curvature computer the normalised difference of the two images, the Zernike computer the normalised intensity, and the interferometric one the
  demodulated phase; then reference slopes are subtracted and the matrices applied, in both orderings. Fluxes and counts are those of the frame.
  Sub-apertures, or frames, with no light give zero slopes, never NaN or infinity; the 2D view puts each slope at its sub-aperture.""",
  ['inputs', 'histories', 'configurations'],
  'all frames (negative, sparse and dark ones too), maps, thresholds, weights, references, normalisations and orderings, in both precisions',
  'Tests use a few bright frames and one option at a time; dark frames, accumulated weights over several periods, radius schedules, odd sizes and the 2D views are not sampled.',
  ['specula/processing_objects/slopec.py', 'specula/processing_objects/sh_slopec.py', 'specula/processing_objects/pyr_slopec.py', 'specula/processing_objects/double_roof_slopec.py',
   'specula/processing_objects/cur_wfs_slopec.py', 'specula/processing_objects/zwfs_slopec.py', 'specula/processing_objects/ciao_ciao_slopec.py'],
  [('centroids', 'ShSlopec.calc_slopes_nofor'), ('weights', 'Slopec.do_accumulation'), ('quad differences', 'PyrSlopec.trigger_code'), ('reference and filtering', 'Slopec.post_trigger'), ('demodulation', 'CiaoCiaoSlopec.trigger_code')],
  'generated maps, frame sequences and options through each slope computer against direct formulas in double precision, and 2D views against the maps',
  'Up to 16 sub-apertures of 9x9 pixels, pupils up to 7x7, 14 frames.')

P('C18', 'Shack-Hartmann images are the diffraction images of the lenslets',
  """For every field and geometry, the Shack-Hartmann image is, lenslet by lenslet, the squared Fourier transform of that part of the field (amplitude and phase at the
  sensing wavelength), limited by the field stop and binned on the detector pixels; its total is the flux of the lit pupil, it is never negative nor NaN. The spot of
  a lenslet depends on its own light only and not on its piston; a tilt moves it by its angle over the pixel scale in its own direction. Other sensors in the same
  simulation have no effect. The distributed sensor gives the same image for any number of slices, the polychromatic one the flux-weighted sum of the monochromatic
  images, and the ideal sensor the mean phase derivative of the lit pixels of each sub-aperture.""",
  ['inputs', 'configurations', 'histories'],
  'all amplitudes and phases, lenslet counts, samplings, field stops, and other sensors in the same simulation, in both precisions',
  'Tests check flux, a tilt and two or three geometries with a single sensor; buffers are shared between sensors of one process and no test compares an image with diffraction theory.',
  ['specula/processing_objects/sh.py', 'specula/processing_objects/poly_chrom_sh.py', 'specula/processing_objects/poly_chrom_wfs.py', 'specula/processing_objects/distributed_sh.py',
   'specula/processing_objects/ideal_derivative_sensor.py', 'specula/lib/toccd.py', 'specula/data_objects/lenslet.py'],
  [('images', 'SH.trigger_code'), ('sampling', 'SH._set_in_ef, _calc_geometry'), ('flux', 'SH.post_trigger'), ('slices', 'DistributedSH.post_trigger'), ('colours', 'PolyChromWFS.post_trigger'), ('derivatives', 'IdealDerivativeSensor.trigger_code')],
  'generated fields and geometries against direct matrix Fourier transforms in double precision, together with other sensors sharing the buffers; invariance under piston, transposition and darkening elsewhere',
  'Exact images without interpolation of the field, up to 5x5 lenslets; interpolated geometries by invariance; no laser kernels.')
P('C19', 'Pyramid, Zernike and interferometric sensors follow wave optics',
  """For every field and geometry, the image of the modulated pyramid is the sum over the modulation points (circular, or along a line weighted by the time spent there) of
  the squared modulus of the field propagated to the focal plane, multiplied by the four facets and the field stop, and back to the pupil plane, binned on the
  detector; its total is the flux of the pupil times the reported transmission and the reported fraction inside the detector; the focal plane outputs are the modulated
  intensities before and after the stop. Piston changes nothing and a mirrored field gives the mirrored image. The double roof, the Zernike sensor (phase shifting spot),
  the pyramid with an extended source (flux-weighted points, with the faint ones on the faces, however they are batched) and the polychromatic pyramid (weighted sum of the
  colours) obey the same construction; the rotating interferometer gives the fringes of the field with itself rotated and tilted.""",
  ['inputs', 'configurations', 'histories'],
  'all amplitudes and phases, modulations, samplings, distances and sizes of the pupils, sources and batches, in both precisions',
  'Tests check shapes, approximate flux and symmetry of a flat wavefront for one geometry of each sensor; none compares an image with diffraction theory.',
  ['specula/processing_objects/modulated_pyramid.py', 'specula/processing_objects/modulated_double_roof.py', 'specula/processing_objects/ext_source_pyramid.py',
   'specula/processing_objects/poly_crom_pyramid.py', 'specula/processing_objects/zernike_sensor.py', 'specula/processing_objects/ciao_ciao_sensor.py'],
  [('images', 'ModulatedPyramid.trigger_code'), ('geometry', 'ModulatedPyramid.calc_pyr_geometry'), ('modulation', 'ModulatedPyramid.cache_ttexp'), ('flux', 'ModulatedPyramid.post_trigger'),
   ('source', 'ExtSourcePyramid'), ('fringes', 'CiaoCiaoSensor.trigger_code')],
  'generated fields and geometries against direct matrix Fourier transforms in double precision written from the optical definition; symmetry relations and sums over colours',
  'No interpolation of the field; sharp edges and tip; pupils up to 20 pixels; 8 to 12 modulation steps typical.')
P('C20', 'Focal plane images, Strehl ratio and coronagraphs follow diffraction theory',
  """For every field, the PSF is the squared modulus of the Fourier transform of the complex pupil field at its wavelength, centred, with unit sum, on the sampling requested as
  pixels per lambda/D or as the pixel size nearest to the requested angle; the Strehl ratio is its centre relative to that of the flat pupil and is at most 1. Integrated
  image, Strehl ratio and standard deviation are those of exactly the steps from the start time on; profile, FWHM and encircled energy are those of the image. The perfect
  coronagraph removes the requested coherent part. A Lyot, knife edge, four quadrant, vortex or apodizing coronagraph gives the field filtered by exactly its apodizer, its
  focal plane mask with the requested angles, and its pupil stop with the requested radii, and scales the flux by the transmitted fraction; a phase apodizer has unit modulus and reaches the
  contrast in the requested region.""",
  ['inputs', 'configurations', 'histories'],
  'all pupils, phases, wavelengths, samplings, start times, mask angles and stop radii, in both precisions',
  'Tests compare shapes and inequalities for one pupil; they accept masks of any size, missing stops and a wrong average.',
  ['specula/processing_objects/psf.py', 'specula/processing_objects/psf_coronagraph.py', 'specula/lib/calc_psf.py', 'specula/lib/radial_profile.py',
   'specula/processing_objects/abstract_coronagraph.py', 'specula/processing_objects/lyot_coronagraph.py', 'specula/processing_objects/vortex_coronagraph.py',
   'specula/processing_objects/four_quadrant_coronagraph.py', 'specula/processing_objects/apodizer_coronagraph.py'],
  [('image', 'calc_psf'), ('sampling', 'calc_psf_sampling'), ('Strehl', 'PSF.trigger_code'), ('integration', 'PSF.post_trigger, finalize'), ('profiles', 'compute_radial_profile'),
   ('coronagraph', 'Coronagraph.trigger_code'), ('masks', 'make_focal_plane_mask, make_pupil_plane_mask')],
  'generated fields and configurations against direct matrix Fourier transforms and masks written from the definitions, in double precision; histories of steps against their mean and deviation',
  'Square pupils up to 20 pixels; no interpolation of the field; dark holes only where the phase retrieval converges.')
P('C21', 'Zernike polynomials, influence functions and modal bases',
  """Mode j of the Zernike generator is Noll's polynomial on the disc of the given centre and radius, zero outside, and its derivatives are its derivatives. Zernike influence
  functions have zero mean and unit rms in any mask and each lies in the span of the polynomials up to its own, orthogonal to the previous ones. Zonal influence functions are 1 at their actuator
  and 0 at the others for every geometry; mechanical coupling and slaving combine them with the stated weights (linear slaving extends planes). Selection
  of modes, inverse, and two to three dimensional conversion are consistent. A modal base made from influence functions is orthonormal, without piston and filtered modes, uncorrelated
  under von Karman turbulence in order of decreasing variance, starts with the requested Zernike modes, and its mode to command matrix makes those shapes.""",
  ['inputs', 'configurations'],
  'all modes, masks, geometries of actuators, influence functions and atmospheric parameters',
  'Tests check shapes and a few reference values; the modal base is compared with one stored result with Zernike modes and its commands never.',
  ['specula/lib/zernike_generator.py', 'specula/lib/compute_zern_ifunc.py', 'specula/lib/compute_zonal_ifunc.py', 'specula/lib/modal_base_generator.py',
   'specula/data_objects/ifunc.py', 'specula/data_objects/ifunc_inv.py', 'specula/data_objects/m2c.py', 'specula/lib/mask.py'],
  [('polynomials', 'ZernikeGenerator'), ('Zernike influence functions', 'compute_zern_ifunc'), ('zonal', 'compute_zonal_ifunc, apply_slaving'), ('modal base', 'make_modal_base_from_ifs_fft'),
   ('selection', 'cut_modes')],
  'generated modes, masks and mirrors against factorial series, finite differences, interpolation conditions, and a direct computation of the turbulence covariance',
  'Modes up to 45; up to 49 actuators for zonal and 24 for modal bases; a piston of the modes is not compared in the command matrix.')

P('C22', 'Resampling, interpolation and geometric masks are exact',
  """Rebinning an image to any shape integrates it over the new pixels (areas of overlap) and keeps its total or the one requested; sampled and averaged rebinning pick and average the stated elements and
  refuse other factors. Interpolation is bilinear at the positions given by shape, rotation, magnification and shift, clipped to the array, and interpolating twice or after changing a parameter gives
  what a new interpolator would. Fields keep values inside the pupil: what lies outside of it never enters, and the extrapolation around the edge continues constants and planes exactly. Circular,
  annular, square and spider masks contain exactly the pixels inside the shape, with their inverse, centre and indices; grids have the documented origin; petals partition the pupil between the spider
  arms. Focal plane geometry reaches the requested field with the smallest oversampling. Local means, shifts by phase and orthogonalisation have their defining property.""",
  ['inputs', 'configurations'],
  'all shapes, factors, positions, masks, geometries and array values',
  'The tests compare a few square arrays with integer factors, and masks with stored or symmetric results.',
  ['specula/lib/toccd.py', 'specula/lib/rebin.py', 'specula/lib/interp2d.py', 'specula/lib/extrapolation_2d.py', 'specula/lib/make_mask.py', 'specula/lib/make_xy.py',
   'specula/lib/mask.py', 'specula/lib/calc_geometry.py', 'specula/lib/utils.py', 'specula/lib/compute_petal_ifunc.py'],
  [('rebinning', 'toccd, rebin2d'), ('interpolation', 'Interp2D.interpolate, EFInterpolator'), ('extrapolation', '_calculate_extrapolation_indices_coeffs, _apply_extrapolation'),
   ('masks', 'make_mask, CircularMask, AnnularMask'), ('geometry', 'make_xy, calc_geometry, compute_petal_ifunc')],
  'generated arrays and shapes against overlap areas, bilinear sums, geometric membership tests and metamorphic relations (constants, planes, whole shifts)',
  'CPU arrays only. Extrapolated values are checked where two references exist in each direction, and for constants anywhere.')

P('C23', 'Photometry, extended sources, laser spots and air refraction',
  """The photons of a star follow magnitude, band, wavelength, width, zero point, surface and time with the band tables of each model; a source gives its photon density and position and survives saving.
  An extended source is a set of points inside its shape, covering it, centred, with fluxes that add up to one and follow the disc, the Gaussian or the PSF at each point, with the tip, tilt and focus
  coefficients of that direction and distance; it follows the PSF it receives, cropped or padded, and ignores a dark one. The spot of a laser seen by each subaperture is the projection of the sodium
  layer from the launcher, normalised, for the current profile and settings whatever was computed or stored before. Air refractivity agrees with the standard formula for all temperatures and pressures;
  the winds and delays of a satellite link follow from the geometry; the noise weights of elongated spots are the inverse of their covariance.""",
  ['inputs', 'configurations', 'histories'],
  'all magnitudes, bands, sizes, samplings, PSF sequences, sodium profiles, launcher positions and states of the kernel directory',
  'Tests use one star, one source per type and one kernel; neither change of profile with files on disk nor geometry is compared with anything.',
  ['specula/lib/n_phot.py', 'specula/data_objects/source.py', 'specula/processing_objects/extended_source.py', 'specula/data_objects/convolution_kernel.py',
   'specula/data_objects/gaussian_convolution_kernel.py', 'specula/data_objects/laser_launch_telescope.py', 'specula/lib/air_refraction.py', 'specula/lib/fsoc_lib.py',
   'specula/lib/calc_noise_cov_elong.py'],
  [('photons', 'n_phot, Source.phot_density'), ('extended source', 'ExtendedSource.compute, ExtendedSource.trigger'), ('laser spots', 'lgs_map_sh, ConvolutionKernel.prepare_for_sh'),
   ('refraction', 'MatharAirRefraction.get_refractive_index'), ('noise', 'calc_noise_cov_elong')],
  'generated stars, sources and histories of settings against closed formulas, geometric projection of the spot in double precision, and the standard refractivity formula',
  'Kernels up to 4x4 lenslets of 11 pixels; refractivity within 0.8% of the standard formula (the two models of the code differ by less).')

P('C24', 'Calibrators measure and store what was applied and seen',
  """A push-pull calibration yields, for each mode from the first to the last wanted, the mean of slopes over amplitude of all the fresh measurements in which that mode was moved; other
  modes, all-zero commands and stale slopes add nothing; several sensors keep their own matrices and the stacked one. A reconstructor is the pseudo-inverse of the wanted columns, or
  the minimum mean square error one for the turbulence covariance and any form of the noise covariance, in any units. A slope null is the mean of the slopes seen. Subapertures are the lenslets whose
  flux in the last frame exceeds the threshold, with their pixels and map; pyramid pupils are where the light is in each quadrant, with the integration, thresholds and obstruction asked. What is
  saved is what was measured, in absolute or relative, existing or new directories, an existing file is never replaced unless asked, and automatic names differ where
  the parameters they name do. A matrix follows any history of resizing, slicing and saving.""",
  ['inputs', 'histories', 'configurations'],
  'all push-pull histories, amplitudes, mode ranges, numbers of sensors, covariances, frames, thresholds and sequences of matrix operations',
  'Tests calibrate from the first mode with one push per mode, into an existing absolute directory, and call trigger_code by hand, which hides objects that cannot run in a loop.',
  ['specula/processing_objects/im_calibrator.py', 'specula/processing_objects/multi_im_calibrator.py', 'specula/processing_objects/rec_calibrator.py',
   'specula/processing_objects/multi_rec_calibrator.py', 'specula/processing_objects/sn_calibrator.py', 'specula/processing_objects/sh_subap_calibrator.py',
   'specula/processing_objects/pyr_pupdata_calibrator.py', 'specula/processing_objects/dynamic_pyr_pupdata_calibrator.py', 'specula/data_objects/intmat.py',
   'specula/data_objects/recmat.py', 'specula/lib/mmse_reconstructor.py'],
  [('push-pull', 'ImCalibrator.trigger_code, MultiImCalibrator.trigger_code'), ('reconstructors', 'Intmat.generate_rec, Intmat.generate_rec_mmse, compute_mmse_reconstructor'),
   ('subapertures', 'ShSubapCalibrator._detect_subaps'), ('pupils', 'PyrPupdataCalibrator.trigger_code'), ('matrices', 'Intmat.set_nmodes, Intmat.set_start_mode')],
  'generated calibration histories run in the control loop against accumulating models, Moore-Penrose conditions, the second form of the MMSE estimator, and independent selections of pixels',
  'MultiImCalibrator is fed fresh slopes at every step (it does not test staleness, and tests rely on that); up to 9 slopes and 9 actuators.')
P('C25', 'The field of a stored run is what the run would have measured there',
  """Analysing a stored closed loop at other positions of the field gives, for each position, the wave fronts, modal coefficients (with their mean and variance) and integrated image and Strehl
  ratio which cameras and modal sensors placed there would have given in that very run: for any positions, however close, with positive or negative angles, wavelength, sampling, first time of
  the integration, mirrors on the pupil or at altitude, stored or computed commands, and file format. Results found on disk are used only when they are those asked for.""",
  ['inputs', 'histories', 'configurations'],
  'all lists of positions and sequences of analyses of the same run, with mirrors, delays, gains, turbulence, formats and settings',
  'The test analyses one position on the axis with one setting, which hides what happens between positions and between analyses.',
  ['specula/field_analyser.py', 'specula/simul.py', 'specula/processing_objects/data_source.py', 'specula/processing_objects/data_store.py'],
  [('analysis', 'FieldAnalyser.compute_field_psf, compute_modal_analysis, compute_phase_cube'), ('replay', 'Simul.build_targeted_replay')],
  'differential test: the analysis of a generated stored run against the run itself with sources, cameras and modal sensors at these positions',
  'Small loops without a wave front sensor (modal sensor, integrator, one or two mirrors), up to 5 positions and 8 steps.')

P('C26', 'Components only read what they are given, share nothing, always do the same',
  """No component changes the data objects it reads, nor the matrices, masks and lists it was built with, so that other components can use the same. Two equal components fed with the same inputs
  in one simulation give the same outputs at the same times; a component, or a whole simulation run twice in one process, with anything run in between, and with its files made or found, gives the
  same outputs bit by bit or up to rounding. All floating point outputs are in the precision of the simulation.""",
  ['inputs', 'histories', 'interference'],
  'all the generated inputs, settings and histories of the other checks, for about sixty components, interfering with themselves and each other',
  'Tests give each component its own inputs and settings and throw them away afterwards, so that nobody sees what was changed in them.',
  ['specula/base_processing_obj.py', 'specula/base_data_obj.py', 'specula/processing_objects/modalrec.py', 'specula/processing_objects/pyr_slopec.py', 'specula/processing_objects/ext_source_pyramid.py',
   'specula/data_objects/recmat.py', 'specula/data_objects/electric_field.py', 'specula/simul.py'],
  [('inputs', 'BaseProcessingObj.trigger_code of all components'), ('settings', '__init__ of all components'), ('whole runs', 'Simul.run')],
  'the cases of the other checks are run under a monitor which compares inputs and settings before and after every step, a twin of the component, and repeated runs',
  'Simulations of one process without graphical output. The known finding about ExtSourcePyramid is excluded narrowly (four rows appended to one input).')
P('C27', 'Displays and monitors show the data of each step',
  """At every step, the figure of a display holds the data of that step: the phase without its average over the valid pixels (zero elsewhere), the frame or its requested crop (with the pupils drawn
  over their position in it), a Shack-Hartmann frame reduced to four quadrants, the PSF, the slopes at their place in the pupil, the modes, the last values of the history of scalars and of
  vector elements with their times or iterations and labels. Colour scales, axes and lengths follow the data, unless a range was requested. The figures of the display server hold the object as it is at
  each request. DataPrint prints a line for the first value and then for each one at least print_dt after the last one printed, with the requested elements and format. PowerLoss is 10 log10 of the
  fraction received. SpotMonitor gives the sum of the subapertures, the Moffat function fitted to it and the residual, and finds the parameters of a Moffat spot.""",
  ['data', 'settings', 'steps'],
  'all finite data, pupils, crops, scales, history lengths and numbers of steps, values missing at some steps',
  'Tests mostly check that displays do not raise (and displays catch their exceptions); what they show is seldom checked, and not after the first step.',
  ['specula/display/base_display.py', 'specula/display/pixels_display.py', 'specula/display/pixels_pup_display.py', 'specula/display/plot_display.py', 'specula/display/plot_vector_display.py',
   'specula/display/data_plotter.py', 'specula/display/phase_display.py', 'specula/display/slopec_display.py', 'specula/display/psf_display.py', 'specula/processing_objects/spot_monitor.py',
   'specula/processing_objects/data_print.py', 'specula/processing_objects/power_loss.py'],
  [('displays', 'BaseDisplay.trigger_code and the _update_display methods'), ('server', 'DataPlotter.multi_plot'), ('monitors', 'SpotMonitor, DataPrint, PowerLoss trigger_code')],
  'generated sequences of data through real simulations with the Agg backend; the artists of the figure (images, lines, circles, limits, labels, texts) are compared with the data computed by the check',
  'Agg backend: contents of the figures, not pixels of a window. No browser side of the display server.')
