DOC = {}
def D(pid, **k):
    for n, t in k.items():
        DOC[(pid, n)] = t
D('C01',
  simulated_wiring='random wirings of probe components (single and list inputs, same-step and `:-1` links, updates at different rates, shuffled declarations) through Simul; every trigger and every value of the run against a dictionary interpreter of the dataflow.',
  direct_loop='the same wirings added by hand to LoopControl with arbitrary increasing order numbers.',
  faulty_wiring='one injected fault (missing object, output, input or class, unknown parameter, wrong type): must be refused when the simulation is built.')
D('C02',
  nanosecond_grid='exact decimal arithmetic: t_to_seconds(seconds_to_t(x)) and the integer nanoseconds.',
  loop_steps='number and times of the steps executed against decimal arithmetic.',
  windows='windowed integrators, PSFs and detectors: every published value against the sum of the samples inside its window, and published only at the end of it.',
  multiples='refused exactly when the integration time is not a multiple of the step.')
D('C03', composed_simulation='the documented meaning of additions, overrides, removals, indexed variants and command-line overrides as a dictionary interpreter, compared with the objects, connections and values of the simulation built.')
D('C04', resolved='each generated object against what the file names: references are identical objects, files hold the arrays written, default values where nothing is said.',
  refused='the same files with one contradiction.', calibration_tree='what is written under a name is what is read back under it, in any order, with replacements.')
D('C05', history='files on disk against the recorded history of the outputs, with missing samples, both formats, down-sampling and splitting.',
  replay='random wirings stored and replayed (full and targeted): traces of the replayed components against those of the run.')
D('C06', fields='save/restore/header round trips; a second generation is identical.', measurements='the same for intensities, pixels, slopes, values, histories.',
  matrices='the same for interaction matrices, reconstructors, influence functions.', descriptions='the same for pupil and subaperture maps, filters, sources, lenslets, telescopes.',
  kernels='laser kernels found in the cache on disk are those computed.')
D('C07', matrices='histories of operations on matrices against plain arrays.', from_slopes='matrices cut and made from slopes.', slopes='histories on slope vectors against plain arrays.',
  fields='histories on electric fields against arrays and complex algebra.', copies='a copy is equal and then independent, whatever happens to either.', subapertures='maps and indices against enumeration.', values='values, in place and replaced.')
D('C08', difference_equation='the difference equation with per-mode coefficients, evaluated in Python, with delays, masks, input gaps and resets.', integrators='the gain/leak recurrence with per-mode and scheduled gains, offsets, delays.',
  state_space='x=Ax+Bu, y=Cx+Du.', two_integrators='equivalent transfer functions give the same output.', low_pass='documented coefficients and cut-off.', analysis='frequency responses, stability and products of filters against polynomial arithmetic.')
D('C10', waves='sine, square, constant and linear signals at every time, against the formula.', schedules='scheduled values at exact times.', push_pull='sequences of push-pull commands.', histories='time histories replayed one row per step, and their end.',
  randoms='moments, seeds, independence of elements.', vibrations='spectrum of generated vibrations.', push_pull_library='number and order of the commands of the library function.')
D('C11', operations='BaseOperation in all its settings against NumPy.', slices='BaseSlicer.', insertions='element insertion with offsets.', combinations='linear combinations of modes and focus/platescale channels.', products='matrix products and masks.',
  buffers='running buffers.', demodulated_signal='amplitude of a synthetic carrier of the given frequency.', demodulation='the component: same, once per window.')
D('C12', noiseless='flux times quantum efficiency, windows, binning, offsets, saturation and quantisation, pixel by pixel.', noise_moments='mean and variance over many pixels within 6 sigma of the noise model.', additive='differences of frames with and without one noise source.',
  seeds='the same seed gives the same noise, another one another.', refused='contradictory settings.', dark_frames='frames without light, background subtraction and offsets.')
D('C13', open_loop='matrix products with mode selection, layers and POLC off.', polc='pseudo open loop commands from the recurrence.', multirate='several sensors at different rates, with validity.', complementary='low and high filters sum to the identity.',
  optimizer='gains against a direct search of the same cost.', closed_loop='whole loops against their recurrence.')
D('C14', dm='phase of the mirror as the product of commands and influence functions over the mask, with selection, offsets, height.', analysis='modal coefficients are the least-squares solution; inverse of the mirror.',
  unwrap='wrapped phases are unwrapped up to a constant.', cuts='selection, start, number of modes of bases.')
D('C15', geometric='every pixel of the pupil against direct sampling of the layers along the ray of the source: height, zenith, field angle, shift, rotation, magnification, cone.', field_of_view='how far a ray can go before it leaves the layers.',
  fresnel='angular spectrum propagation, by a direct sum.', chromatic='wavelength dependence.', algebra='sum and product rules.', single_field='one layer, no source.', superposition='sums of layers are sums of phases.')
D('C16', infinite_up_down='each of the two lists is that of AtmoInfiniteEvolution run alone with its own extra time.', frozen_flow='screens move with the wind, by the exact displacement.', displacement='phase after a given time against interpolation of the screen.', cached_screens='screens from the cache are those generated.', spectrum='power spectrum of an ensemble within 6 sigma of von Karman.',
  infinite_screens='infinite screens keep the overlap and follow the wind.', infinite_statistics='covariance of the added rows.', random_phase='seed, scale with seeing and wavelength.', large_enough='screens hold the whole metapupil.', cube='cubes of phase on disk.')
D('C17', sh_slopes='direct centroids, thresholds, weights, quad-cell, correlations, slopes null, of every subaperture.', sh_radius_schedule='windowed centroids with a scheduled radius.', sh_pixel_weights='Gaussian and custom weights.',
  pyr_slopes='intensity differences with normalisation, thresholds, slopes null, spikes.', cur_zwfs='curvature and Zernike sensor signals.', ciao='interferometric demodulation by a direct Fourier sum.')
D('C18', exact_image='direct Fourier sum of every lenslet on the detector grid, with field rotation, shift, subaperture masks, oversampling.', distributed='conservation of flux.', invariants='piston, flux scale, transposition.')
D('C19', pyramid='direct sum over the focal plane of the pyramid, modulation included.')
D('C20', lyot='Lyot coronagraph by direct sums.', four_quadrant='four quadrant masks by direct sums.', vortex='vortex masks of any charge by direct sums.')
D('C22', rebin_ccd='sums or means of the pixels covered by each output pixel.', rebin='rebin up and down.', interp='bilinear interpolation from the definition, rotation and shift.', extrapolation='reproduces constants and planes; documented weights.',
  field_interpolator='field resampled on another grid.', mask_shape='centre, size and obstruction of masks from the definition.', grid='coordinates.', disc_mask='discs.', focal_geometry='sampling of focal planes: pixel scales, fov.', local_mean='means of neighbours.',
  subpixel_shift='shift by an exact number of pixels, plane waves for the rest.', petals='petals and spiders cover the pupil once.', linear_helpers='small linear algebra helpers.')
D('C23', photons='photons of a band against the published zero points.', star='flux on the pupil and per unit area.', extended_shape='points, weights and extents of the extended source models.', extended_3d='sources with layers along the line of sight.',
  gaussian_spots='kernels against Gaussian shapes.', launch_telescope='all launch positions.', refraction='dispersion from refractive indices.', satellite='orbit geometry.', elongation_noise='noise covariance of elongated spots.')
D('C24', push_pull='interaction matrix recovered from a synthetic linear sensor, exactly.', rec='reconstructors are pseudo-inverses.', rec_mmse='the component: same, with files.', slope_null='mean of the slopes.', sh_subaps='subapertures from the light in each.', pyr_pupils='pupils found in a frame.', from_slopes='matrix from stored slopes.')
D('C25', field='a system is run and stored, then its field analysed elsewhere (other source directions, wavelengths): PSF, modes and phase cubes against the same system with these sensors in it from the start.')
for n in 'generators operations detectors control mirrors propagation atmosphere slopes sensors pyramids cameras calibrators'.split():
    D('C26', **{n: 'the cases of the corresponding checks under a monitor: inputs and settings unchanged after every step, equal twin with equal outputs, precision of all outputs.'})
D('C27', phases='image of the figure.', psfs='image, scale and limits.', slopes='both maps.', modes='line, limits.', histories='lines, abscissae, labels.', vectors='selected elements, lines, labels.', printed='the lines printed, exactly.', two_phases='both phases of the double display.')
MUT = '''a campaign of 592 random mutants (changed constants, comparisons, operators, slices, dropped statements) of lines covered by the checks, each run against the checks of its file: 470 were caught at quick tier. The
survivors were read one by one: most were equivalent (defaults never used, messages, GPU branches, dead code); the rest showed gaps, closed since (tables of air refraction, thresholds of pyramid
pupils, windows of the interferometric slopes, demodulated signals, profiles of the coronagraphs, number of modes of M2C, radius of linear slaving).'''
CAUGHT = {
    'C01-list-delay': 'C01', 'C03-remove-shared-list': 'C03', 'C05-split-downsample': 'C05', 'C06-pixels-header': 'C06', 'C08-gain-at-input': 'C08', 'C10-square-zero': 'C10',
    'C11-lincomb-platescale': 'C11', 'C12-emccd-dark': 'C12', 'C13-multirate-validity': 'C13', 'C15-pupil-cone': 'C15', 'C14-rms-piston': 'C14 (analysis)', 'C17-negative-pixels': 'C17 (sh_slopes)', 'C18-shift-axes': 'C18 (moved_pupil)',
    'C21-coupling-order': 'C21 (zonal)', 'C22-clip-rows': 'C22 (interp)', 'C24-multi-sign': 'C24 (multi)'}
