"""C25 - analysing the field of a stored run gives what the run itself would have measured there."""
import contextlib, copy, io, os
from vlib.drive import *
import yaml
from specula.simul import Simul
from specula.field_analyser import FieldAnalyser

CHECK = Check('C25', 'field analysis of a stored run', assumptions=['the run stores the commands of its mirrors', 'the field lies inside the field of view of the atmosphere'])
WL = [750.0, 1650.0]


def vec(*v):
    return {'class': 'WaveGenerator', 'constant': list(v), 'wave_type': 'SIN', 'outputs': ['output']}


def loop(c, d, sources):
    """A closed loop on axis: wave front, modes, integrator, mirror of the previous step."""
    n = c['n']
    rng = rng_of(c['seed'])
    fov = 2 * max([r for r, _ in sources] + [2.0]) + 1
    p = {'main': {'class': 'SimulParams', 'root_dir': os.path.join(d, 'calib'), 'pixel_pupil': n, 'pixel_pitch': c['D'] / n,
                  'total_time': c['steps'] * c['dt'], 'time_step': c['dt'], 'zenithAngleInDeg': c['zen']},
         'seeing': {'class': 'WaveGenerator', 'constant': 0.8, 'amp': 0.3, 'freq': 40.0, 'wave_type': 'SIN', 'outputs': ['output']},
         'wind_speed': vec(*[float(v) for v in np.round(rng.uniform(5, 60, 2), 2)]),
         'wind_direction': vec(*[float(v) for v in np.round(rng.uniform(0, 360, 2), 2)]),
         'on_axis': {'class': 'Source', 'polar_coordinates': [0.0, 0.0], 'magnitude': 8, 'wavelengthInNm': 600},
         'pupilstop': {'class': 'Pupilstop', 'simul_params_ref': 'main', 'mask_diam': 1.0, 'obs_diam': c['obs']},
         'atmo': {'class': 'AtmoEvolution', 'simul_params_ref': 'main', 'L0': 20, 'heights': [0., c['h']], 'Cn2': [0.6, 0.4], 'fov': fov,
                  'pixel_phasescreens': 256, 'seed': 1 + c['seed'] % 5,
                  'inputs': {'seeing': 'seeing.output', 'wind_speed': 'wind_speed.output', 'wind_direction': 'wind_direction.output'}, 'outputs': ['layer_list']},
         'prop': {'class': 'AtmoPropagation', 'simul_params_ref': 'main', 'source_dict_ref': ['on_axis'],
                  'inputs': {'atmo_layer_list': ['atmo.layer_list'], 'common_layer_list': ['pupilstop', 'dm.out_layer:-1']}, 'outputs': ['out_on_axis_ef']},
         'res': {'class': 'ModalAnalysis', 'type_str': 'zernike', 'npixels': n, 'nmodes': c['modes'], 'inputs': {'in_ef': 'prop.out_on_axis_ef'}, 'outputs': ['out_modes']},
         'control': {'class': 'Integrator', 'simul_params_ref': 'main', 'delay': c['delay'], 'int_gain': [float(c['gain'])] * c['modes'],
                     'inputs': {'delta_comm': 'res.out_modes'}, 'outputs': ['out_comm']},
         'dm': {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': c['modes'], 'npixels': n, 'height': 0, 'sign': -1,
                'inputs': {'in_command': 'control.out_comm'}, 'outputs': ['out_layer']}}
    store = ['comm-control.out_comm']
    if c['high']:
        big = n + 2 * int(np.ceil(max([r for r, _ in sources] + [2.0]) * 4.848e-6 * c['h'] / np.cos(np.deg2rad(c['zen'])) / (c['D'] / n))) + 4
        p['wave'] = {'class': 'WaveGenerator', 'constant': [20.0, -30.0, 10.0], 'amp': [50.0, 30.0, 80.0], 'freq': [50., 80., 130.], 'wave_type': 'SIN', 'outputs': ['output']}
        p['high'] = {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': 3, 'npixels': big, 'height': c['h'],
                     'inputs': {'in_command': 'wave.output'}, 'outputs': ['out_layer']}
        p['prop']['inputs']['common_layer_list'].append('high.out_layer')
        if c['high'] == 'stored':
            store.append('wave-wave.output')
    if c['more']:
        store.append('res-res.out_modes')
        store.append('ef-prop.out_on_axis_ef')
    p['store'] = {'class': 'DataStore', 'store_dir': os.path.join(d, 'out'), 'data_format': c['fmt'], 'inputs': {'input_list': store}}
    return p


def run(p, d, name):
    path = os.path.join(d, name + '.yml')
    with open(path, 'w') as f:
        yaml.safe_dump(p, f, sort_keys=False)
    s = Simul(path)
    s.run()
    return s


def direct(c, p, d, sources, wl, pix, start, modal):
    """The same run with the sources, cameras and modal sensors of the field in it."""
    q = copy.deepcopy(p)
    del q['store']
    q['prop']['source_dict_ref'] = ['on_axis'] + [f's{i}' for i in range(len(sources))]
    q['prop']['outputs'] = ['out_on_axis_ef'] + [f'out_s{i}_ef' for i in range(len(sources))]
    names = []
    for i, (r, t) in enumerate(sources):
        q[f's{i}'] = {'class': 'Source', 'polar_coordinates': [r, t], 'magnitude': 8, 'wavelengthInNm': wl}
        ef = {'in_ef': f'prop.out_s{i}_ef'}
        q[f'psf{i}'] = {'class': 'PSF', 'simul_params_ref': 'main', 'wavelengthInNm': wl, 'start_time': start, 'inputs': ef, 'outputs': ['out_int_psf', 'out_int_sr'], **pix}
        q[f'ma{i}'] = {'class': 'ModalAnalysis', 'inputs': dict(ef), 'outputs': ['out_modes'], **modal}
        names += [f'ma{i}-ma{i}.out_modes', f'ef{i}-prop.out_s{i}_ef']
    q['trace'] = {'class': 'DataStore', 'store_dir': os.path.join(d, 'direct'), 'create_tn': False, 'data_format': 'fits', 'inputs': {'input_list': names}}
    s = run(q, d, 'direct')
    from astropy.io import fits
    out = []
    for i in range(len(sources)):
        read = lambda nm: fits.getdata(os.path.join(d, 'direct', f'{nm}{i}.fits'))
        out.append((np.array(s.objs[f'psf{i}'].outputs['out_int_psf'].value), float(np.ravel(s.objs[f'psf{i}'].outputs['out_int_sr'].value)[0]), read('ma'), read('ef')))
    return out


SRC = st.tuples(st.floats(0, 20).map(lambda v: round(v, 2)), st.floats(-180, 359).map(lambda v: round(v, 2)))


@CHECK.family(st.fixed_dictionaries(dict(n=st.integers(8, 16), D=st.sampled_from([1.0, 8.0]), steps=st.integers(3, 8), dt=st.sampled_from([0.001, 0.002]), zen=st.sampled_from([0.0, 30.0]),
              obs=st.sampled_from([0.0, 0.2]), h=st.sampled_from([2000.0, 8000.0]), modes=st.integers(2, 6), delay=st.sampled_from([0, 1, 2]), gain=st.floats(0.2, 0.6), high=st.sampled_from([None, None, 'stored', 'computed']),
              more=st.booleans(), fmt=st.sampled_from(['fits', 'pickle']), sources=st.lists(SRC, min_size=1, max_size=4, unique=True), close=st.sampled_from(['', '', 'near', 'mirror']), down=st.sampled_from([1] * 7 + [2, 3]), ring=st.booleans(), row=st.booleans(),
              wl=st.sampled_from(WL), start=st.integers(0, 2), what=st.permutations(['psf', 'modal', 'cube']), count=st.integers(1, 3), again=st.booleans(),
              pix=st.sampled_from(['default', 'nd', 'mas']), modal=st.sampled_from(['dm', 'given']), seed=st.integers(0, 9999))), quick=40, thorough=600, rule='the field differs from the axis')
def field(c):
    sources = [tuple(s) for s in c['sources']]
    if c['close'] == 'near':
        sources.append((sources[0][0] + 0.02, sources[0][1]))
    elif c['close'] == 'mirror':
        sources.append((sources[0][0], -sources[0][1]))
    if len(set(sources)) < len(sources):
        raise Skip
    wl, start = c['wl'], c['start'] * c['dt']
    ring = {'obsratio': 0.25, 'diaratio': 0.85} if c['ring'] else {}
    modal = {'type_str': 'zernike', 'nmodes': c['modes'], 'npixels': c['n'], **ring}
    given = None
    if c['modal'] == 'given':
        given = modal = {'type_str': 'zernike', 'nmodes': 3, 'npixels': c['n'], 'obsratio': c['obs']}
    args = {'default': {}, 'nd': {'psf_sampling': 3.0}, 'mas': {'psf_pixel_size_mas': wl * 1e-9 / c['D'] * 206265e3 / 4}}[c['pix']]
    pix = {'default': {'nd': 7.0}, 'nd': {'nd': 3.0}, 'mas': {'pixel_size_mas': args.get('psf_pixel_size_mas')}}[c['pix']]
    with Scratch() as d, contextlib.redirect_stdout(io.StringIO()):
        cwd = os.getcwd()
        os.chdir(d)
        try:
            p = loop(c, d, sources)
            p['dm'].update(ring)
            if c['down'] > 1:
                p['store']['downsample_factor'] = c['down']
                run(p, d, 'run')
                f = FieldAnalyser(os.path.join(d, 'out'), os.listdir(os.path.join(d, 'out'))[0], np.array(sources[0]), wavelength_nm=wl, start_time=start)
                call = {'psf': f.compute_field_psf, 'modal': f.compute_modal_analysis, 'cube': f.compute_phase_cube}[c['what'][0]]
                raises(call, f"analysis of data stored once every {c['down']} steps", ValueError)
                return 'downsampled'
            want = direct(c, p, d, sources, wl, pix, start, modal)
            run(p, d, 'run')
            tn = os.listdir(os.path.join(d, 'out'))[0]

            def analyser(sources, start):
                xy = np.array(sources)
                if c['row'] or len(sources) == 2:
                    xy = xy.T
                return FieldAnalyser(os.path.join(d, 'out'), tn, xy if len(sources) > 1 else np.array(sources[0]), wavelength_nm=wl, start_time=start)

            def compare(f, want, what):
                if what == 'psf':
                    r = f.compute_field_psf(**args)
                    check(len(r['psf_list']) == len(want) == len(r['sr_list']), 'one image per source')
                    for i, w in enumerate(want):
                        close(r['psf_list'][i].reshape(w[0].shape), w[0], rtol=1e-4, atol=1e-5 * w[0].max(), what=f'integrated image of source {i}')
                        close(float(np.ravel(r['sr_list'][i])[0]), w[1], rtol=1e-4, atol=1e-6, what=f'Strehl ratio of source {i}')
                elif what == 'modal':
                    r = f.compute_modal_analysis(given)
                    for i, w in enumerate(want):
                        close(r['modal_coeffs'][i], w[2], rtol=1e-4, atol=1e-2, what=f'modes of source {i}')
                        close(r['residual_variance'][i], np.var(w[2], axis=0), rtol=1e-3, atol=1e-1, what='variance of the modes')
                        close(r['residual_average'][i], np.mean(w[2], axis=0), rtol=1e-3, atol=1e-2, what='mean modes')
                else:
                    r = f.compute_phase_cube()
                    for i, w in enumerate(want):
                        close(r['phase_cubes'][i], w[3], rtol=1e-4, atol=1e-2, what=f'wave fronts of source {i}')
                    check(len(np.ravel(r['times'])) == c['steps'], 'times of the wave fronts')
                check(list(r['distances']) == [s[0] for s in f_sources], 'distances')
            f_sources = sources
            if c['again']:
                # an earlier analysis with other settings must not be taken for this one
                f_sources = sources[:1]
                compare(analyser(f_sources, start), want[:1], c['what'][0])
                other = analyser(sources, start + c['dt'])
                other.compute_field_psf(**args)
                other.compute_modal_analysis(dict(modal, diaratio=0.8))
                f_sources = sources
            for k in range(c['count']):
                compare(analyser(sources, start), want, c['what'][k])
            if c['again']:
                f = analyser(sources, start)
                compare(f, want, c['what'][0])
                compare(f, want, c['what'][0])
        finally:
            os.chdir(cwd)
    return 'trivial' if max(r for r, _ in sources) < 1 else f"{c['count']} {c['modal']}"
