"""C12 - the detector: integration, binning, efficiency, noise and dark frames."""
from vlib.drive import *
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.intensity import Intensity
from specula.data_objects.pixels import Pixels
from specula.processing_objects.ccd import CCD
from specula.processing_objects.dynamic_dark_calibrator import DynamicDarkCalibrator

CHECK = Check('C12', 'detector', scale=4, assumptions=['fluxes are not negative', 'excess noise is used with photon noise (as the parameters of every example do)', 'excess_delta: the variance of the gain is 1/excess_delta (the formula of the docstring gives no excess noise for the default of 1, which has a factor of sqrt(2))'])
T = 3e-6 if PREC == 1 else 1e-11


def frames_feed(frames, n0, n1):
    o = Intensity(n1, n0)

    def script(k, o):
        if frames[k] is None:
            return False
        o.i[:] = frames[k]
        return True
    return o, script


def run_ccd(frames, n0, n1, loop_dt=0.001, **kw):
    """Returns the frames delivered: {step: (pixels, integrated)}"""
    p = SimulParams(time_step=loop_dt)
    ccd = CCD(p, size=[n1, n0], **kw)
    rec = drive(ccd, {'in_i': frames_feed(frames, n0, n1)}, len(frames), dt=loop_dt)
    out = {}
    for k, ((px, fp), (it, fi)) in enumerate(zip(rec['out_pixels'], rec['integrated_i'])):
        check(fp == fi, f'step {k}: pixels fresh={fp} but integrated intensity fresh={fi}')
        if fp:
            out[k] = (px, it)
    return out, ccd


@CHECK.family(st.fixed_dictionaries({
    'm0': st.integers(1, 6), 'm1': st.integers(1, 6), 'bin': st.sampled_from([1, 1, 2, 3, 4]), 'per': st.integers(1, 4), 'nframes': st.integers(1, 4), 'start': st.integers(0, 4),
    'ldt': st.sampled_from([0.001, 0.0005, 0.0003]), 'bandw': st.sampled_from([1.0, 300.0]), 'qe': st.sampled_from([1.0, 1, 0.3, 0.85]),
    'bg': st.sampled_from([None, 0.0, 2.5]), 'dark': st.sampled_from([None, 0.0, 1.25]), 'off_levels': st.booleans(), 'gains': st.booleans(), 'cte': st.booleans(),
    'seed': st.integers(0, 10**6)}), 200, 4000,
    rule='random illumination histories through the noiseless chain (exposure, start time, binning of non-square detectors, efficiency, background, dark, charge transfer, pixel gains)',
    double=0.5)
def noiseless(c):
    rng = rng_of(c['seed'])
    b = c['bin']
    n0, n1 = c['m0'] * b, c['m1'] * b
    if c['cte']:
        n0 = n1 = max(n0, n1)
    m0, m1 = n0 // b, n1 // b
    steps = c['start'] + c['per'] * c['nframes'] + int(rng.integers(0, c['per']))
    fr = [(rng.random((n0, n1)) * rng.choice([0, 1, 1000])).astype(DT) for _ in range(steps)]
    dt = c['per'] * c['ldt']
    kw = {}
    bg = dark = 0.0
    if c['bg'] is not None:
        kw.update(background_noise=True, background_level=c['bg']); bg = c['bg']
    elif c['off_levels']:
        kw.update(background_level=7.0)           # not enabled
    if c['dark'] is not None:
        kw.update(darkcurrent_noise=True, darkcurrent_level=c['dark']); dark = c['dark']
    elif c['off_levels']:
        kw.update(darkcurrent_level=11.0, readout_level=5.0, cic_level=0.5)
    g = rng.uniform(0.5, 1.5, (m0, m1)).astype(DT) if c['gains'] else None
    C = rng.uniform(0, 1, (m0, m1, 2)).astype(DT) if c['cte'] else None
    if c['gains']: kw['pixelGains'] = g
    if c['cte']: kw.update(cte_noise=True, cte_mat=C)
    out, ccd = run_ccd(fr, n0, n1, c['ldt'], dt=round(dt, 9), bandw=c['bandw'], binning=b, quantum_eff=c['qe'], start_time=round(c['start'] * c['ldt'], 9), **kw)
    want = {c['start'] + c['per'] * (j + 1) - 1: j for j in range(c['nframes'])}
    check(sorted(out) == sorted(want), f'frames delivered at steps {sorted(out)}, expected {sorted(want)}')
    for k, j in want.items():
        e = sum(x.astype(float) for x in fr[k - c['per'] + 1:k + 1]) * c['ldt'] * c['bandw']
        close(out[k][1], e, T, what=f'integrated intensity at step {k}')
        q = e.reshape(m0, b, m1, b).sum((1, 3)) * c['qe'] + bg + dark
        if c['cte']: q = C[:, :, 0].astype(float) @ q @ C[:, :, 1].astype(float)
        if c['gains']: q = q * g
        close(out[k][0], q, T * 4, what=f'pixels at step {k}')
        check(out[k][0].dtype == DT, f'pixels are {out[k][0].dtype}')
    return True


noise = {'lev': st.sampled_from([0.5, 3.0, 40.0, 2000.0]), 'seed': st.integers(1, 10**6), 'n': st.sampled_from([48, 64]), 'nf': st.integers(2, 3),
         'bg': st.sampled_from([0.0, 0.0, 2.0]), 'dark': st.sampled_from([0.0, 0.0, 1.5]), 'gain': st.sampled_from([8.0, 4.0, 20.0]), 'bias': st.sampled_from([400, 1000, 0, 1, 30])}


def moments(x, mean, var, what, kurt=3.0):
    """Six sigma bands on the sample mean and variance of x (kurt: upper bound of the kurtosis)."""
    n = x.size
    check(abs(x.mean() - mean) < 6.5 * np.sqrt(var / n) + 1e-6 * abs(mean), f'{what}: mean {x.mean():.5g}, expected {mean:.5g} +- {np.sqrt(var / n):.3g}')
    v = np.mean((x - mean)**2)
    check(abs(v - var) < 6.5 * var * np.sqrt((kurt - 1) / n) + 1e-6 * var, f'{what}: variance {v:.5g}, expected {var:.5g} +- {var * np.sqrt((kurt - 1) / n):.3g}')


def independent(a, b, what):
    a, b = a.ravel() - a.mean(), b.ravel() - b.mean()
    r = np.dot(a, b) / np.sqrt(np.dot(a, a) * np.dot(b, b))
    check(abs(r) < 6.5 / np.sqrt(a.size), f'{what}: correlation {r:.4f}')


@CHECK.family(st.fixed_dictionaries(dict(noise, ron=st.sampled_from([0.0, 0.0, 2.0]), qe=st.sampled_from([1.0, 0.5]), em=st.sampled_from([None, None, 'default', 200.0]), delta=st.sampled_from([1.0, 1.0, 3.33, 0.5]))), 80, 1000,
    rule='photon, background, dark, excess and readout noise of uniform frames: mean, variance, quantization, independence between pixels and frames', double=0.3)
def noise_moments(c):
    n, per = c['n'], 1
    flux = np.full((n, n), c['lev'] * 1000, dtype=DT)         # 1 ms, 1 nm
    bias = 400 if c['ron'] and c['bias'] < 100 else c['bias']      # without readout noise nothing is clipped
    kw = dict(photon_noise=True, ADU_bias=bias, photon_seed=c['seed'], readout_seed=c['seed'] + 1, excess_seed=c['seed'] + 2, quantum_eff=c['qe'])
    if c['bg']: kw.update(background_noise=True, background_level=c['bg'])
    if c['dark']: kw.update(darkcurrent_noise=True, darkcurrent_level=c['dark'])
    if c['ron']: kw.update(readout_noise=True, readout_level=c['ron'])
    q = 1 / c['gain']
    if c['em'] is not None:
        kw.update(excess_noise=True, excess_delta=c['delta'])
        em, adu = 400.0, 1 / 20
        if c['em'] != 'default':
            em = c['em']; adu = 0.5
            kw.update(emccd_gain=em, ADU_gain=adu)
        q = 1 / adu / em
    else:
        kw.update(ADU_gain=c['gain'])
    out, _ = run_ccd([flux] * c['nf'], n, n, 0.001, dt=0.001, bandw=1.0, **kw)
    check(len(out) == c['nf'], 'frames missing')
    mean0 = c['lev'] * c['qe'] + c['bg'] + c['dark']
    var = mean0 * (1 + 1 / c['delta'] if c['em'] is not None else 1) + c['ron']**2 + q**2 / 12
    fs = [out[k][0].astype(float) + c['dark'] for k in sorted(out)]
    lo = -bias * q
    for k, f in enumerate(fs):
        steps = f / q
        check(np.abs(steps - np.round(steps)).max() < (2e-2 if PREC == 1 else 1e-6) * max(1, np.abs(steps).max() / 1e4), f'frame {k} is not quantized in steps of {q:.4g}')
        check(f.min() >= lo - 1e-3, f'frame {k}: {f.min()} below the zero of the converter ({lo})')
    x = np.concatenate([f.ravel() for f in fs])
    if c['em'] is None and not c['ron']:
        check(np.allclose(x, np.round(x), atol=1e-3) , 'photon counts are not whole numbers') if float(c['gain']).is_integer() else None
        var = mean0
    kurt = 3 + 1 / max(mean0, 0.05) * (6 if c['em'] is not None else 1) + 1
    if c['em'] is not None:
        kurt = 3 + 14 * max(1, c['delta']**-2) / max(mean0, 0.05)
        # rounding of the converter is not uniform for few counts: its bound is added to the tolerance
        v = np.mean((x - mean0)**2)
        check(abs(x.mean() - mean0) < 6.5 * np.sqrt(var / x.size) + q, f'mean {x.mean():.5g}, expected {mean0:.5g}')
        check(abs(v - var) < 6.5 * var * np.sqrt((kurt - 1) / x.size) + q * q + 2 * q * np.sqrt(var) * 0.1, f'variance {v:.5g}, expected {var:.5g}')
    else:
        moments(x, mean0, var, 'noise', kurt)
    for a, b in zip(fs[:-1], fs[1:]):
        independent(a, b, 'successive frames')
    for f in fs:
        independent(f[:, 1:], f[:, :-1], 'pixels along x')
        independent(f[1:], f[:-1], 'pixels along y')
    if not c['ron']:
        if c['em'] is None:
            p0 = np.exp(-mean0); n0 = (np.abs(x) < 1e-3).mean()
            check(abs(n0 - p0) < 6.5 * np.sqrt(p0 * (1 - p0) / x.size) + 1e-9, f'{n0:.4f} of the pixels have no photons, expected {p0:.4f}')
    return ['excess'] if c['em'] is not None else ['readout'] if c['ron'] else ['photon']


@CHECK.family(st.fixed_dictionaries(dict(noise, ron=st.sampled_from([0.5, 3.0]), cic=st.sampled_from([None, 0.1, 0.5]))), 40, 500,
    rule='readout noise and clock-induced charge alone, on frames with structure', double=0.3)
def additive(c):
    n = c['n']
    rng = rng_of(c['seed'])
    img = (rng.random((n, n)) * c['lev'] * 1000).astype(DT)
    kw = dict(readout_noise=True, readout_level=c['ron'], readout_seed=c['seed'])
    out, _ = run_ccd([img] * c['nf'], n, n, 0.001, dt=0.001, bandw=1.0, **kw)
    d = [out[k][0] - img.astype(float) * 1e-3 for k in sorted(out)]
    x = np.concatenate([f.ravel() for f in d])
    moments(x, 0.0, c['ron']**2, 'readout noise')
    k4 = np.mean(x**4) / c['ron']**4
    check(abs(k4 - 3) < 6.5 * np.sqrt(96 / x.size), f'readout noise is not gaussian (kurtosis {k4:.3f})')
    for a, b in zip(d[:-1], d[1:]):
        independent(a, b, 'successive frames')
    if c['cic']:
        run2 = lambda: run_ccd([img] * c['nf'], n, n, 0.001, dt=0.001, bandw=1.0, cic_noise=True, cic_level=c['cic'])[0]
        o2 = run2()
        e = [o2[k][0] - img.astype(float) * 1e-3 for k in sorted(o2)]
        y = np.concatenate([f.ravel() for f in e])
        check(np.abs(y - np.round(y)).max() < 1e-2 and np.round(y).min() >= 0 and np.round(y).max() <= 1, 'clock-induced charges are not 0 or 1')
        p = c['cic']
        check(abs(y.mean() - p) < 6.5 * np.sqrt(p * (1 - p) / y.size) + 1e-4, f'clock-induced charge rate {y.mean():.4f}, expected {p}')
        for a, b in zip(e[:-1], e[1:]):
            independent(a, b, 'successive frames')
        o3 = run2()
        for k in o2:
            same(o3[k][0], o2[k][0], 'clock-induced charge of two identical runs')
    return True


@CHECK.family(st.fixed_dictionaries({
    'seed': st.integers(1, 10**5), 'which': st.sampled_from(['photon', 'readout', 'excess']), 'em': st.booleans(), 'other': st.integers(0, 10**6), 'lev': st.sampled_from([5.0, 100.0]),
    'n': st.sampled_from([12, 20]), 'gp': st.integers(0, 10**6)}), 60, 1000,
    rule='the same seeds give the same frames whatever else draws random numbers; each noise follows its own seed and no other', double=0.3)
def seeds(c):
    n = c['n']
    rng = rng_of(c['seed'])
    img = [(rng.random((n, n)) * c['lev'] * 1000).astype(DT) for _ in range(3)]
    em = c['em'] or c['which'] == 'excess'

    def run(ph, ro, ex, ron=True, photon=True):
        kw = dict(photon_noise=photon, photon_seed=ph, readout_noise=ron, readout_level=1.5, readout_seed=ro, excess_noise=em, excess_seed=ex)
        o, _ = run_ccd(img, n, n, 0.001, dt=0.001, bandw=1.0, **kw)
        return [o[k][0].astype(float) for k in sorted(o)]
    s = c['seed']
    np.random.seed(c['gp'] % 2**31)
    a = run(s, s + 1, s + 2)
    np.random.seed((c['gp'] + 5) % 2**31)
    other = CCD(SimulParams(time_step=0.001), size=[n, n], dt=0.001, bandw=1.0, photon_noise=True, photon_seed=s)     # unrelated
    other._photon_rng.random(c['other'] % 50)
    b = run(s, s + 1, s + 2)
    for k, (x, y) in enumerate(zip(a, b)):
        same(y, x, f'frame {k} with the same seeds')
    ch = {'photon': (s + 10, s + 1, s + 2), 'readout': (s, s + 11, s + 2), 'excess': (s, s + 1, s + 12)}[c['which']]
    d = run(*ch)
    check(all(np.abs(x - y).max() > 1e-3 for x, y in zip(a, d)), f'the {c["which"]} seed has no effect')
    if c['which'] == 'readout':
        # without readout noise the frames do not depend on its seed; the readout noise is the same on other photons
        x, y = run(s, s + 1, s + 2, ron=False), run(s, s + 11, s + 2, ron=False)
        for u, v in zip(x, y):
            same(v, u, 'frames without readout noise')
        if not em:
            u, v = run(s, s + 1, s + 2, photon=False), run(s + 5, s + 1, s + 7, photon=False)
            for p, q in zip(u, v):
                same(q, p, 'readout noise with other photon and excess seeds')
            w = [p - i.astype(float) * 1e-3 for p, i in zip(u, img)]
            for k in range(3):
                tol = 1 / 8 + 1e-3
                check(np.abs((a[k] - x[k]) - w[k]).max() <= tol, 'the readout noise is not added to the photons')
    if c['which'] == 'photon' and not em:
        u, v = run(s, s + 1, 0, ron=False), run(s, s + 1, s, ron=False)
        for p, q in zip(u, v):
            same(q, p, 'photon noise with another excess seed')
    return c['which']


@CHECK.family(st.fixed_dictionaries({'kind': st.sampled_from(['dt', 'dt0', 'neg', 'cte']), 'ldt': st.sampled_from([0.001, 0.0003, 0.002]), 'k': st.integers(1, 5), 'f': st.sampled_from([0.5, 0.25, 0.9])}),
    20, 100, rule='exposures that are not whole numbers of steps, or not positive, and missing matrices are refused')
def refused(c):
    p = SimulParams(time_step=c['ldt'])
    kw = {'dt': dict(dt=(c['k'] + c['f']) * c['ldt']), 'dt0': dict(dt=0.0), 'neg': dict(dt=-c['k'] * c['ldt']), 'cte': dict(dt=c['k'] * c['ldt'], cte_noise=True)}[c['kind']]
    raises(lambda: CCD(p, size=[4, 4], bandw=1.0, **kw), f'CCD({kw}) with steps of {c["ldt"]}', ValueError)
    CCD(p, size=[4, 4], bandw=1.0, dt=round(c['k'] * c['ldt'], 9))


@CHECK.family(st.fixed_dictionaries({
    'n0': st.integers(1, 5), 'n1': st.integers(1, 5), 'nf': st.integers(1, 4), 'steps': st.integers(1, 14), 'trig': st.integers(0, 2**14 - 1), 'trig2': st.integers(0, 2**14 - 1), 'reset': st.integers(0, 2**14 - 1),
    'nset': st.integers(0, 2**14 - 1), 'nset2': st.integers(0, 2**14 - 1), 'io': st.booleans(), 'seed': st.integers(0, 10**6)}), 150, 3000,
    rule='dark frames: random triggers, resets, changes of the number of frames, saving and loading, against a step-by-step model', double=0.4)
def dark_frames(c):
    rng = rng_of(c['seed'])
    n0, n1, steps = c['n0'], c['n1'], c['steps']
    fr = [np.round(rng.normal(size=(n0, n1)) * 100).astype(DT) for _ in range(steps)]
    ev = lambda bits, bits2=2**14 - 1: [bool((bits >> k) & 1 and (bits2 >> k) & 1) for k in range(steps)]
    trig, reset, nset = ev(c['trig'], c['trig2']), ev(c['reset'], c['trig'] >> 1), ev(c['nset'], c['nset2'])
    nvals = [int(rng.integers(1, 5)) for _ in range(steps)]
    save = [bool(rng.random() < 0.2) for _ in range(steps)] if c['io'] else [False] * steps
    load = [False] * steps
    saved_at = None
    for k in range(steps):
        if c['io'] and saved_at is not None and rng.random() < 0.3:
            load[k] = True
        if save[k]:
            saved_at = k
    px = Pixels(n1, n0)

    def pf(k, o):
        o.pixels = fr[k].copy()
        return True

    def event(flags, value=lambda k: 1):
        o = BaseValue(value=1)

        def s(k, o):
            if flags[k]:
                o.value = value(k)
            return flags[k]
        return o, s
    with Scratch() as d:
        cal = DynamicDarkCalibrator(data_dir=d, nframes=c['nf'], overwrite=True)
        rec = drive(cal, {'in_pixels': (px, pf), 'in_trigger': event(trig), 'in_reset': event(reset), 'in_nframes': event(nset, lambda k: nvals[k]),
                          'in_save': event(save, lambda k: 'dark'), 'in_load': event(load, lambda k: 'dark')}, steps)
    dark, acc, left, total, nf, file = np.zeros((n0, n1)), np.zeros((n0, n1)), 0, 0, c['nf'], None
    done = 0
    for k in range(steps):
        if trig[k]:
            left = total = nf; acc = np.zeros((n0, n1))
        if reset[k]:
            dark = np.zeros((n0, n1))
        if nset[k]:
            nf = nvals[k]
        new = False
        if load[k]:
            dark = file.copy(); new = True
        v, fresh = rec['out_subtracted_pixels'][k]
        check(fresh, f'subtracted pixels not refreshed at step {k}')
        close(v, fr[k] - dark, T, what=f'subtracted pixels at step {k}', scale=1000)
        if left:
            acc = acc + fr[k]; left -= 1
            if left == 0:
                dark = acc / total; new = True; done += 1
        v, fresh = rec['out_darkframe'][k]
        close(v, dark, T, what=f'dark frame at step {k}', scale=1000)
        check(fresh == new, f'dark frame at step {k}: fresh={fresh}, expected {new}')
        if save[k]:
            file = dark.copy()
    return 'acquired' if done else 'trivial'
