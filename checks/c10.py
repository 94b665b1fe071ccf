"""C10 - signal generators produce the documented signal at every step."""
from vlib.drive import *
import math
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.time_history import TimeHistory
from specula.processing_objects.wave_generator import WaveGenerator
from specula.processing_objects.schedule_generator import ScheduleGenerator
from specula.processing_objects.push_pull_generator import PushPullGenerator
from specula.processing_objects.random_generator import RandomGenerator
from specula.processing_objects.time_history_generator import TimeHistoryGenerator
from specula.processing_objects.vibration_generator import VibrationGenerator
from specula.lib.utils import psd_to_signal
from specula.lib.modal_pushpull_signal import modal_pushpull_signal

CHECK = Check('C10', 'signal generators', scale=2, assumptions=[
    'statistical comparisons use thresholds beyond 6 standard deviations'])


def run(gen, steps, dt=0.001, t0=0):
    rec = drive(gen, {}, steps, dt=dt, t0=t0)['output']
    for k, (v, fresh) in enumerate(rec):
        check(fresh, f'output not refreshed at step {k}')
    return np.array([v for v, _ in rec])


DTS = st.sampled_from([0.001, 0.002, 0.0005, 0.01, 0.0013])


@CHECK.family(st.fixed_dictionaries({
    'wave': st.sampled_from(['SIN', 'sin', 'SQUARE', 'TRIANGLE', 'Triangle']), 'seed': st.integers(0, 2**31), 'n': st.integers(1, 4),
    'vec': st.integers(0, 31), 'mode': st.sampled_from(['plain', 'vsize', 'output_size']), 'steps': st.integers(1, 25), 'dt': DTS,
    't0': st.sampled_from([0, 0, 0.5, 2])}), 250, 6000, rule='sine, square and triangle waves with scalar and vector parameters, slope and constant, from any start '
    'time, against the closed formula', double=0.4)
def waves(c):
    rng = rng_of(c['seed'])
    n = c['n']
    vals = {'amp': rng.uniform(-3, 3, n), 'freq': rng.uniform(0, 100, n), 'offset': rng.uniform(-3, 3, n), 'slope': rng.uniform(-2, 2, n),
            'constant': rng.uniform(-2, 2, n)}
    kw = {}
    for i, k in enumerate(vals):
        if (c['vec'] >> i) & 1 and n > 1:
            kw[k] = vals[k] if i % 2 else list(vals[k])
        else:
            vals[k] = np.full(n, vals[k][0])
            kw[k] = float(vals[k][0])
    vector = any(np.ndim(v) for v in kw.values())
    size = n
    if not vector:
        size = n if c['mode'] != 'plain' else 1
        if c['mode'] == 'vsize':
            kw['vsize'] = n
        elif c['mode'] == 'output_size':
            kw['output_size'] = n
    elif c['mode'] == 'output_size':
        kw['output_size'] = n
    got = run(WaveGenerator(wave_type=c['wave'], **kw), c['steps'], c['dt'], c['t0'])
    t = (c['t0'] + np.arange(c['steps']) * c['dt'])[:, None]
    v = {k: x[None, :size] for k, x in vals.items()}
    ph = 2 * np.pi * v['freq'] * t + v['offset']
    s = np.sin(ph)
    w = {'SIN': s, 'SQUARE': np.sign(s), 'TRIANGLE': 2 * np.arcsin(s) / np.pi}[c['wave'].upper()]
    want = v['slope'] * t + v['amp'] * w + v['constant']
    err = 4 * EPS * (1 + np.abs(ph).max())
    ok = np.abs(s) > 10 * err if c['wave'].upper() == 'SQUARE' else np.ones_like(s, bool)
    check(got.shape == want.shape, f'output of shape {got.shape[1:]}, expected {want.shape[1:]}')
    e = np.where(ok, np.abs(got - want), 0)
    lim = 20 * err * (1 + np.abs(v['amp']).max()) if c['wave'].upper() != 'TRIANGLE' else 20 * math.sqrt(err) * 4
    check(e.max() <= lim, f'{c["wave"]}: difference {e.max()} at {np.unravel_index(e.argmax(), e.shape)}')
    return c['wave'].upper()


@CHECK.family(st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'groups': st.lists(st.integers(1, 4), min_size=1, max_size=3), 'times': st.lists(st.integers(0, 30), max_size=4, unique=True),
                                     'dt': DTS, 'steps': st.integers(1, 35), 'asint': st.booleans()}), 120, 3000,
              rule='schedules of values per group of modes: the value in force from its time on (included)', double=0.4)
def schedules(c):
    rng = rng_of(c['seed'])
    times = sorted(c['times'])
    groups = c['groups'][:1] if c['asint'] else c['groups']
    vals = rng.normal(size=(len(times) + 1, len(groups)))
    g = ScheduleGenerator([list(v) for v in vals], [round(k * c['dt'], 9) for k in times], groups[0] if c['asint'] else groups)
    got = run(g, c['steps'], c['dt'])
    for k in range(c['steps']):
        i = sum(1 for t in times if t <= k)
        close(got[k], np.repeat(vals[i], groups), 1e-6, what=f'step {k}')
    bad = [list(v) for v in vals] + [list(vals[0])]
    raises(lambda: ScheduleGenerator(bad, [round(k * c['dt'], 9) for k in times], groups), 'one value too many', ValueError)
    return len(times) > 0


def radial(j):
    """Radial order of the j-th Zernike (Noll, from 1)."""
    n = 0
    while (n + 1) * (n + 2) // 2 < j:
        n += 1
    return n


@CHECK.family(st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(1, 9), 'first': st.integers(0, 6), 'type': st.sampled_from(['PUSH', 'PUSHPULL', 'pushpull']),
                                     'amps': st.sampled_from(['radial', 'constant', 'vector']), 'pattern': st.sampled_from([None, [1, -1], [1, 0, -1], [2, -1, 1, -2], [1]]),
                                     'cycles': st.integers(1, 4), 'rep': st.sampled_from(['none', 'ncycles', 'full']), 'ns': st.integers(1, 3)}), 200, 5000,
              rule='push-pull sequences over all repetition options against a step-by-step construction', double=0.4)
def push_pull(c):
    rng = rng_of(c['seed'])
    n, first = c['n'], min(c['first'], c['n'] - 1)
    m = n - first
    push = c['type'] == 'PUSH'
    kw = {}
    if c['amps'] == 'vector':
        amp = rng.uniform(0.1, 5, m)
        kw['vect_amplitude'] = list(amp)
    else:
        a = float(rng.uniform(0.1, 5))
        kw['amp'] = a
        kw['constant_amp'] = c['amps'] == 'constant'
        amp = np.full(m, a) if kw['constant_amp'] else a / np.sqrt([radial(i + 2) for i in range(first, n)])
    pat = [1] if push else (c['pattern'] or [1, -1])
    if not push:
        if c['pattern'] is not None:
            kw['pattern'] = c['pattern']
        kw['nsamples'] = c['ns']
    ns = 1 if push else c['ns']
    g = PushPullGenerator(n, first_mode=first, push_pull_type=c['type'], ncycles=c['cycles'], repeat_ncycles=c['rep'] == 'ncycles',
                          repeat_full_sequence=c['rep'] == 'full', **kw)
    seq = []
    for _ in range(c['cycles'] if c['rep'] == 'full' else 1):
        for i in range(m):
            if c['rep'] == 'full':
                pokes = pat
            elif c['rep'] == 'ncycles':
                pokes = [p for p in pat for _ in range(c['cycles'])]
            else:
                pokes = pat * c['cycles']
            for p in pokes:
                row = np.zeros(n)
                row[first + i] = amp[i] * p
                seq += [row] * ns
    got = run(g, len(seq))
    close(got, np.array(seq), 1e-6, what='sequence')
    raises(lambda: PushPullGenerator(n), 'no amplitude given', ValueError)
    return [c['rep'], c['type'].upper()]


@CHECK.family(st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(1, 5), 'len': st.integers(1, 10), 'steps': st.integers(1, 16), 'flat': st.booleans()}), 80, 2000,
              rule='time histories replayed row by row, then held', double=0.4)
def histories(c):
    rng = rng_of(c['seed'])
    data = rng.normal(size=c['len'] if c['flat'] else (c['len'], c['n'])).astype(DT)
    keep = data.copy()
    th = TimeHistory(data)
    got = run(TimeHistoryGenerator(th), c['steps'])
    rows = keep.reshape(c['len'], -1)
    for k in range(c['steps']):
        same(got[k], rows[min(k, c['len'] - 1)], f'step {k}')
    same(th.time_history, keep, 'the time history itself')
    return c['steps'] > c['len'] and 'held'


@CHECK.family(st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'gseed': st.integers(0, 10000), 'dist': st.sampled_from(['NORMAL', 'UNIFORM', 'normal']), 'n': st.integers(1, 5),
                                     'form': st.sampled_from(['amp', 'amps', 'rms', 'vsize', 'const']), 'law': st.sampled_from(['CONSTANT', 'INVERSE', 'LINEAR', 'linear']),
                                     'zero': st.integers(0, 4)}), 60, 1000,
              rule='random vectors: reproducible from the seed, different seeds differ, mean, width, independence and modal scaling over 400 steps', double=0.4)
def randoms(c):
    rng = rng_of(c['seed'])
    n, N = c['n'], 400
    const = 0.0
    if c['form'] == 'amp':
        amp, kw = np.full(n, 1.7), {'amp': 1.7, 'output_size': n}
    elif c['form'] == 'amps':
        amp = rng.uniform(0.2, 3, n) * (1 if c['dist'] == 'UNIFORM' else rng.choice([1, 1, -1], n))   # uniform ones have a width
        kw = {'amp': list(amp)}
        if c['zero'] % 2:
            const = rng.uniform(-3, 3, n)
            kw['constant'] = list(const)
    elif c['form'] == 'vsize':
        amp, const = np.full(n, 1.0), 2.5
        kw = {'vsize': n, 'constant': 2.5}
    elif c['form'] == 'const':
        amp, const = np.full(n, 0.5), rng.uniform(-3, 3, n)
        kw = {'amp': 0.5, 'constant': list(const)}
    else:
        rms, z = 2.3, min(c['zero'], n - 1)
        amp = np.array([0 if i < z else {'CONSTANT': 1, 'INVERSE': 1 / max(1, radial(i + 1)), 'LINEAR': max(1, radial(i + 1))}[c['law'].upper()] for i in range(n)], float)
        amp *= rms / np.sqrt(np.sum(amp**2))
        kw = {'modal_rms': rms, 'output_size': n, 'forced_zero_modes': z, 'scaling_law': c['law']}

    def gen(s):
        return run(RandomGenerator(distribution=c['dist'], seed=s, **kw), N)
    a, b, d = gen(c['gseed']), gen(c['gseed']), gen(c['gseed'] + 1)
    check(a.shape == (N, n), f'output of {a.shape[1:]} elements, expected {n}')
    same(a, b, 'same seed')
    nz = amp != 0
    if nz.any():
        check(not np.any(a[:, nz] == d[:, nz]) or np.mean(a[:, nz] == d[:, nz]) < 0.05, 'two different seeds give the same values')
    x = (a.astype(float) - const)
    check(np.all(np.abs(x[:, ~nz]) < 1e-12), 'modes forced to zero are not zero')
    x = x[:, nz] / amp[nz]
    sig = 1.0 if c['dist'].upper() == 'NORMAL' else 1 / math.sqrt(12)
    check(np.all(np.abs(x.mean(0)) < 6.5 * sig / math.sqrt(N)), f'mean {x.mean(0)}')
    check(np.all(np.abs(x.std(0) / sig - 1) < 6.5 / math.sqrt(2 * N)), f'width {x.std(0) / sig}')
    if c['dist'].upper() == 'UNIFORM':
        check(np.abs(x).max() <= 0.5 + 1e-5, 'uniform values outside their interval')
        check(np.abs(x).max() > 0.45, 'uniform values do not fill their interval')
    for i in range(x.shape[1]):
        check(abs(np.mean(x[1:, i] * x[:-1, i])) < 6.5 * sig**2 / math.sqrt(N), 'consecutive values are correlated')
        for j in range(i):
            check(abs(np.mean(x[:, i] * x[:, j])) < 6.5 * sig**2 / math.sqrt(N), 'elements of the vector are correlated')
    raises(lambda: RandomGenerator(amp=1.0, modal_rms=1.0), 'both amp and modal_rms', ValueError)
    return [c['form'], c['dist'].upper()]


@CHECK.family(st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(2, 40), 'fs': st.sampled_from([10.0, 1000.0, 500.0]), 'nm': st.integers(1, 3), 'gs': st.integers(0, 3000),
                                     'steps': st.integers(4, 40), 'dt': st.sampled_from([0.001, 0.1, 0.0013, 0.01]), 'zero': st.booleans(), 'fmode': st.booleans(), 'extra': st.integers(0, 2)}), 120, 3000,
              rule='signals made from a power spectrum: spectrum of the complex signal, band limits, energy, seeds, one sample for every step of the run', double=0.4)
def vibrations(c):
    rng = rng_of(c['seed'])
    # the library: the spectrum of the complex signal is the one requested
    psd = rng.uniform(0, 2, c['n'])
    psd[rng.random(c['n']) < 0.3] = 0
    re, im = psd_to_signal(psd, c['fs'], np, DT, CDT, seed=c['gs'])
    re2, _ = psd_to_signal(psd, c['fs'], np, DT, CDT, seed=c['gs'])
    same(re, re2, 'same seed')
    F = np.fft.fft(re.astype(float) + 1j * im.astype(float)) / (2 * c['n'])
    df = c['fs'] / 2 / c['n']
    want = np.concatenate([[0], psd * df, (psd[:-1] * df)[::-1]])
    close(np.abs(F)**2, want, 5e-5 if PREC == 1 else 1e-10, atol=1e-12, what='power spectrum')
    # the generator
    nm, dt = c['nm'], c['dt']
    par = SimulParams(pixel_pupil=8, pixel_pitch=0.1, time_step=dt, total_time=c['steps'] * dt)
    n = (c['steps'] + 1) // 2
    nf = max(2, n)
    fs = 1 / dt
    freq = np.linspace(0, fs / 2, 3 * nf)
    band = rng.integers(0, 4, size=nm)
    P = np.zeros((nm + c['extra'], len(freq)))
    for i in range(nm):
        P[i, (freq >= band[i] * fs / 8) & (freq <= (band[i] + 1) * fs / 8)] = 1 + i
    fr = freq if not c['fmode'] else np.tile(freq, (nm + c['extra'], 1)).T
    g = VibrationGenerator(par, nm, P, fr, seed=c['gs'], start_from_zero=c['zero'])
    got = run(g, c['steps'], dt).astype(float)
    again = run(VibrationGenerator(par, nm, P, fr, seed=c['gs'], start_from_zero=c['zero']), c['steps'], dt)
    same(got.astype(DT), again, 'same seed')
    if c['zero']:
        same(got[0], np.zeros(nm), 'first sample')
    if c['steps'] >= 10:
        other = run(VibrationGenerator(par, nm, P, fr, seed=c['gs'] + 17, start_from_zero=c['zero']), c['steps'], dt)
        check(not np.allclose(got, other), 'a different seed gives the same vibrations')
    if c['steps'] % 2 == 0 and n >= 4:
        F = np.fft.fft(got, axis=0) / (2 * n)
        fb = np.linspace(freq[0], freq[-1], n)
        for i in range(nm):
            A = np.sqrt(np.interp(fb, freq, P[i]) * (fs / 2 / n))
            S = np.concatenate([[0], A, A[:-1][::-1]])
            lim = (S + np.roll(S[::-1], 1)) / 2
            tol = 2e-5 * max(1e-9, S.max())
            bad = np.abs(F[:, i]) > lim + tol
            if c['zero']:
                bad[0] = False
            check(not bad.any(), f'mode {i}: energy outside the requested spectrum at bins {np.flatnonzero(bad)}')
            if S.max() > 0 and n >= 12:
                check(np.sum(np.abs(F[:, i])**2) > 0.02 * np.sum(S**2), f'mode {i}: energy lost')
    if c['steps'] >= 6 and np.abs(got).max() > 0 and c['steps'] % 2 == 0:
        for i in range(nm):
            if np.abs(got[:, i]).max() > 0:
                check(got[-1, i] != got[-2, i], f'mode {i}: the last sample is a repetition of the previous one')
    return c['steps'] >= 10


@CHECK.family(st.fixed_dictionaries({'n': st.integers(1, 8), 'lin': st.sampled_from(['linear', 'sqrt']), 'min': st.none() | st.floats(0.1, 2)}), 30, 300,
              rule='amplitude laws of the push-pull signal with an upper limit')
def push_pull_library(c):
    h = modal_pushpull_signal(c['n'], amplitude=3.0, linear=c['lin'] == 'linear', min_amplitude=c['min'])
    r = np.array([radial(i + 2) for i in range(c['n'])], float)
    a = 3.0 / r if c['lin'] == 'linear' else 3.0 / np.sqrt(r)
    if c['min'] is not None:
        a = np.minimum(a, c['min'])
    want = np.zeros((2 * c['n'], c['n']))
    for i in range(c['n']):
        want[2 * i, i], want[2 * i + 1, i] = a[i], -a[i]
    close(h, want, 1e-9, what='signal')
