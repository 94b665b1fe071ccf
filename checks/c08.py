"""C08 - temporal filters follow their difference equation, with the declared delay."""
from vlib.drive import *
import scipy.signal as ss
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.iir_filter_data import IirFilterData
from specula.data_objects.ssr_filter_data import SsrFilterData
from specula.processing_objects.iir_filter import IirFilter
from specula.processing_objects.integrator import Integrator
from specula.processing_objects.dynamic_iir_filter import DynamicIirFilter
from specula.processing_objects.dynamic_integrator import DynamicIntegrator
from specula.processing_objects.low_pass_filter import LowPassFilter
from specula.processing_objects.ssr_filter import SsrFilter

CHECK = Check('C08', 'temporal filters', scale=2, assumptions=[
    'numerator and denominator coefficients are given with the current sample last, both of the same length for the '
    'frequency-domain functions, as all the constructors of the code base do'])

RT = 3e-4 if PREC == 1 else 1e-10
delays = st.sampled_from([0, 0, 1, 2, 3, 0.5, 0.25, 1.5, 1.3, 2.75, 3.1])


def sp(dt=0.001):
    return SimulParams(pixel_pupil=8, pixel_pitch=0.1, time_step=dt)


def delayed(y, k, d):
    """y[k-d], linear interpolation between samples, zero before the start."""
    def at(i):
        return y[i] if i >= 0 else np.zeros_like(y[0])
    lo, fr = int(np.floor(d)), d - np.floor(d)
    return at(k - lo) if fr == 0 else (1 - fr) * at(k - lo) + fr * at(k - lo - 1)


def stable_den(rng, n, order):
    out = np.zeros((n, order))
    for i in range(n):
        roots = []
        while len(roots) < order - 1:
            if order - 1 - len(roots) >= 2 and rng.random() < 0.5:
                r = rng.uniform(0.1, 0.9) * np.exp(1j * rng.uniform(0, np.pi))
                roots += [r, np.conj(r)]
            else:
                roots.append(rng.uniform(-0.9, 1.0))
        out[i] = np.real(np.atleast_1d(np.poly(roots)))[::-1] * rng.uniform(0.5, 2)
    return out


def iir_model(num, den, us, gms, delay, integration, events=None, gain0=None):
    """us[k] (n,) or None -> the filter does not run. Lists of (output, undelayed output)."""
    n = num.shape[0]
    ni, no = num.shape[1], den.shape[1]
    x, y, out = [], [], []
    state_y = []
    cur = num
    for k, u in enumerate(us):
        ev = (events or {}).get(k, {})
        if u is None:
            out.append(None)
            continue
        if ev.get('reset'):
            x, y, state_y = [], [np.zeros(n) for _ in y], []
        if 'num' in ev:
            cur = ev['num']
        x.append(u)
        acc = np.zeros(n)
        for j in range(min(ni, len(x))):
            acc += cur[:, ni - 1 - j] * gms[k] * x[-1 - j]
        if integration:
            for j in range(1, min(no, len(state_y) + 1)):
                acc -= den[:, no - 1 - j] * state_y[-j]
        v = acc / den[:, no - 1]
        state_y.append(v)
        y.append(v)
        out.append((delayed(y, len(y) - 1, delay), v))
    return out


def compare(rec, want, what):
    s = 1e-30
    for k, w in enumerate(want):
        o, of = rec['out_comm'][k]
        d, df = rec['out_comm_no_delay'][k]
        if w is None:
            check(not of and not df, f'{what}: an output was refreshed at step {k} with no fresh input')
            continue
        check(of and df, f'{what}: outputs not refreshed at step {k}')
        s = max(s, float(np.max(np.abs(w[1]))))
        close(o, w[0], RT, scale=s, what=f'{what}: out_comm at step {k}')
        close(d, w[1], RT, scale=s, what=f'{what}: out_comm_no_delay at step {k}')


def inputs(c, n, rng, steps):
    """delta_comm and gain_mod histories, as (fed, effective)."""
    fed, eff = [], []
    last = None
    for k in range(steps):
        v = None
        if (c['mask'] >> k) & 1:
            v = rng.normal(size=n) if c['vec'] else rng.normal(size=1)
            last = np.broadcast_to(v, n).astype(float)
        fed.append(v)
        eff.append(last)
    gfed, geff, fresh = None, [np.ones(n)] * steps, [v is not None for v in fed]
    if c['gm'] != 'none':
        gfed, geff, last_g = [], [], np.zeros(n)
        for k in range(steps):
            v = None
            if k == 0 or (c['gmask'] >> k) & 1:
                v = rng.uniform(0, 2, size=n if c['gm'] == 'vector' else 1)
                last_g = np.broadcast_to(v, n).astype(float)
            gfed.append(v)
            geff.append(last_g)
            fresh[k] = fresh[k] or v is not None
    zero = np.zeros(n)
    us = [(zero if e is None else e) if f else None for e, f in zip(eff, fresh)]
    return fed, gfed, us, geff


COMMON = {'n': st.integers(1, 4), 'seed': st.integers(0, 2**31), 'steps': st.integers(1, 16), 'mask': st.integers(1, 2**16 - 1) | st.just(2**16 - 1),
          'vec': st.booleans(), 'gm': st.sampled_from(['none', 'none', 'scalar', 'vector']), 'gmask': st.integers(0, 2**16 - 1), 'delay': delays}


def feeds_of(fed, gfed):
    f = {'delta_comm': value_feed(fed)}
    if gfed is not None:
        f['gain_mod'] = value_feed(gfed)
    return f


@CHECK.family(st.fixed_dictionaries({**COMMON, 'ni': st.integers(1, 4), 'no': st.integers(1, 5), 'integ': st.booleans(), 'left': st.booleans(),
                                     'n_modes': st.none() | st.lists(st.integers(1, 3), min_size=4, max_size=4)}), 350, 9000,
              rule='random filters of 1..4 modes (order up to 4, both alignments, mode repetition), delays, gain modulation and missing inputs against the '
                   'difference equation in double precision; non-trivial = the filter ran', double=0.4)
def difference_equation(c):
    rng = rng_of(c['seed'])
    n, ni, no = c['n'], c['ni'], c['no']
    num = rng.normal(size=(n, ni))
    num[np.abs(num) < 0.05] = 0.3
    den = stable_den(rng, n, no)
    on, od = np.full(n, ni), np.full(n, no)
    gnum, gden = num.copy(), den.copy()
    if c['left']:
        # a mode of lower order than the others, written either way
        for a, g, o, w in ((num, gnum, on, ni), (den, gden, od, no)):
            i = int(rng.integers(n))
            if w > 1:
                q = int(rng.integers(1, w))
                a[i, :w - q] = 0
                if np.any(np.abs(a[i, w - q:]) < 1e-12):
                    a[i, w - q:] = 0.5
                g[i] = np.roll(a[i], q - w)
                o[i] = q
    reps = None
    if c['n_modes']:
        reps = c['n_modes'][:n]
        num, den = np.repeat(num, reps, axis=0), np.repeat(den, reps, axis=0)
        n = sum(reps)
    data = IirFilterData(list(on), list(od), gnum, gden, n_modes=reps)
    check(data.nfilter == n, f'{data.nfilter} filters, expected {n}')
    close(data.num, num, 1e-6, what='numerator')
    close(data.den, den, 1e-6, what='denominator')
    fed, gfed, us, gms = inputs(c, n, rng, c['steps'])
    obj = IirFilter(sp(), data, delay=c['delay'], integration=c['integ'])
    rec = drive(obj, feeds_of(fed, gfed), c['steps'])
    compare(rec, iir_model(num, den, us, gms, c['delay'], c['integ']), 'IirFilter')
    return any(u is not None for u in us) and [f'delay{c["delay"]}', 'gm_' + c['gm']]


@CHECK.family(st.fixed_dictionaries({**COMMON, 'cls': st.sampled_from(['int', 'dynint', 'dyniir']), 'ff': st.sampled_from(['none', 'one', 'each']),
                                     'ng': st.integers(1, 3), 'reps': st.none() | st.lists(st.integers(1, 3), min_size=3, max_size=3),
                                     'resets': st.integers(0, 2**16 - 1), 'gains': st.integers(0, 2**16 - 1), 'use_r': st.booleans(),
                                     'use_g': st.booleans(), 'gvec': st.booleans(), 'sparse': st.integers(0, 2**16 - 1), 'integ': st.booleans()}), 350, 9000,
              rule='integrators with gain, forgetting factor and mode repetition, dynamic ones with resets and gain changes at generated steps; '
                   'non-trivial = ran', double=0.4)
def integrators(c):
    rng = rng_of(c['seed'])
    m = c['ng']
    gain = rng.uniform(0.05, 1.5, m)
    ff = {'none': None, 'one': None, 'each': list(rng.uniform(0.3, 1, m))}[c['ff']]
    reps = c['reps'][:m] if c['reps'] else None
    n = sum(reps) if reps else m
    g = np.repeat(gain, reps) if reps else gain
    f = np.ones(n) if ff is None else (np.repeat(ff, reps) if reps else np.array(ff))
    num = np.stack([np.zeros(n), g], axis=1)
    den = np.stack([-f, np.ones(n)], axis=1)
    if c['cls'] == 'dyniir':
        data = IirFilterData.from_gain_and_ff(list(g), ff=list(f))
        obj = DynamicIirFilter(sp(), data, delay=c['delay'], integration=c['integ'])
    else:
        K = Integrator if c['cls'] == 'int' else DynamicIntegrator
        obj = K(sp(), list(gain), ff=ff, n_modes=reps, delay=c['delay'], integration=c['integ'])
    fed, gfed, us, gms = inputs(c, n, rng, c['steps'])
    feeds = feeds_of(fed, gfed)
    events = {}
    if c['cls'] != 'int':
        fresh = [u is not None for u in us]
        last = np.zeros(n)
        full = []
        for k in range(c['steps']):
            if fed[k] is not None:
                last = np.broadcast_to(fed[k], n).astype(float)
            full.append(last)
        if c['use_r']:
            # a generator refreshes its output at every step: here only at the steps where it is asked to
            rv = [np.array([1.0]) if (c['resets'] & c['sparse']) >> k & 1 else None for k in range(c['steps'])]
            feeds['reset'] = value_feed(rv)
            for k, v in enumerate(rv):
                if v is not None:
                    events.setdefault(k, {})['reset'] = True
                    fresh[k] = True
        if c['use_g']:
            gv = []
            for k in range(c['steps']):
                v = None
                if (c['gains'] & c['sparse']) >> k & 1:
                    v = rng.uniform(0.05, 1.5, size=n if c['gvec'] or (n > 1 and c['cls'] == 'dyniir') else 1)
                    nn = num.copy()
                    nn[:, 1] = v
                    events.setdefault(k, {})['num'] = nn
                    fresh[k] = True
                gv.append(v)
            feeds['int_gain'] = value_feed(gv)
        us = [full[k] if fresh[k] else None for k in range(c['steps'])]
    rec = drive(obj, feeds, c['steps'])
    compare(rec, iir_model(num, den, us, gms, c['delay'], c['integ'], events), c['cls'])
    return any(u is not None for u in us) and [c['cls'], 'reset' if any('reset' in e for e in events.values()) else 'no reset']


def nested(ms, how):
    """The same single-input filters in the different accepted notations."""
    if how == 'arrays':
        return [np.array(x) for x in ms]
    if how == 'lists':
        return [np.array(x).tolist() for x in ms]
    return ms


@CHECK.family(st.fixed_dictionaries({**COMMON, 'states': st.lists(st.integers(1, 3), min_size=1, max_size=4), 'how': st.sampled_from(['arrays', 'lists', 'full', 'scalars']),
                                     'new': st.booleans(), 'reps': st.none() | st.lists(st.integers(1, 2), min_size=4, max_size=4),
                                     'reset_at': st.integers(0, 20)}), 350, 9000,
              rule='state-space filters in every notation, with both output conventions, delay, gain modulation and a reset, against the matrix recursion '
                   'in double precision', double=0.4)
def state_space(c):
    rng = rng_of(c['seed'])
    sts = [1] * len(c['states']) if c['how'] == 'scalars' else c['states']
    A, B, C, D = [], [], [], []
    for s in sts:
        a = rng.normal(size=(s, s))
        a *= rng.uniform(0.2, 0.98) / max(1e-6, np.max(np.abs(np.linalg.eigvals(a))))
        if np.linalg.norm(a) > 3:
            a *= 3 / np.linalg.norm(a)
        A.append(a), B.append(rng.normal(size=(s, 1))), C.append(rng.normal(size=(1, s))), D.append(rng.normal(size=(1, 1)))
    m = len(sts)
    reps = c['reps'][:m] if c['reps'] else None
    if c['how'] == 'full':
        # coupled modes given as full matrices
        reps = None
        S = sum(sts)
        a = rng.normal(size=(S, S))
        a *= 0.9 / max(1e-6, np.linalg.norm(a, 2))
        fA, fB, fC, fD = a, rng.normal(size=(S, m)), rng.normal(size=(m, S)), rng.normal(size=(m, m))
        data = SsrFilterData(fA, fB, fC, fD)
        n = m
    else:
        idx = list(np.repeat(range(m), reps)) if reps else list(range(m))
        from scipy.linalg import block_diag
        fA, fB, fC, fD = [block_diag(*[M[i] for i in idx]) for M in (A, B, C, D)]
        n = len(idx)
        if c['how'] == 'scalars' and m > 1:
            args = [[float(x[0, 0]) for x in M] for M in (A, B, C, D)]
        else:
            args = [nested(M, c['how']) for M in (A, B, C, D)]
        data = SsrFilterData(*args, n_modes=reps)
    check(data.nfilter == n and data.total_states == fA.shape[0], f'{data.nfilter} filters and {data.total_states} states, '
          f'expected {n} and {fA.shape[0]}')
    check(data.is_stable() == bool(np.max(np.abs(np.linalg.eigvals(fA))) < 1), 'is_stable')
    for nm, a, b in (('A', data.A, fA), ('B', data.B, fB), ('C', data.C, fC), ('D', data.D, fD)):
        close(a, b, 1e-6, what=nm)
    fed, gfed, us, gms = inputs(c, n, rng, c['steps'])
    obj = SsrFilter(sp(), data, delay=c['delay'], output_uses_new_state=c['new'])
    rec = drive(obj, feeds_of(fed, gfed), c['steps'])
    x, y, want = np.zeros(fA.shape[0]), [], []
    for k, u in enumerate(us):
        if u is None:
            want.append(None)
            continue
        v = u * gms[k]
        xn = fA @ x + fB @ v
        y.append(fC @ (xn if c['new'] else x) + fD @ v)
        x = xn
        want.append((delayed(y, len(y) - 1, c['delay']), y[-1]))
    compare(rec, want, 'SsrFilter')
    obj.reset_states()
    # after a reset, the same inputs give the same outputs
    obj2 = SsrFilter(sp(), data, delay=c['delay'], output_uses_new_state=c['new'])
    f1 = drive(obj, feeds_of(fed, gfed), c['steps'])
    f2 = drive(obj2, feeds_of(fed, gfed), c['steps'])
    for k in range(c['steps']):
        if us[k] is not None:
            same(f1['out_comm'][k][0], f2['out_comm'][k][0], f'after reset, step {k}')
    return any(u is not None for u in us) and [c['how'], 'new' if c['new'] else 'old']


@CHECK.family(st.fixed_dictionaries({'n': st.integers(1, 4), 'seed': st.integers(0, 2**31), 'ff': st.booleans(), 'ffscalar': st.booleans(), 'steps': st.integers(1, 20),
                                     'delay': delays}), 60, 1500,
              rule='the same integrator as IIR filter and as state-space model', double=0.5)
def two_integrators(c):
    rng = rng_of(c['seed'])
    n = c['n']
    g = rng.uniform(0.05, 1.5, n)
    ff = (float(rng.uniform(0.3, 1)) if c['ffscalar'] else rng.uniform(0.3, 1, n)) if c['ff'] else None
    us = [rng.normal(size=n) for _ in range(c['steps'])]
    a = drive(IirFilter(sp(), IirFilterData.from_gain_and_ff(g, ff=ff), delay=c['delay']), {'delta_comm': value_feed(us)}, c['steps'])
    b = drive(SsrFilter(sp(), SsrFilterData.from_integrator(g, ff=ff), delay=c['delay']), {'delta_comm': value_feed(us)}, c['steps'])
    p = drive(SsrFilter(sp(), SsrFilterData.from_gain(g), delay=c['delay']), {'delta_comm': value_feed(us)}, c['steps'])
    for k in range(c['steps']):
        close(a['out_comm'][k][0], b['out_comm'][k][0], RT, atol=RT, what=f'integrator, step {k}')
        close(p['out_comm'][k][0], delayed([g * u for u in us[:k + 1]], k, c['delay']), RT, atol=1e-6, what=f'pure gain, step {k}')


def resp(b, a, w):
    """Response of filters written with the current sample last."""
    z = np.exp(1j * w)
    return sum(x * z**-j for j, x in enumerate(b[::-1])) / sum(x * z**-j for j, x in enumerate(a[::-1]))


@CHECK.family(st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(1, 3), 'order': st.sampled_from([None, 1, 2, 4, 6]), 'ampl': st.booleans(),
                                     'dt': st.sampled_from([0.001, 0.002, 0.0005, 0.01]), 'scalar': st.booleans(), 'ascal': st.booleans()}), 60, 1500,
              rule='low-pass filters: impulse response of the running component against the Butterworth design of scipy (even order), unit gain at zero '
                   'frequency (all), requested amplification at the cut-off (resonant)', double=0.5)
def low_pass(c):
    rng = rng_of(c['seed'])
    fs = 1 / c['dt']
    n = 1 if c['scalar'] else c['n']
    fc = rng.uniform(0.06, 0.44, n) * fs
    arg = float(fc[0]) if c['scalar'] else list(fc)
    if c['ampl']:
        am = rng.uniform(0.5, 3, 1 if c['ascal'] else n)
        obj = LowPassFilter(sp(c['dt']), arg, amplif_fact=float(am[0]) if c['ascal'] else list(am))
        am = np.broadcast_to(am, n)
    else:
        obj = LowPassFilter(sp(c['dt']), arg, n_ord=c['order'])
    N = 400
    imp = [np.ones(n) if k == 0 else np.zeros(n) for k in range(N)]
    h = np.array([x[0] for x in drive(obj, {'delta_comm': value_feed(imp)}, N, dt=c['dt'])['out_comm']], dtype=float)
    check(np.all(np.abs(h[-20:]) < 1e-3), 'the impulse response of a low-pass filter does not vanish')
    tol = 2e-3 if PREC == 1 else 1e-6
    for i in range(n):
        f = np.array([0, 0.3, 0.7, 1, 1.1]) * fc[i]
        H = np.array([np.sum(h[:, i] * np.exp(-2j * np.pi * x / fs * np.arange(N))) for x in f])
        close(H[0], 1.0 + 0j, tol, what='gain at zero frequency')
        if c['ampl']:
            check(abs(abs(H[3]) - am[i]) < tol * max(1, am[i]), f'gain at the cut-off {abs(H[3])}, requested {am[i]}')
        elif c['order'] != 1:
            b, a = ss.butter(c['order'] or 2, fc[i], fs=fs)
            _, w = ss.freqz(b, a, worN=f, fs=fs)
            close(H, w, tol, what='response of the Butterworth filter')
        else:
            check(np.all(np.diff(np.abs(H)) < 0), 'first-order response does not decrease with frequency')
            a0 = np.tan(np.pi * fc[i] / fs) / (1 + np.tan(np.pi * fc[i] / fs))
            close(h[:6, i], a0 * (1 - a0) ** np.arange(6), 1e-5, what='first-order impulse response')
    for bad in (0.5 * fs, 0.7 * fs):
        raises(lambda: LowPassFilter(sp(c['dt']), bad, n_ord=2), f'cut-off {bad} with sampling {fs}', ValueError)
    return 'resonant' if c['ampl'] else f'order{c["order"]}'


@CHECK.family(st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(1, 3), 'w': st.integers(2, 4), 'delay': st.sampled_from([0, 1, 2, 3, 0.5, 1.25, 2.6]),
                                     'plant': st.sampled_from(['none', 'delay', 'poly']), 'scale': st.sampled_from([1.0, 0.3, 3.0]), 'gidx': st.integers(0, 3)}), 150, 4000,
              rule='transfer functions, stability, maximum gain, gain setting and the conversion to and from the control library, against evaluation on the '
                   'unit circle and eigenvalues of the closed loop', double=0.5)
def analysis(c):
    rng = rng_of(c['seed'])
    n, w = c['n'], c['w']
    num = rng.normal(size=(n, w)) * c['scale']
    num[:, -1] = np.sign(num[:, -1]) * np.maximum(0.1, np.abs(num[:, -1]))
    den = stable_den(rng, n, w)
    d = IirFilterData([w] * n, [w] * n, num, den)
    mode = int(rng.integers(n))
    fs = 1000.0
    freq = np.array([0.5, 7.0, 111.0, 250.0, 333.0, 499.0])
    om = 2 * np.pi * freq / fs
    C = resp(num[mode], den[mode], om)
    far = np.min(np.abs(np.polyval(den[mode][::-1] * 0 + den[mode][::-1], np.exp(1j * om))))  # distance from the poles
    t = 2e-3 if PREC == 1 else 1e-8
    if far > 0.05:
        close(d.frequency_response(d.num[mode], d.den[mode], fs, freq=freq), C, t, what='frequency response')
    pn, pd = d.discrete_delay_tf(c['delay'])
    P = resp(pn, pd, om)
    lo, fr = np.floor(c['delay']), c['delay'] % 1
    close(P, (1 - fr) * np.exp(-1j * om * lo) + fr * np.exp(-1j * om * (lo + 1)), 1e-9, what='transfer function of the delay')
    kw = {}
    if c['plant'] == 'delay':
        kw = {'dm': np.array([1.0]), 'nw': pn, 'dw': pd}
    elif c['plant'] == 'poly':
        pn, pd = np.array([0, rng.uniform(0.1, 1), rng.uniform(0.1, 1)]), np.array([rng.uniform(-0.5, 0.5), rng.uniform(-0.5, 0.5), 1.0])
        dm = np.array([0.0, 1.0])
        kw = {'dm': dm, 'nw': pn, 'dw': pd}
        pd = np.convolve(dm, pd)
        pn = np.pad(pn, (0, 1))
        P = np.polyval(pn[::-1], np.exp(1j * om)) / np.polyval(pd[::-1], np.exp(1j * om))
    else:
        P = np.ones_like(om)
    L = C * P
    if np.min(np.abs(1 + L)) > 0.05 and far > 0.05:
        close(d.RTF(mode, fs, freq=freq, plot=False, **kw), np.abs(1 / (1 + L)), 10 * t, what='rejection transfer function')
        close(d.NTF(mode, fs, freq=freq, plot=False, **kw), np.abs(L / (1 + L)), 10 * t, what='noise transfer function')
    # stability of the closed loop, from the polynomial of the loop
    a, b = np.convolve(den[mode], pd if c['plant'] != 'none' else [1.0]), np.convolve(num[mode], pn if c['plant'] != 'none' else [1.0])
    m = max(len(a), len(b))
    cl = np.pad(a, (0, m - len(a))) + np.pad(b, (0, m - len(b)))
    rho = np.max(np.abs(np.roots(cl[::-1]))) if len(cl) > 1 else 0
    if abs(rho - 1) > 1e-3 and abs(cl[-1]) > 1e-2:
        check(bool(d.is_stable(mode, **kw)) == bool(rho < 1), f'is_stable {d.is_stable(mode, **kw)}, largest closed-loop pole {rho}')
    # the resonance is where the polynomial of the loop is smallest
    gf = float(rng.uniform(0.3, 1.5))
    fr, am = d.resonance_frequency(mode, gain_factor=gf, fs=fs, freq=freq, **kw)
    mags = np.abs(np.polyval((np.pad(a, (0, m - len(a))) + gf * np.pad(b, (0, m - len(b))))[::-1], np.exp(1j * om)))
    if np.min(mags) > 0.02 * np.max(mags):
        where = np.flatnonzero(np.isclose(freq, fr))
        check(len(where) > 0 and mags[where[0]] <= np.min(mags) * (1 + 50 * t), f'resonance at {fr} Hz, where the loop is not at its minimum')
        close(am, 1 / np.min(mags), 50 * t, what='amplitude of the resonance')
    # the largest stable gain of an integrator behind a delay, by running the loop
    ff = rng.uniform(0.7, 1.0)
    it = IirFilterData.from_gain_and_ff([0.5, 0.2], ff=[float(ff), 1.0])
    g = it.max_stable_gain(mode=0, delay=c['delay'] + 1, max_gain=4.0, n_gain=400)
    both = it.max_stable_gain(delay=c['delay'] + 1, max_gain=4.0, n_gain=400)
    check(float(both[0]) == float(g), 'the largest stable gain of one mode depends on how it is asked')
    if c['gidx'] == 1:
        rep = it.stability_analysis(mode=0, delay=c['delay'] + 1, max_gain=4.0, n_gain=400, fs=fs)
        reps = it.stability_analysis(delay=c['delay'] + 1, max_gain=4.0, n_gain=400, fs=fs)
        check(float(rep['max_stable_gain']) == float(g) and [float(q['max_stable_gain']) for q in reps] == [float(v) for v in both]
              and [q['mode'] for q in reps] == [0, 1] and bool(rep['is_stable_at_max']) == bool(g > 0),
              f'the stability analysis reports {rep} and {reps}, the largest stable gains are {both}')
        if g > 0:
            check((rep['resonance_frequency'], rep['resonance_amplitude']) == it.resonance_frequency(0, gain_factor=g * 0.99, delay=c['delay'] + 1, fs=fs),
                  'the resonance of the stability analysis is not that of the loop just below the largest stable gain')

    def grows(k):
        y, lat = [], []
        for i in range(4000):
            e = (1.0 if i == 0 else 0.0) - (lat[-1] if lat else 0.0)
            y.append((ff * y[-1] if y else 0.0) + k * e)
            lat.append(float(delayed([np.float64(v) for v in y[-5:]], len(y[-5:]) - 1, c['delay'])))
            if abs(y[-1]) > 1e6:
                return True
        return max(abs(v) for v in y[-50:]) > max(abs(v) for v in y[:50])
    if c['gidx'] == 0:
        if g > 0.03:
            check(not grows(g * 0.97), f'the loop diverges at 0.97 of the largest stable gain {g}')
        check(g >= 3.99 or grows(g * 1.03 + 0.02), f'the loop is stable beyond the largest stable gain {g}')
    # setting the gain
    ng = rng.uniform(0.1, 2, n)
    keep = np.array(d.num)
    d.set_gain(ng)
    close(d.num, num / num[:, -1:] * ng[:, None], 1e-5, what='numerator after set_gain')
    d.set_gain(np.zeros(n))
    d.set_gain(keep[:, -1])
    close(d.num, keep, 1e-5, what='numerator after setting the gain to zero and back')
    part = np.full(n, np.nan)
    part[0] = 0.77
    d.set_gain(part)
    close(d.num[0], num[0] / num[0, -1] * 0.77, 1e-5, what='numerator with one gain set')
    close(d.num[1:], keep[1:], 1e-5, what='numerators with no gain set')
    d.set_gain(0.4)
    close(d.num, num / num[:, -1:] * 0.4, 1e-5, what='numerator with a common gain')
    # control library
    d = IirFilterData([w] * n, [w] * n, num, den)
    tfs = d.to_control_tf_list(dt=1 / fs)
    for i in range(n):
        close(np.array(tfs[i](np.exp(1j * om))), resp(num[i], den[i], om), 1e-3 if PREC == 1 else 1e-8, what='control transfer function') \
            if np.min(np.abs(np.polyval(den[i][::-1], np.exp(1j * om)))) > 0.05 else None
    back = IirFilterData.from_control_tf(tfs)
    close(back.num, num, 1e-6, what='numerator through the control library')
    close(back.den, den, 1e-6, what='denominator through the control library')
    return [c['plant'], 'loop run' if c['gidx'] == 0 else 'algebra']


@CHECK.family(st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(1, 3), 'orders': st.lists(st.integers(1, 4), min_size=3, max_size=3),
                                     'lags': st.lists(st.integers(0, 3), min_size=3, max_size=3), 'one': st.booleans()}), 60, 1200,
              rule='filters built from transfer functions of the control library, with numerators shorter than the denominator (a delay) and orders that '
                   'differ from mode to mode: frequency response, the running component against scipy.signal.lfilter, step and impulse responses, and the '
                   'pole-zero map, against the transfer function itself', double=0.5)
def from_control(c):
    import control
    from scipy.signal import lfilter
    rng = rng_of(c['seed'])
    n = 1 if c['one'] else c['n']
    fs = 1000.0
    tfs, dens, nums = [], [], []
    for i in range(n):
        order = c['orders'][i]
        poles = rng.uniform(-0.85, 0.85, order)
        a = np.poly(poles)
        b = rng.uniform(0.2, 1.5, order + 1 - min(c['lags'][i], order)) * rng.choice([-1, 1])
        tfs.append(control.TransferFunction(b, a, dt=1 / fs))
        nums.append(np.concatenate([np.zeros(order + 1 - len(b)), b]))
        dens.append(a)
    d = IirFilterData.from_control_tf(tfs[0] if c['one'] else tfs)
    check(d.nfilter == n, f'{d.nfilter} filters built from {n} transfer functions')
    f = np.linspace(1, fs / 2 - 1, 40)
    om = 2 * np.pi * f / fs
    rt = 2e-3 if PREC == 1 else 1e-8
    x = rng.normal(size=(30, n))
    rec = drive(IirFilter(sp(0.001), d, delay=0), {'delta_comm': value_feed(list(x))}, 30)
    y = np.array([v[0] for v in rec['out_comm']], dtype=float).reshape(30, n)
    for i in range(n):
        want = np.array([np.polyval(nums[i], z) / np.polyval(dens[i], z) for z in np.exp(1j * om)])
        got = d.frequency_response(d.num[i], d.den[i], fs, freq=f)
        close(got, want, rt, what=f'frequency response of mode {i}')
        close(y[:, i], lfilter(nums[i], dens[i], x[:, i]), 1e-3 if PREC == 1 else 1e-9, what=f'output of mode {i} of the running filter')
        t, s = d.step_response(i, dt=1 / fs)
        close(s, lfilter(nums[i], dens[i], np.ones(len(s))), 1e-3 if PREC == 1 else 1e-6, what=f'step response of mode {i}')
        t, h = d.impulse_response(i, dt=1 / fs)
        imp = np.zeros(len(h))
        imp[0] = 1
        h = np.asarray(h) / fs  # the control library scales the discrete impulse by 1/dt
        close(h, lfilter(nums[i], dens[i], imp), 1e-3 if PREC == 1 else 1e-6, what=f'impulse response of mode {i}')
        p, z = d.pole_zero_map(i, dt=1 / fs, plot=False)
        for q in np.asarray(p):
            check(abs(np.polyval(dens[i], q)) < 1e-3 * np.sum(np.abs(dens[i])), f'{q} is not a pole of mode {i}')
    back = d.to_control_tf_list(dt=1 / fs)
    for i in range(n):
        close(np.array(back[i](np.exp(1j * om))), np.array(tfs[i](np.exp(1j * om))), rt, what=f'transfer function of mode {i} given back')
    return ['delayed' if any(np.array(c['lags'][:n]) > 0) else 'proper', 'mixed orders' if len(set(c['orders'][:n])) > 1 else 'one order']
