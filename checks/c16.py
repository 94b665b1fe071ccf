"""C16 - turbulence: layers move with the wind, scale with the seeing, and are reproducible from the seed."""
from vlib.drive import *
from scipy.ndimage import rotate
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.source import Source
from specula.data_objects.pupilstop import Pupilstop
from specula.data_objects.spatio_temp_array import SpatioTempArray
from specula.processing_objects.atmo_evolution import AtmoEvolution
from specula.processing_objects.atmo_evolution_up_down import AtmoEvolutionUpDown
from specula.processing_objects.atmo_infinite_evolution import AtmoInfiniteEvolution
from specula.processing_objects.atmo_infinite_evolution_up_down import AtmoInfiniteEvolutionUpDown
from specula.processing_objects.atmo_random_phase import AtmoRandomPhase
from specula.processing_objects.atmo_propagation import AtmoPropagation
from specula.processing_objects.phase_screen_cube import PhaseScreenCube
from specula.lib.phasescreen_manager import phasescreens_manager
from specula.lib.calc_phasescreen import calc_phasescreen

CHECK = Check('C16', 'turbulence', assumptions=[
    'wind speeds are not negative; layers are smaller than the screens; winds of infinite screens blow along the axes'])
T = 2e-4 if PREC == 1 else 1e-9
AS = np.pi / 180 / 3600


def r0_of(seeing, zen):
    """Fried parameter at 500 nm: seeing is the FWHM 0.9759 lambda / r0 at zenith."""
    return 0.9759 * 0.5 / (seeing * 4.848) * np.cos(np.radians(zen))**0.6


def vec_feed(vals):
    return value_feed([None if v is None else np.atleast_1d(np.asarray(v, dtype=DT)) for v in vals])


def hold(vals):
    out, cur = [], None
    for v in vals:
        cur = cur if v is None else v
        out.append(cur)
    return out


def sequences(c, rng, nl, steps):
    """seeing, wind speed and direction: (value or None at each step)"""
    def seq(draw, bits):
        return [draw() if k == 0 or (bits >> k) & 1 else None for k in range(steps)]
    see = seq(lambda: np.float32([rng.choice([0.5, 0.8, 1.2, 2.0])]) if rng.random() > 0.1 else np.float32([0.0]), c['us'])
    spd = seq(lambda: rng.choice([0, 1, 5, 12.5, 30, 50.0], nl).astype(np.float32), c['uw'])
    dirs = seq(lambda: rng.choice(c['dirs'], nl).astype(np.float32), c['ud'])
    return see, spd, dirs


class Screens:
    """The screens of the evolution, rebuilt from the screen generator and the documented seeding."""
    def __init__(self, c, nl, pix, Cn2, d):
        L0 = c['L0'] if c['L0'] is not None else list(c['L0s'][:nl])
        same_L0 = not isinstance(L0, list) or len(set(L0)) == 1
        m, big = int(max(pix)), c['screen']
        gen = lambda seed, l0: np.array(calc_phasescreen(l0, big, c['pitch'], xp=np, precision=PREC, seed=seed))
        out = []
        if same_L0:
            l0 = L0[0] if isinstance(L0, list) else L0
            per = big // m
            for i in range(nl):
                s = gen(c['seed'] + i // per, l0)
                out.append(s[m * (i % per):m * (i % per + 1)])
        else:
            for i in range(nl):
                out.append(gen(c['seed'] + i, L0[i])[:m])
        self.s = []
        for i, p in enumerate(out):
            p = p.astype(float) * np.sqrt(Cn2[i])
            p = (p - p.mean()) * 500 / (2 * np.pi)
            self.s.append(p[:, ::-1] if i % 2 else p)

    def layer(self, i, n, pos, direction):
        q = int(np.floor(pos)); f = pos - q
        p = self.s[i]
        a = (1 - f) * p[:n, q:q + n] + f * p[:n, q + 1:q + n + 1]
        k = int(np.fix(direction / 90.0)); rest = direction - 90 * k
        a = np.rot90(a, k)
        return rotate(a, rest, reshape=False, order=1) if rest else a


evo = {'n': st.integers(4, 20), 'pitch': st.sampled_from([0.05, 0.1, 0.25]), 'zen': st.sampled_from([0, 0, 30, 55]), 'nl': st.integers(1, 4),
       'L0': st.sampled_from([25, 40.0, 10, None, None]), 'L0s': st.sampled_from([[25, 25, 25, 25], [10, 20, 25, 40], [25.5, 30, 30, 8]]),
       'screen': st.sampled_from([128, 128, 256]), 'seed': st.integers(1, 10**5), 'fov': st.sampled_from([0, 0, 20, 60]), 'steps': st.integers(1, 8),
       'dt': st.sampled_from([0.001, 0.01, 0.05, 0.05, 0.2]), 't0': st.sampled_from([0, 0, 0.1]), 'extra': st.sampled_from([0, 0, 0.01, 'list']),
       'us': st.integers(0, 255), 'uw': st.integers(0, 255), 'ud': st.integers(0, 255),
       'dirs': st.sampled_from([[0], [0, 90, 180, 270], [0, 30, 45.5, 135, -20, 300]]), 'vseed': st.integers(0, 10**6)}


@CHECK.family(st.fixed_dictionaries(dict(evo, ud_mode=st.booleans(), fixed=st.sampled_from([None, None, None, 0, 3, 10]))), 500, 6000,
    rule='random atmospheres (profile, outer scales, zenith angle, field, lead times) with winds and seeing that change in time, including screens that start '
         'over, against a model that moves the generated screens', double=0.4)
def frozen_flow(c):
    rng = rng_of(c['vseed'])
    nl, steps, dt = c['nl'], c['steps'], c['dt']
    h = np.sort(rng.choice([0, 500, 2000, 8000, 12000], nl, replace=False))
    Cn2 = rng.uniform(0.1, 1, nl); Cn2 = Cn2 / Cn2.sum()
    Cn2 = (Cn2 / Cn2.astype(DT).sum()).astype(DT)
    air = 1 / np.cos(np.radians(c['zen']))
    pix = np.ceil((c['n'] + h * air / c['pitch'] * c['fov'] * AS) / 2) * 2
    if abs(pix - (c['n'] + h * air / c['pitch'] * c['fov'] * AS)).min() < 1e-3 and c['fov'] and h.max() > 0:
        raise Skip
    side = None
    if c['fixed'] is not None:                    # the same size for every layer, in metres
        m = (c['n'] + 1) // 2 + c['fixed']
        side = (2 * m + 0.5) * c['pitch']
        pix = np.full(nl, 2. * m)
    if max(pix) > c['screen'] / 2:
        raise Skip
    ex = c['extra']
    if ex == 'list':
        ex = [float(x) for x in rng.choice([0, 0.005, 0.02], nl)]
    ex2 = [float(x) for x in rng.choice([0, 0.003, 0.03], nl)]
    p = SimulParams(pixel_pupil=c['n'], pixel_pitch=c['pitch'], zenithAngleInDeg=c['zen'])
    see, spd, dirs = sequences(c, rng, nl, steps)
    L0 = c['L0'] if c['L0'] is not None else list(c['L0s'][:nl])
    with Scratch() as d:
        kw = dict(simul_params=p, L0=L0, heights=[float(x) for x in h], Cn2=[float(x) for x in Cn2], data_dir=d, fov=c['fov'], pixel_phasescreens=c['screen'], seed=c['seed'], fov_in_m=side)
        if c['ud_mode']:
            o = AtmoEvolutionUpDown(extra_delta_time_down=ex, extra_delta_time_up=ex2, **kw)
            todo = [('layer_list_down', ex), ('layer_list_up', ex2)]
        else:
            o = AtmoEvolution(extra_delta_time=ex, **kw)
            todo = [('layer_list', ex)]
        scr = Screens(c, nl, pix, Cn2, d)
        for nm, _ in todo:
            check(len(o.outputs[nm]) == nl, f'{len(o.outputs[nm])} layers, expected {nl}')
            for i, l in enumerate(o.outputs[nm]):
                check(tuple(l.size) == (pix[i], pix[i]), f'{nm} {i}: size {l.size}, expected {pix[i]}')
                close(float(l.height), h[i], 1e-6, what='height'); close(l.pixel_pitch, c['pitch'], 0, what='pitch')
        rec = drive(o, {'seeing': vec_feed(see), 'wind_speed': vec_feed(spd), 'wind_direction': vec_feed(dirs)}, steps, dt=dt, t0=c['t0'], outs=[nm for nm, _ in todo])
    fresh = [any(x[k] is not None for x in (see, spd, dirs)) for k in range(steps)]
    see, spd, dirs = hold(see), hold(spd), hold(dirs)
    wrapped = False
    for nm, e in todo:
        e = np.array(e if isinstance(e, list) else [e] * nl)
        pos, last = np.zeros(nl, dtype=DT), 0.0
        ref = None
        for k in range(steps):
            t = c['t0'] + k * dt
            if fresh[k]:
                pos = (pos + (spd[k].astype(float) * ((t - last) / c['pitch']))).astype(DT)
                off = spd[k].astype(float) * e / c['pitch']
                end = pos + off + pix - scr.s[0].shape[1]
                if np.any(np.abs(end) < 1e-3):
                    raise Skip
                if np.any(end >= 0):
                    wrapped = True
                pos = np.where(end >= 0, 0, pos).astype(DT)
                if np.any(off + pix >= scr.s[0].shape[1] - 1):
                    raise Skip
                last = t
                s = float(see[k][0])
                scale = (c['pitch'] / r0_of(s, c['zen']))**(5 / 6) if s > 0 else 0
                ref = [scr.layer(i, int(pix[i]), float(pos[i]) + float(off[i]), float(dirs[k][i])) * scale for i in range(nl)]
            for i in range(nl):
                v, fr = rec[nm][k][i]
                check(fr == fresh[k], f'{nm} {i} step {k}: fresh={fr}, expected {fresh[k]}')
                close(v[1], ref[i], T * 3, atol=1e-4 if PREC == 1 else 1e-9, what=f'{nm} {i} step {k} (position {float(pos[i]):.4f})')
                same(v[0], np.ones_like(v[0]), 'amplitude')
    return ['wrapped'] if wrapped else ['moving']


@CHECK.family(st.fixed_dictionaries({
    'k': st.integers(1, 12), 'n': st.sampled_from([4, 8, 12]), 'dir': st.sampled_from([0, 90, 180, 270]), 'seed': st.integers(1, 10**5), 'steps': st.integers(2, 5),
    'kind': st.sampled_from(['finite', 'finite', 'finite', 'finite', 'infinite']), 'zen': st.sampled_from([0, 40])}), 60, 800,
    rule='with a wind of a whole number of pixels per step, every layer is the previous one displaced along the wind by that number of pixels', double=0.3)
def displacement(c):
    pitch, dt, n = 0.1, 0.01, c['n']
    k = c['k'] % n or 1
    p = SimulParams(pixel_pupil=n, pixel_pitch=pitch, zenithAngleInDeg=c['zen'])
    see, spd, dirs = [[0.8]], [[k * pitch / dt]], [[c['dir']]]
    f = lambda v: vec_feed(v + [v[0]] * (c['steps'] - 1))
    with Scratch() as d:
        o = AtmoEvolution(p, 20, [0.0], [1.0], d, pixel_phasescreens=256, seed=c['seed']) if c['kind'] == 'finite' else AtmoInfiniteEvolution(p, [20], [0.0], [1.0], seed=c['seed'])
        rec = drive(o, {'seeing': f(see), 'wind_speed': f(spd), 'wind_direction': f(dirs)}, c['steps'], dt=dt)['layer_list']
    ph = [r[0][0][1].astype(float) for r in rec]
    tol = 5e-4 if PREC == 1 else 1e-6
    moves = []
    for a, b in zip(ph[:-1], ph[1:]):
        found = []
        for axis in (0, 1):
            x, y = (a, b) if axis == 0 else (a.T, b.T)
            if np.max(np.abs(y[k:] - x[:-k])) <= tol * np.abs(a).max(): found.append((axis, 1))
            if np.max(np.abs(y[:-k] - x[k:])) <= tol * np.abs(a).max(): found.append((axis, -1))
        check(len(found) > 0, f'the layer is not displaced by {k} pixels along an axis (direction {c["dir"]})')
        moves.append(found[0])
    check(len(set(moves)) == 1, f'the direction of motion changes: {moves}')
    # opposite winds move in opposite ways, perpendicular ones along the other axis
    base = {'finite': {0: (1, -1), 90: (0, 1), 180: (1, 1), 270: (0, -1)}, 'infinite': {0: (1, -1), 90: (0, -1), 180: (1, 1), 270: (0, 1)}}[c['kind']]
    check(moves[0] == base[c['dir']], f'wind direction {c["dir"]}: motion {moves[0]}, expected {base[c["dir"]]}')
    return c['kind']


@CHECK.family(st.fixed_dictionaries({
    'reqs': st.lists(st.fixed_dictionaries({'seed': st.integers(1, 3), 'dim': st.sampled_from([32, 64]), 'pitch': st.sampled_from([0.05, 0.1, 0.0502, 0.0498, 0.1001]),
                                            'L0': st.sampled_from([20, 25, 25.0, 25.3, 24.6, 20.4, 5]), 'prec': st.integers(0, 1)}), min_size=2, max_size=6)}), 120, 2500,
    rule='screens requested in sequence from one calibration folder (similar seeds, sizes, pitches, outer scales): each equals the one computed from scratch')
def cached_screens(c):
    with Scratch() as d:
        for r in c['reqs']:
            got = phasescreens_manager(np.array([r['L0']]), r['dim'], r['pitch'], d, np, r['prec'], seed=np.array([r['seed']]))[0]
            want = calc_phasescreen(r['L0'], r['dim'], r['pitch'], np, r['prec'], seed=r['seed'])
            check(np.asarray(got).dtype.itemsize == want.dtype.itemsize, f'precision of the screen: {np.asarray(got).dtype}')
            close(np.asarray(got), want, 2e-5 if r['prec'] else 1e-10, what=f'screen for {r}')
    return 'hit' if len({json.dumps(r) for r in c['reqs']}) < len(c['reqs']) else 'miss'


@CHECK.family(st.fixed_dictionaries({'dim': st.sampled_from([128, 256]), 'pitch': st.sampled_from([0.05, 0.1, 0.3]), 'L0': st.sampled_from([3, 10, 30]),
    'seed': st.integers(1, 10**6)}), 24, 200,
    rule='power spectrum (von Karman, normalized to r0 = one pixel), isotropy, gaussianity, independence and reproducibility of groups of 12 screens', double=0.5)
def spectrum(c):
    N, D = 12, c['dim']
    scr = [np.array(calc_phasescreen(c['L0'], D, c['pitch'], np, PREC, seed=c['seed'] + i), dtype=float) for i in range(N)]
    same(calc_phasescreen(c['L0'], D, c['pitch'], np, PREC, seed=c['seed']).astype(float), scr[0], 'same seed')
    check(scr[0].shape == (D, D), f'shape {scr[0].shape}')
    f = np.fft.fftfreq(D, c['pitch'])
    fx, fy = np.meshgrid(f, f)
    fr = np.hypot(fx, fy)
    # PSD of a von Karman phase with r0 = pitch
    theory = 0.0229 * c['pitch']**(-5 / 3) * (fr**2 + 1 / c['L0']**2)**(-11 / 6)
    psd = np.mean([np.abs(np.fft.fft2(s))**2 for s in scr], axis=0) * (c['pitch'] / D)**2
    ratio = psd / theory
    df = 1 / (D * c['pitch'])
    good = (np.abs(fx) < 0.45 / c['pitch']) & (np.abs(fy) < 0.45 / c['pitch']) & (fr > 2.5 * df)
    if listed('C16-zero-row'):
        # known finding: no power at fy = 0, half of it at the next frequencies; anything else is reported
        z, o = good & (np.abs(fy) < 0.5 * df), good & (np.abs(np.abs(fy) / df - 1) < 0.5)
        for nm, b, w in (('0', z, (0, 1)), ('1', o, (0.5, 1))):
            v = ratio[b].mean()
            check(min(abs(v - x) for x in w) < 7 / np.sqrt(b.sum() * N / 2) + 0.02, f'spectrum at fy = {nm}: {v:.3f} times the theory')
        good &= np.abs(fy) > 1.5 * df
    for lo, hi in ((2.5, 6), (6, 14), (14, 30), (30, 55)):
        b = good & (fr >= lo * df) & (fr < hi * df)
        n = b.sum() * N / 2
        check(abs(ratio[b].mean() - 1) < 7 / np.sqrt(n) + 0.02, f'spectrum between {lo} and {hi} cycles: {ratio[b].mean():.3f} times the theory')
    for s, b in (('x', good & (np.abs(fx) > 2 * np.abs(fy))), ('y', good & (np.abs(fy) > 2 * np.abs(fx))), ('+', good & (fx * fy > 0)), ('-', good & (fx * fy < 0))):
        check(abs(ratio[b].mean() - 1) < 7 / np.sqrt(b.sum() * N / 2) + 0.02, f'spectrum along {s}: {ratio[b].mean():.3f} times the theory')
    F = [np.fft.fft2(s)[good] / np.sqrt(theory[good]) for s in scr]
    m = len(F[0]) / 2
    for i in range(0, N - 1):
        cc = abs(np.vdot(F[i], F[i + 1])) / np.linalg.norm(F[i]) / np.linalg.norm(F[i + 1])
        check(cc < 7 / np.sqrt(m), f'screens of seeds {c["seed"] + i} and {c["seed"] + i + 1} are correlated ({cc:.3f})')
    w = np.concatenate(F)
    w = w / np.sqrt(np.mean(np.abs(w)**2))
    k4 = np.mean(np.abs(w)**4)
    check(abs(k4 - 2) < 0.15, f'fourth moment of the spectrum {k4:.3f}, expected 2')


@CHECK.finding
def zero_row(c):
    s = np.array([calc_phasescreen(10, 128, 0.1, np, PREC, seed=i) for i in range(1, 9)], dtype=float)
    p = np.mean(np.abs(np.fft.fft2(s))**2, axis=0)
    check(p[0, 5:20].sum() > 0.3 * p[5:20, 0].sum(), 'no power at the frequencies with fy = 0')


inf_st = {'n': st.sampled_from([4, 8, 16]), 'pitch': st.sampled_from([0.1, 0.25]), 'zen': st.sampled_from([0, 45]), 'nl': st.integers(1, 2), 'seed': st.integers(1, 10**5),
          'L0': st.sampled_from([10, 25]), 'dir': st.sampled_from([0, 90, 180, 270]), 'v': st.sampled_from([3, 7.7, 10, 33]), 'extra': st.sampled_from([0, 0.004]),
          'cuts': st.lists(st.integers(1, 9), min_size=0, max_size=4), 'vseed': st.integers(0, 10**5)}


@CHECK.family(st.fixed_dictionaries(inf_st), 9, 250,
    rule='infinite screens: the layer at a given time depends only on how far the wind has blown, not on the steps taken; it scales with seeing, zenith angle and Cn2; '
         'it is reproducible from the seed and changes with it', double=0.3)
def infinite_screens(c):
    nl, n = c['nl'], c['n']
    rng = rng_of(c['vseed'])
    dt = 0.01
    Cn2 = np.array([1.0]) if nl == 1 else np.array([0.3, 0.7])
    hs = [0.0, 5000.0][:nl]
    p = SimulParams(pixel_pupil=n, pixel_pitch=c['pitch'], zenithAngleInDeg=c['zen'])
    steps = 10
    drop = {k for k in c['cuts'] if k < steps - 1}        # steps skipped in the second run

    def run(seed=c['seed'], Cn2=Cn2, see=0.8, skip=(), zen=c['zen']):
        q = SimulParams(pixel_pupil=n, pixel_pitch=c['pitch'], zenithAngleInDeg=zen)
        o = AtmoInfiniteEvolution(q, [c['L0']] * nl, hs, [float(x) for x in Cn2], seed=seed, extra_delta_time=c['extra'])
        def f(v):
            return vec_feed([None if k in skip else v for k in range(steps)])
        return o, drive(o, {'seeing': f([see]), 'wind_speed': f([c['v']] * nl), 'wind_direction': f([c['dir']] * nl)}, steps, dt=dt)['layer_list']
    o, a = run()
    _, b = run(skip=drop)
    last_a, last_b = a[-1], b[-1]
    for k in range(steps):
        if k in drop:
            continue
        for i in range(nl):
            close(b[k][i][0][1], a[k][i][0][1], 2e-3 if PREC == 1 else 1e-6, what=f'layer {i} step {k} reached with other steps')
    _, s = run(see=1.7)
    for i in range(nl):
        close(s[-1][i][0][1], a[-1][i][0][1].astype(float) * (1.7 / 0.8)**(5 / 6), 1e-4, what='scaling with the seeing')
    _, z = run(see=0.0)
    same(z[-1][0][0][1], np.zeros((n, n)), 'no turbulence without seeing')
    if nl == 2:
        _, e = run(Cn2=np.array([0.6, 0.4]))
        for i, (u, v) in enumerate(((0.6, 0.3), (0.4, 0.7))):
            close(e[-1][i][0][1], a[-1][i][0][1].astype(float) * np.sqrt(u / v), 1e-4, what='scaling with Cn2')
        x, y = a[0][0][0][1].ravel().astype(float), a[0][1][0][1].ravel().astype(float)
        check(np.abs(x[:n * n] - y[:n * n] * (np.abs(x).max() / np.abs(y).max())).max() > 1e-3, 'the two layers are the same')
    _, g = run(seed=c['seed'] + 7)
    check(np.abs(g[-1][0][0][1] - a[-1][0][0][1]).max() > 1e-2 * np.abs(a[-1][0][0][1]).max(), 'another seed gives the same turbulence')
    return True


@CHECK.family(st.fixed_dictionaries({'n': st.sampled_from([4, 8]), 'dir': st.sampled_from([0, 90, 180, 270]), 'v': st.sampled_from([3, 7.7, 10, 33]), 'down': st.sampled_from([0, 0.004, 0.03]),
                                     'up': st.sampled_from([0, 0.004, 0.03, 0.01]), 'per_layer': st.booleans(), 'steps': st.integers(2, 6), 'seed': st.integers(1, 10**5)}),
              6, 120, rule='infinite screens up and down: each list is that of AtmoInfiniteEvolution with its own extra time; counted when they differ')
def infinite_up_down(c):
    n, S = c['n'], c['steps']
    p = SimulParams(pixel_pupil=n, pixel_pitch=0.1)
    f = lambda v: vec_feed([v] * S)
    ex = {'down': [c['down'], c['up']] if c['per_layer'] else c['down'], 'up': [c['up'], c['down']] if c['per_layer'] else c['up']}

    def run(cls, **kw):
        o = cls(p, [25] * 2, [0., 2000.], [0.3, 0.7], seed=c['seed'], **kw)
        return drive(o, {'seeing': f([0.8]), 'wind_speed': f([c['v'], 0.6 * c['v']]), 'wind_direction': f([c['dir']] * 2)}, S, dt=0.01)
    both = run(AtmoInfiniteEvolutionUpDown, extra_delta_time_down=ex['down'], extra_delta_time_up=ex['up'])
    for d in ex:
        one = run(AtmoInfiniteEvolution, extra_delta_time=ex[d])['layer_list']
        for k in range(S):
            for i in range(2):
                close(both['layer_list_' + d][k][i][0][1], one[k][i][0][1], 2e-3 if PREC == 1 else 1e-6, what=f'layer {i} {d} at step {k}')
    return c['down'] != c['up']


@CHECK.family(st.fixed_dictionaries({'L0': st.sampled_from([5, 20]), 'seed': st.integers(1, 10**5), 'dir': st.sampled_from([0, 90, 180, 270])}), 4, 40,
    rule='infinite screens: the structure function keeps its initial (von Karman) shape and level after the screen has been blown through completely')
def infinite_statistics(c):
    n, pitch, reps = 16, 0.2, 12
    p = SimulParams(pixel_pupil=n, pixel_pitch=pitch)
    o = AtmoInfiniteEvolution(p, [c['L0']], [0.0], [1.0], seed=c['seed'])
    steps = 120
    f = lambda v: vec_feed([v] * steps)
    # 8 pixels every step: hundreds of new lines
    rec = drive(o, {'seeing': f([1.0]), 'wind_speed': f([8 * pitch / 0.01]), 'wind_direction': f([c['dir']])}, steps, dt=0.01)['layer_list']
    ph = np.array([r[0][0][1] for r in rec[40:]], dtype=float) * 2 * np.pi / 500
    r0 = r0_of(1.0, 0)
    from scipy.special import kv, gamma
    L0 = c['L0']
    for sep in (1, 3, 6):
        r = sep * pitch
        D = 0.17253 * (L0 / r0)**(5 / 3) * (1 - 2 * np.pi**(5 / 6) * (r / L0)**(5 / 6) / gamma(5 / 6) * kv(5 / 6, 2 * np.pi * r / L0))
        dx = np.mean((ph[:, :, sep:] - ph[:, :, :-sep])**2); dy = np.mean((ph[:, sep:, :] - ph[:, :-sep, :])**2)
        for nm, v in (('x', dx), ('y', dy)):
            check(0.5 < v / D < 1.7, f'structure function along {nm} at {r:.1f} m is {v / D:.2f} times the theory')


@CHECK.family(st.fixed_dictionaries({
    'n': st.integers(4, 16), 'screen': st.sampled_from([32, 64]), 'pitch': st.sampled_from([0.05, 0.1]), 'wl': st.sampled_from([500, 1000, 2200]), 'L0': st.sampled_from([5, 25]),
    'zen': st.sampled_from([0, 35]), 'interval': st.integers(1, 3), 'steps': st.integers(1, 30), 'srcs': st.integers(0, 2), 'seed': st.integers(1, 10**4),
    'mask': st.booleans(), 'vseed': st.integers(0, 1000)}), 80, 1500,
    rule='uncorrelated screens: one tile after the other for the declared number of steps, then those of the next seed, scaled with seeing and wavelength', double=0.4)
def random_phase(c):
    rng = rng_of(c['vseed'])
    n, steps = c['n'], c['steps']
    p = SimulParams(pixel_pupil=n, pixel_pitch=c['pitch'], zenithAngleInDeg=c['zen'])
    src = {f's{i}': Source([1.0 * i, 0], 3 + i, 750) for i in range(c['srcs'])}
    A = (rng.random((n, n)) > 0.3).astype(DT)
    stop = Pupilstop(p, input_mask=A) if c['mask'] else Pupilstop(p)
    see = [np.float32([rng.choice([0.5, 1.0, 1.4])]) for _ in range(steps)]
    with Scratch() as d:
        o = AtmoRandomPhase(p, L0=c['L0'], data_dir=d, source_dict=src, wavelengthInNm=c['wl'], pixel_phasescreens=c['screen'], seed=c['seed'], update_interval=c['interval'])
        names = [f'out_{s}_{k}' for s in src for k in ('layer', 'ef')] or ['out_layer', 'out_ef']
        rec = drive(o, {'seeing': vec_feed(see), 'pupilstop': (stop, lambda k, o: False)}, steps, outs=names)
    m = c['screen'] // n
    tiles = []
    s = 0
    while len(tiles) < steps:
        scr = np.array(calc_phasescreen(c['L0'], c['screen'], c['pitch'], np, PREC, seed=c['seed'] + s), dtype=float)
        tiles += [scr[i * n:(i + 1) * n, j * n:(j + 1) * n] for i in range(m) for j in range(m)]
        s += 1
    for k in range(steps):
        r0w = r0_of(float(see[k][0]), c['zen']) * (c['wl'] / 500)**1.2
        want = tiles[k // c['interval']] * c['wl'] / (2 * np.pi) * (c['pitch'] / r0w)**(5 / 6)
        for nm in names:
            v, fresh = rec[nm][k]
            check(fresh, f'{nm} not refreshed at step {k}')
            close(v[1], want, 1e-4 if PREC == 1 else 1e-9, what=f'{nm} step {k}: phase')
            same(v[0], stop.A, f'{nm} step {k}: amplitude')
    for nm, s in src.items():
        close(float(o.outputs[f'out_{nm}_ef'].S0), s.phot_density(), 1e-6, what='flux')


@CHECK.family(st.fixed_dictionaries({
    'n': st.integers(6, 14), 'fov': st.sampled_from([10, 40.0, 90]), 'zen': st.sampled_from([0, 50]), 'pitch': st.sampled_from([0.1, 0.25]),
    'pup': st.sampled_from([[0, 0], [0, 0], [0.5, 0], [0, 1.5], [1, 1], [2.0, 1.0], [-1.5, 0], [-3.0, -4.0], [0, 6.0]]), 'phi': st.sampled_from([0, 90, 180, 270, 45, 200]), 'r': st.sampled_from([0, 0.5, 0.99]),
    'H': st.sampled_from([None, 90000]), 'inf': st.booleans(), 'seed': st.integers(1, 100)}), 60, 1000,
    rule='the layers are large enough for every source in the declared field of view, seen from the declared pupil position')
def large_enough(c):
    p = SimulParams(pixel_pupil=c['n'], pixel_pitch=c['pitch'], zenithAngleInDeg=c['zen'])
    hs = [0.0, 2000.0, 9000.0]
    kw = dict(simul_params=p, heights=hs, Cn2=[0.5, 0.25, 0.25], fov=c['fov'], pupil_position=c['pup'], seed=c['seed'])
    with Scratch() as d:
        if c['inf']:
            import specula.processing_objects.atmo_infinite_evolution as m
            keep = m.InfinitePhaseScreen
            m.InfinitePhaseScreen = lambda *a, **k: None        # only the geometry is needed
            try:
                o = AtmoInfiniteEvolution(L0=[20] * 3, **kw)
            finally:
                m.InfinitePhaseScreen = keep
        else:
            o = AtmoEvolution(L0=20, data_dir=d, pixel_phasescreens=256, **kw)
    src = Source([c['fov'] / 2 * c['r'], c['phi']], 5, 750, height=float('inf') if c['H'] is None else c['H'])
    pup = c['pup'] if any(c['pup']) else None
    prop = AtmoPropagation(p, {'s': src}, pupil_position=pup)
    lays = o.outputs['layer_list']
    common = Pupilstop(p)
    rec = drive(prop, {'atmo_layer_list': [(l, lambda k, o: True) for l in lays], 'common_layer_list': [(common, lambda k, o: False)]}, 1, outs=['out_s_ef'])
    check(np.isfinite(rec['out_s_ef'][0][0]).all(), 'not finite')
    return 'offset' if pup else 'centred'


@CHECK.family(st.fixed_dictionaries({
    'n': st.sampled_from([4, 8, 10]), 'nt': st.integers(2, 6), 'ratio': st.sampled_from([1, 1, 2]), 'axis': st.sampled_from([0, -1]), 'scale': st.sampled_from([1.0, -2.5, 500.0]),
    'dt': st.sampled_from([0.001, 0.002]), 'tcube': st.sampled_from([0.001, 0.003, 0.004]), 'srcs': st.integers(0, 2), 'seed': st.integers(0, 10**6)}), 80, 1500,
    rule='recorded screens: linear interpolation between the recorded times, scaled; a run longer than the record is refused', double=0.4)
def cube(c):
    rng = rng_of(c['seed'])
    n, nt = c['n'], c['nt']
    p = SimulParams(pixel_pupil=n, pixel_pitch=0.1)
    src = {f's{i}': Source([1.0 * i, 0], 3 + i, 750) for i in range(c['srcs'])}
    times = np.arange(nt) * c['tcube']
    data = rng.normal(size=(nt, n, n)).astype(DT)
    arr = data if c['axis'] == 0 else np.moveaxis(data, 0, -1)
    o = PhaseScreenCube(p, SpatioTempArray(arr, times, time_axis=c['axis']), 0.1, source_dict=src, scale_factor=c['scale'])
    total = times[-1]
    steps = int(np.floor(total / c['dt'] + 1e-9)) + 1
    A = (rng.random((n, n)) > 0.3).astype(DT)
    stop = Pupilstop(p, input_mask=A)
    names = [f'out_{s}_{k}' for s in src for k in ('layer', 'ef')] or ['out_layer', 'out_ef']
    # the last step may fall a rounding error after the end of the record
    steps = max(1, steps - 1)
    rec = drive(o, {'pupilstop': (stop, lambda k, o: k == 0)}, steps, dt=c['dt'], outs=names)
    for k in range(steps):
        t = k * c['dt']
        j = min(int(np.floor(t / c['tcube'] + 1e-9)), nt - 2)
        f = t / c['tcube'] - j
        want = c['scale'] * ((1 - f) * data[j].astype(float) + f * data[j + 1].astype(float))
        for nm in names:
            v, fresh = rec[nm][k]
            check(fresh, f'{nm} not refreshed')
            close(v[1], want, 1e-5 if PREC == 1 else 1e-9, what=f'{nm} step {k}: phase')
            same(v[0], A, f'{nm}: amplitude')
