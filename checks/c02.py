"""C02 - simulated time is exact; integrations cover exactly their windows."""
from vlib.core import *
specula_init()
from fractions import Fraction
from decimal import Decimal
from specula.base_time_obj import BaseTimeObj
from specula.base_value import BaseValue
from specula.base_processing_obj import BaseProcessingObj
from specula.loop_control import LoopControl
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.intensity import Intensity
from specula.processing_objects.windowed_integration import WindowedIntegration
from specula.processing_objects.ccd import CCD

CHECK = Check('C02', 'time', scale=5, assumptions=['times in seconds are given as the double nearest to a decimal number of ns'])

# times as users write them: a decimal mantissa and an exponent, at least one nanosecond
decimals = st.tuples(st.integers(1, 99999), st.integers(-9, -1)).map(list)


def ns_of(d):
    return int(Fraction(d[0]) * Fraction(10) ** (9 + d[1]))


def sec_of(d):
    return float(Decimal(d[0]).scaleb(d[1]))     # exactly what YAML gives for the literal


@CHECK.family(st.lists(decimals, min_size=1, max_size=30), 800, 20000,
              rule='lists of decimal times (mantissa 1..99999, exponent -9..-1); always non-trivial')
def nanosecond_grid(case):
    o = BaseTimeObj(target_device_idx=-1)
    for d in case:
        n = ns_of(d)
        got = o.seconds_to_t(sec_of(d))
        check(got == n and isinstance(got, int), f'{sec_of(d)} s is {n} ns, the clock has {got!r}')
        back = o.t_to_seconds(n)
        check(abs(back - sec_of(d)) <= 1e-15 * 4 + 4e-16 * abs(back), f'{n} ns converted back to {back!r}')
        check(o.seconds_to_t(back) == n, f'{n} ns does not survive the round trip')


class Tick(BaseProcessingObj):
    def __init__(self):
        super().__init__()
        self.times = []
        self.secs = []

    def check_input_names(self): pass
    def check_output_names(self): pass

    def trigger_code(self):
        self.times.append(self.current_time)
        self.secs.append(self.current_time_seconds)


@CHECK.family(st.fixed_dictionaries({'dt': decimals, 'steps': st.integers(1, 60), 'extra': st.integers(0, 9),
                                     't0': st.one_of(st.just([0, -9]), decimals)}), 400, 8000,
              rule='loops with decimal step, a total of k whole steps plus 0..9 tenths of a step, and an optional t0; '
                   'non-trivial = more than one step')
def loop_steps(case):
    dt_ns = ns_of(case['dt'])
    total = dt_ns * case['steps'] + dt_ns * case['extra'] // 10
    t0 = ns_of(case['t0'])
    loop = LoopControl()
    tick = Tick()
    loop.add(tick, 0)
    loop.run(run_time=total / 1e9, dt=sec_of(case['dt']), t0=t0 / 1e9)
    n = -(-total // dt_ns)
    want = [t0 + k * dt_ns for k in range(n)]
    check(tick.times == want, f'steps at {tick.times[:5]}...({len(tick.times)}), expected {want[:5]}...({n})')
    close(tick.secs, np.array(want) / 1e9, rtol=1e-14, what='time in seconds')
    return case['steps'] > 1


class Feeder(BaseProcessingObj):
    """Emits one drawn sample per step (or none)."""
    def __init__(self, kind, samples, skip, shape):
        super().__init__()
        self.samples, self.skip, self.kind = samples, skip, kind
        self.o = Intensity(shape[1], shape[0]) if kind == 'ccd' else BaseValue(value=np.zeros(shape))
        self.outputs['out'] = self.o
        self.k = 0

    def check_input_names(self): pass
    def check_output_names(self): pass

    def trigger_code(self):
        if not self.skip[self.k]:
            self.o.set_value(self.samples[self.k])
            self.o.generation_time = self.current_time
        self.k += 1


@st.composite
def integrations(draw):
    n_win = draw(st.integers(1, 6))
    steps = draw(st.integers(1, 30))
    return {'kind': draw(st.sampled_from(['win', 'win_dt', 'ccd'])),
            'dt': draw(decimals.filter(lambda d: ns_of(d) <= 10 ** 10)), 'n': n_win, 'steps': steps,
            'start': draw(st.integers(0, 8)), 'seed': draw(st.integers(0, 2 ** 31)),
            'elems': draw(st.integers(1, 4)), 'precision': draw(st.sampled_from([0, 1])),
            'bandw': draw(st.sampled_from([1, 1, 100, 300.0]))}


@CHECK.family(integrations(), 400, 8000,
              rule='windowed integrators and detectors with integration time n steps, start time s steps, decimal step, '
                   'random samples per step; every output of every step compared with the window means/sums; '
                   'non-trivial = at least one complete window of more than one step')
def windows(case):
    dt = sec_of(case['dt'])
    dt_ns = ns_of(case['dt'])
    n, steps, s = case['n'], case['steps'], case['start']
    prec = case['precision']
    rng = rng_of(case['seed'])
    sp = SimulParams(pixel_pupil=8, pixel_pitch=0.1, time_step=dt)
    T, S = dt_ns * n / 1e9, dt_ns * s / 1e9
    if case['kind'] == 'ccd':
        shape = (case['elems'], case['elems'] + 1)
        x = rng.uniform(0, 1e4, (steps,) + shape)
        obj = CCD(sp, size=[shape[1], shape[0]], dt=T, bandw=case['bandw'], start_time=S, precision=prec)
        feeder = Feeder('ccd', x, [0] * steps, shape)
        obj.inputs['in_i'].set(feeder.o)
    else:
        shape = (case['elems'],)
        x = rng.uniform(-1e3, 1e3, (steps,) + shape)
        obj = WindowedIntegration(sp, n_elem=case['elems'], dt=T, start_time=S,
                                  update_time_on_dt=(case['kind'] == 'win_dt'), precision=prec)
        feeder = Feeder('win', x, [0] * steps, shape)
        obj.inputs['input'].set(feeder.o)
    seen = []

    class Spy(BaseProcessingObj):
        def check_input_names(self): pass
        def check_output_names(self): pass

        def trigger_code(self):
            if case['kind'] == 'ccd':
                o, i = obj.outputs['out_pixels'], obj.outputs['integrated_i']
                seen.append((np.array(o.pixels), o.generation_time, np.array(i.i), i.generation_time))
            else:
                o = obj.outputs['output']
                seen.append((np.array(o.value), o.generation_time))
    loop = LoopControl()
    for k, o in enumerate((feeder, obj, Spy())):
        loop.add(o, k)
    loop.run(run_time=dt_ns * steps / 1e9, dt=dt)
    check(len(seen) == steps, f'{len(seen)} steps run, {steps} expected')
    rt = 2e-5 if prec == 1 else 1e-6      # Pixels follow the global (single) precision
    last = None
    for k in range(steps):
        end = k >= s and (k - s + 1) % n == 0
        if case['kind'] == 'ccd':
            px, gt, ii, gti = seen[k]
            if end:
                want = x[k - n + 1:k + 1].sum(0) * dt * case['bandw']
                last = (want, k * dt_ns)
            if last is None:
                check(gt < 0 and gti < 0, f'step {k}: a frame was delivered before the first window ended')
            else:
                check(gt == last[1] and gti == last[1], f'step {k}: frame time {gt}/{gti}, expected {last[1]}')
                close(px, last[0], rtol=rt, what=f'step {k}: detector frame')
                close(ii, last[0], rtol=rt, what=f'step {k}: integrated intensity')
        else:
            v, gt = seen[k]
            if k < s:
                same(v, np.zeros(shape), f'step {k} (before the start time): output')
                continue
            if end:
                want = x[k - n + 1:k + 1].mean(0)
                close(v, want, rtol=rt, atol=4e-4, what=f'step {k}: window mean')
            else:
                same(v, np.zeros(shape), f'step {k} (inside a window): output')
            if case['kind'] == 'win_dt':
                if end:
                    last = k * dt_ns
                check((gt == last) if last is not None else gt < 0, f'step {k}: output time {gt}, expected {last}')
            else:
                check(gt == k * dt_ns, f'step {k}: output time {gt}, expected {k * dt_ns}')
    return n > 1 and steps >= s + n


@CHECK.family(st.fixed_dictionaries({'dt': decimals.filter(lambda d: ns_of(d) > 1 and ns_of(d) < 10 ** 12),
                                     'n': st.integers(0, 5), 'off': st.integers(0, 10 ** 6),
                                     'kind': st.sampled_from(['win', 'ccd'])}), 300, 4000,
              rule='integration times that are and are not a multiple of the step: refused exactly when they are not '
                   '(or are not positive)')
def multiples(case):
    dt_ns = ns_of(case['dt'])
    off = case['off'] % dt_ns
    T_ns = case['n'] * dt_ns + off
    sp = SimulParams(pixel_pupil=8, pixel_pitch=0.1, time_step=sec_of(case['dt']))

    def build():
        if case['kind'] == 'ccd':
            return CCD(sp, size=[2, 2], dt=T_ns / 1e9, bandw=1)
        return WindowedIntegration(sp, n_elem=2, dt=T_ns / 1e9)
    if T_ns == 0 or off:
        raises(build, f'integration time {T_ns} ns with step {dt_ns} ns', ValueError)
        return 'refused'
    build()
    return 'accepted'
