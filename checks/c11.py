"""C11 - vector operations between components compute exactly what they declare."""
from vlib.drive import *
from specula.lib.demodulate_signal import demodulate_signal
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.recmat import Recmat
from specula.processing_objects.base_operation import BaseOperation
from specula.processing_objects.base_slicer import BaseSlicer
from specula.processing_objects.base_inserter import BaseInserter
from specula.processing_objects.linear_combination import LinearCombination
from specula.processing_objects.mvm import MVM
from specula.processing_objects.dm import DM
from specula.data_objects.ifunc import IFunc
from specula.data_objects.m2c import M2C
from specula.processing_objects.mirror_commands_combinator import MirrorCommandsCombinator
from specula.processing_objects.data_buffer import DataBuffer
from specula.processing_objects.demodulator import Demodulator
from specula.processing_objects.optical_gain_estimator import OpticalGainEstimator

CHECK = Check('C11', 'vector operations', scale=2)
R = 3e-6 if PREC == 1 else 1e-12
MASK = st.integers(1, 2**12 - 1) | st.just(2**12 - 1)


def sp(dt=0.001):
    return SimulParams(pixel_pupil=8, pixel_pitch=0.1, time_step=dt)


def series(rng, n, steps, mask, lo=-3, hi=3):
    """(fed values, value in force at each step, freshness); zeros before the first."""
    fed, eff, last = [], [], np.zeros(n)
    for k in range(steps):
        v = None
        if (mask >> k) & 1:
            v = rng.uniform(lo, hi, n).astype(DT).astype(float)
            last = v
        fed.append(v)
        eff.append(last)
    return fed, eff, [v is not None for v in fed]


def feed(fed, n, inplace=False):
    o = BaseValue(value=np.zeros(n, dtype=DT))

    def script(k, o):
        if fed[k] is None:
            return False
        if inplace:
            o.value[:] = fed[k]
        else:
            o.value = np.array(fed[k], dtype=DT)
        return True
    return o, script


def expect(rec, want, fresh, what, tol=R, scale=None):
    for k, w in enumerate(want):
        v, f = rec[k]
        check(f == fresh[k], f'{what}: output {"" if f else "not "}refreshed at step {k}')
        if fresh[k]:
            close(v, w, tol, atol=1e-30, what=f'{what} at step {k}', scale=scale)


OPS = ['constant_mul', 'constant_div', 'constant_sum', 'constant_sub', 'constant_max', 'constant_min', 'mul', 'div', 'sum', 'sub', 'concat']


@CHECK.family(st.fixed_dictionaries({'op': st.sampled_from(OPS), 'n': st.integers(1, 6), 'm': st.integers(1, 6), 'how': st.sampled_from(['same', 'shorter', 'remap']),
                                     'vec': st.booleans(), 'aslist': st.booleans(), 'seed': st.integers(0, 2**31), 'steps': st.integers(1, 8), 'm1': MASK, 'm2': MASK,
                                     'inplace': st.booleans(), 'nosecond': st.booleans()}), 400, 9000,
              rule='every operation with scalar or vector constants, or a second input that is as long, shorter or remapped, with missing updates of either input', double=0.4)
def operations(c):
    rng = rng_of(c['seed'])
    n, op, steps = c['n'], c['op'], c['steps']
    f1, e1, r1 = series(rng, n, steps, c['m1'])
    kw, feeds, fresh = {}, {}, list(r1)
    feeds['in_value1'] = feed(f1, n, c['inplace'])
    if op.startswith('constant'):
        cv = rng.uniform(0.3, 3, n) * (rng.choice([-1, 1], n))
        vec = c['vec'] and op not in ('constant_max', 'constant_min')
        cst = cv if vec else np.full(n, cv[0])
        kw[op] = (list(cv) if c['aslist'] else cv) if vec else float(cv[0])
        fn = {'mul': lambda x: x * cst, 'div': lambda x: x / cst, 'sum': lambda x: x + cst, 'sub': lambda x: x - cst,
              'max': lambda x: np.maximum(x, cst), 'min': lambda x: np.minimum(x, cst)}[op[9:]]
        want = [fn(x) for x in e1]
    else:
        m = c['m'] if op == 'concat' else n if c['how'] == 'same' else min(c['m'], n)
        f2, e2, r2 = series(rng, m, steps, c['m2'] | 1, 0.3, 3)
        kw[op] = True
        if c['nosecond']:
            o = BaseOperation(**kw)
            raises(lambda: drive(o, feeds, steps), f'{op} without its second input', ValueError)
            return 'refused'
        feeds['in_value2'] = feed(f2, m, c['inplace'])
        fresh = [a or b for a, b in zip(r1, r2)]
        fill = 1.0 if op == 'div' else 0.0
        idx = None
        if op != 'concat' and c['how'] == 'shorter':
            kw['value2_is_shorter'] = True
            idx = np.arange(m)
        elif op != 'concat' and c['how'] == 'remap':
            idx = rng.permutation(n)[:m]
            kw['value2_remap'] = [int(i) for i in idx]

        def second(y):
            if idx is None:
                return y
            z = np.full(n, fill)
            z[idx] = y
            return z
        fn = {'mul': lambda x, y: x * second(y), 'div': lambda x, y: x / second(y), 'sum': lambda x, y: x + second(y),
              'sub': lambda x, y: x - second(y), 'concat': lambda x, y: np.concatenate([x, y])}[op]
        want = [fn(x, y) for x, y in zip(e1, e2)]
    obj = BaseOperation(**kw)
    keep = [None if v is None else v.copy() for v in f1]
    rec = drive(obj, feeds, steps)['out_value']
    expect(rec, want, fresh, op)
    for a, b in zip(keep, f1):
        check(a is None or np.array_equal(a, b), 'the input was modified')
    if not c['inplace'] and any(r1):
        same(feeds['in_value1'][0].value, np.array(e1[-1], dtype=DT), 'first input after the run')
    return any(fresh) and [op]


@CHECK.family(st.fixed_dictionaries({'n': st.integers(1, 8), 'seed': st.integers(0, 2**31), 'how': st.sampled_from(['int', 'list', 'slice', 'all']), 'a': st.integers(-8, 8), 'b': st.integers(-8, 8),
                                     's': st.sampled_from([1, 1, 2, 3]), 'none': st.booleans(), 'steps': st.integers(1, 6), 'mask': MASK, 'inplace': st.booleans()}), 200, 4000,
              rule='slices by index, list and slice arguments; the output keeps its value when the input array changes afterwards', double=0.3)
def slices(c):
    rng = rng_of(c['seed'])
    n = c['n']
    fed, eff, fresh = series(rng, n, c['steps'], c['mask'])
    if c['how'] == 'int':
        i = c['a'] % n if c['a'] >= 0 else -(1 + (-c['a']) % n)
        obj, fn = BaseSlicer(indices=i), lambda x: x[[i]]
    elif c['how'] == 'list':
        idx = [int(i) for i in rng.integers(0, n, size=1 + abs(c['a']) % 5)]
        obj, fn = BaseSlicer(indices=idx), lambda x: x[idx]
    elif c['how'] == 'slice':
        lo, hi = sorted([c['a'] % (n + 1), c['b'] % (n + 1)])
        args = [None, hi] if c['none'] else [lo, hi, c['s']]
        obj, fn = BaseSlicer(slice_args=args), lambda x: x[slice(*args)]
        if not c['none']:
            check(len(obj.outputs['out_value'].value) == len(np.arange(n)[slice(*args)]), 'size of the output before the run')
    else:
        obj, fn = BaseSlicer(), lambda x: x
    f = feed(fed, n, c['inplace'])
    rec = drive(obj, {'in_value': f}, c['steps'])['out_value']
    expect(rec, [fn(x) for x in eff], fresh, 'slice', tol=0)
    if any(fresh):
        before = np.array(obj.outputs['out_value'].value)
        f[0].value[:] = 77.0
        same(obj.outputs['out_value'].value, before, 'output after its input array was changed by its owner')
    raises(lambda: BaseSlicer(indices=[0], slice_args=[0, 1]), 'indices and slice together', ValueError)
    return any(fresh) and c['how']


@CHECK.family(st.fixed_dictionaries({'n': st.integers(2, 10), 'm': st.integers(1, 6), 'seed': st.integers(0, 2**31), 'how': st.sampled_from(['indices', 'slices']), 'pairs': st.integers(1, 3),
                                     'steps': st.integers(1, 6), 'mask': MASK}), 150, 3000,
              rule='insertions of one or more groups of elements in a longer vector', double=0.3)
def insertions(c):
    rng = rng_of(c['seed'])
    n, m = c['n'], c['m']
    fed, eff, fresh = series(rng, m, c['steps'], c['mask'])
    pairs = []
    for _ in range(c['pairs']):
        if c['how'] == 'indices':
            k = int(rng.integers(1, min(m, n) + 1))
            pairs.append(([int(i) for i in rng.permutation(m)[:k]], [int(i) for i in rng.permutation(n)[:k]]))
        else:
            k = int(rng.integers(1, min(m, n) + 1))
            a, b = int(rng.integers(0, m - k + 1)), int(rng.integers(0, n - k + 1))
            pairs.append(([a, a + k], [b, b + k]))
    arg = [list(p) for p in pairs] if c['pairs'] > 1 else list(pairs[0])
    obj = BaseInserter(n, indices=arg) if c['how'] == 'indices' else BaseInserter(n, slice_args=arg)
    out, want = np.zeros(n), []
    for x, f in zip(eff, fresh):
        if f:
            for s, d in pairs:
                if c['how'] == 'indices':
                    out[d] = x[s]
                else:
                    out[slice(*d)] = x[slice(*s)]
        want.append(out.copy())
    rec = drive(obj, {'in_value': feed(fed, m)}, c['steps'])['out_value']
    expect(rec, want, fresh, 'insertion', tol=0)
    return any(fresh)


def dm_pair(rng, start, m2c):
    """Ground and high DM, and the projection of the focus and astigmatisms of the high one on those of the ground one, in the pupil."""
    def dm(n, first):
        m = np.ones((n, n), dtype=DT)
        if rng.random() < 0.5:
            y, x = np.mgrid[:n, :n] - (n - 1) / 2
            m[x * x + y * y > n * n / 3] = 0
        f = rng.normal(size=(6, int(m.sum()))).astype(DT)
        b = rng.normal(size=(6, 6)).astype(DT) if m2c else None
        d = DM(sp(), height=0, ifunc=IFunc(ifunc=f.copy(), mask=m.copy()), m2c=None if b is None else M2C(b.copy()))
        full = np.zeros((6, n, n))
        full[:, m > 0] = f if b is None else b.astype(float).T @ f
        o = (n - 8) // 2
        return d, m[o:o + 8, o:o + 8] > 0, full[first:first + 3, o:o + 8, o:o + 8]
    d1, pup, a = dm(int(rng.choice([8, 10])), 2)
    d3, _, b = dm(int(rng.choice([8, 12])), 2 if start[1] == 0 else 0)
    a, b = (x[:, pup] - x[:, pup].mean(axis=1, keepdims=True) for x in (a, b))
    coef = np.zeros(3) if start[1] > 2 else np.diag(np.linalg.lstsq(a.T, b.T, rcond=None)[0])
    return dict(dm1=d1, dm3=d3, start_modes=start), coef


@CHECK.family(st.fixed_dictionaries({'n': st.integers(9, 14), 'focus': st.booleans(), 'lift': st.booleans(), 'ps': st.booleans(),
                                     'dms': st.sampled_from([None, [0, 0], [0, 2], [0, 0], [0, 2], [0, 3]]), 'm2c': st.booleans(),
                                     'seed': st.integers(0, 2**31), 'steps': st.integers(1, 5), 'masks': st.tuples(MASK, MASK, MASK, MASK)}), 150, 3000,
              rule='combinations of two to four command vectors, with and without focus, LIFT and plate scale', double=0.3)
def combinations(c):
    rng = rng_of(c['seed'])
    n, steps = c['n'], c['steps']
    sizes = [n] + ([1] if c['focus'] else []) + ([int(rng.integers(1, 4))] if c['lift'] else []) + [5]
    S = [series(rng, s, steps, m | 1) for s, m in zip(sizes, c['masks'])]
    ps = int(rng.integers(2, n - 2)) if c['ps'] else None
    dms, coef = {}, np.zeros(3)
    if c['dms'] is not None:
        dms, coef = dm_pair(rng, c['dms'], c['m2c'])
    obj = LinearCombination(sp(), no_focus=not c['focus'], no_lift=not c['lift'], plate_scale_idx=ps, **dms)
    rec = drive(obj, {'in_vectors_list': [feed(s[0], z) for s, z in zip(S, sizes)]}, steps)['out_vector']
    want = []
    for k in range(steps):
        v = [s[1][k] for s in S]
        lgs, ngs = v[0].copy(), v[-1]
        lgs[:2] = ngs[:2]
        if c['focus']:
            lgs[2] = v[1][0]
        if ps is not None:
            lgs[2:5] -= ngs[2:] * coef
            lgs[ps:ps + 3] = ngs[2:]
        if c['lift']:
            lgs = np.concatenate([lgs, v[-2]])
        want.append(lgs)
    expect(rec, want, [any(s[2][k] for s in S) for k in range(steps)], 'combination')
    bad = LinearCombination(sp(), no_focus=c['focus'], no_lift=not c['lift'], plate_scale_idx=ps)
    raises(lambda: drive(bad, {'in_vectors_list': [feed(s[0], z) for s, z in zip(S, sizes)]}, steps), 'wrong number of vectors', ValueError)


@CHECK.family(st.fixed_dictionaries({'r': st.integers(1, 6), 'n': st.integers(1, 6), 'seed': st.integers(0, 2**31), 'steps': st.integers(1, 5), 'mask': MASK, 'lo': st.tuples(st.integers(1, 3), st.just(0), st.integers(1, 3)),
                                     'ho': st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4)), 'p': st.integers(0, 3), 'masks': st.tuples(MASK, MASK, MASK, MASK)}), 150, 3000,
              rule='matrix-vector products, and commands for three mirrors assembled from their parts, against dense algebra', double=0.3)
def products(c):
    rng = rng_of(c['seed'])
    A = rng.normal(size=(c['r'], c['n'])).astype(DT)
    fed, eff, fresh = series(rng, c['n'], c['steps'], c['mask'])
    rec = drive(MVM(Recmat(A)), {'in_vector': feed(fed, c['n'])}, c['steps'])['out_vector']
    expect(rec, [A.astype(float) @ x for x in eff], fresh, 'product', tol=1e-5 if PREC == 1 else 1e-12, scale=10)
    raises(lambda: drive(MVM(Recmat(A)), {'in_vector': feed([np.zeros(c['n'] + 1)] * c['steps'], c['n'] + 1)}, c['steps']), 'vector of the wrong size', ValueError)
    # three mirrors: low orders and focus on the first, low orders on the third
    (l1, l2, l3), (h1, h2, h3), p = c['lo'], c['ho'], c['p']
    if h1 + 1 < l3:
        h1 = l3
    dims = [l1 + 1 + h1, l2 + h2, l3 + h3]
    k = rng.normal(size=l3)
    B = rng.normal(size=(dims[0] + 1, max(1, p))).astype(DT)
    S = [series(rng, z, c['steps'], m | 1) for z, m in zip((h1 + h2 + h3, l1 + l2 + l3, 1, max(1, p)), c['masks'])]
    obj = MirrorCommandsCombinator(list(k), Recmat(B), dims_LO=[l1, l2, l3], dims_P=p, dims_F=1, out_dims=dims)
    rec = drive(obj, {nm: feed(s[0], z) for nm, s, z in zip(('in_commandsHO', 'in_commandsLO', 'in_commandsF', 'in_commandsP'), S, (h1 + h2 + h3, l1 + l2 + l3, 1, max(1, p)))}, c['steps'])
    w = [[], [], []]
    for i in range(c['steps']):
        ho, lo, f, pp = [s[1][i] for s in S]
        y = np.concatenate([lo[:l1], f, ho[:h1]])
        y[l1:l1 + l3] += k * lo[l1 + l2:]
        if p:
            y = y + B.astype(float)[:dims[0]] @ pp
        w[0].append(y), w[1].append(ho[h1:h1 + h2]), w[2].append(np.concatenate([lo[l1 + l2:], ho[h1 + h2:]]))
    fr = [any(s[2][i] for s in S) for i in range(c['steps'])]
    for j in range(3):
        expect(rec[f'out_result_commands{j + 1}'], w[j], fr, f'commands of mirror {j + 1}', tol=1e-5 if PREC == 1 else 1e-12, scale=10)


@CHECK.family(st.fixed_dictionaries({'size': st.integers(1, 6), 'k': st.integers(1, 3), 'seed': st.integers(0, 2**31), 'steps': st.integers(1, 20), 'masks': st.tuples(*[st.integers(0, 2**20 - 1)] * 3),
                                     'inplace': st.booleans()}), 150, 4000,
              rule='buffers of several inputs at different rates: every sample comes out exactly once, in order, in blocks', double=0.3)
def buffers(c):
    rng = rng_of(c['seed'])
    sizes = [int(rng.integers(1, 4)) for _ in range(c['k'])]
    S = [series(rng, z, c['steps'], c['masks'][i]) for i, z in enumerate(sizes)]
    b = DataBuffer(buffer_size=c['size'])
    feeds = {}
    for i, z in enumerate(sizes):
        b.inputs[f'x{i}'] = InputValue(type=BaseValue)
        feeds[f'x{i}'] = feed(S[i][0], z, c['inplace'])
    b.setOutputs()
    check(set(b.outputs) == {f'x{i}_buffered' for i in range(c['k'])}, 'outputs of the buffer')
    rec = drive(b, feeds, c['steps'])
    active = [j for j in range(c['steps']) if any(s[2][j] for s in S)]
    for i in range(c['k']):
        pend, want = [], {}
        for cnt, j in enumerate(active):
            if S[i][2][j]:
                pend.append(S[i][1][j])
            if (cnt + 1) % c['size'] == 0:
                if pend:
                    want[j] = np.array(pend)
                pend = []
        for j in range(c['steps']):
            v, f = rec[f'x{i}_buffered'][j]
            check(f == (j in want), f'buffer {i}: {"" if f else "no "}output at step {j}')
            if j in want:
                close(v, want[j], 1e-7, what=f'buffer {i} emitted at step {j}')
        last = b.outputs[f'x{i}_buffered'].value
        if pend:
            close(last, np.array(pend), 1e-7, what=f'buffer {i} emitted at the end')
    return len(active) >= c['size']


@CHECK.family(st.fixed_dictionaries({'nt': st.integers(20, 300), 'cyc': st.integers(2, 60), 'ns': st.integers(1, 4), 'fs': st.floats(100, 2000), 'cumulated': st.booleans(),
                                     'off': st.floats(-3, 3), 'trend': st.sampled_from([0, 0, 1, -3]), 'seed': st.integers(0, 2**31)}), 300, 5000,
              rule='amplitude and phase of a whole number of cycles on an offset and a trend')
def demodulated_signal(c):
    rng = rng_of(c['seed'])
    nt, cyc = c['nt'], min(c['cyc'], c['nt'] // 4)
    A, ph = rng.uniform(0.5, 4, c['ns']), rng.uniform(-np.pi, np.pi, c['ns'])
    f = cyc * c['fs'] / nt
    t = np.arange(nt)[:, None] / c['fs']
    x = A * np.cos(2 * np.pi * f * t - ph) + c['off'] + c['trend'] * np.arange(nt)[:, None] / nt

    def demodulate(x):
        return demodulate_signal(x, f, c['fs'], cumulated=c['cumulated'])
    v, p = demodulate(x)
    # the removal of the trend takes the end points: an error of a fraction of a cycle
    ea, ep = (1.7, 0.6) if c['cumulated'] else (0.6, 0.36)
    more = abs(c['trend']) / A.min() / nt
    check(np.all(np.abs(v / A - 1) < ea / cyc + more), 'amplitudes', v, A, 'cycles', cyc)
    dp = np.abs((p - ph + np.pi) % (2 * np.pi) - np.pi)
    check(np.all(np.minimum(dp, 2 * np.pi - dp) < ep / cyc + more), 'phases', p, ph, 'cycles', cyc)
    v2, p2 = demodulate(2 * x)
    close(v2, 2 * v, 1e-4, what='amplitude of a doubled signal')
    v1, p1 = demodulate(x[:, -1])
    close(v1, v[-1], 1e-4, what='amplitude of a signal alone')
    close(p1, p[-1], 1e-3, 1e-3, what='phase of a signal alone')
    return 'cumulated' if c['cumulated'] else 'plain'


@CHECK.family(st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'nm': st.integers(1, 4), 'n': st.integers(4, 6), 'win': st.sampled_from([40, 100, 200]), 'nw': st.integers(1, 3),
                                     'cyc': st.integers(4, 12), 'gain': st.floats(0.05, 1), 'og0': st.floats(0.2, 1.5)}), 25, 400,
              rule='sine carriers on a background of other modes: amplitude of the selected modes in every window, scaling, independence of the windows, and the optical gain '
                   'recursion', double=0.4)
def demodulation(c):
    rng = rng_of(c['seed'])
    dt, win, n = 0.001, c['win'], c['n']
    steps = win * c['nw']
    modes = [int(i) for i in rng.permutation(n)[:c['nm']]]
    f0 = c['cyc'] / (win * dt)
    f = np.full(c['nm'], f0)
    A = rng.uniform(0.5, 3, (c['nw'], n))
    ph = rng.uniform(0, 2 * np.pi, n)
    t = np.arange(steps) * dt
    x = np.array([[A[k // win, i] * np.sin(2 * np.pi * f0 * t[k] + ph[i]) for i in range(n)] for k in range(steps)])

    def run(x):
        d = Demodulator(sp(dt), modes, list(f), win * dt)
        return drive(d, {'in_data': value_feed(list(x))}, len(x), dt=dt)['output']
    rec = run(x)
    vals = []
    for k in range(steps):
        check(rec[k][1] == ((k + 1) % win == 0), f'output {"" if rec[k][1] else "not "}refreshed at step {k}, window of {win}')
        if rec[k][1]:
            vals.append(np.array(rec[k][0], float))
            w = A[k // win][modes]
            check(np.all(np.abs(vals[-1] / w - 1) < 0.35), f'amplitudes {vals[-1]}, carriers {w}')
    r2 = run(2 * x)
    for k in range(win - 1, steps, win):
        close(r2[k][0], 2 * np.array(rec[k][0], float), 1e-3, what='amplitude of a doubled signal')
    if c['nw'] > 1:
        r3 = run(x[-win:] if win * f0 * dt == round(win * f0 * dt) else x[:win])
        k = win - 1
        close(r3[k][0], rec[steps - 1 if win * f0 * dt == round(win * f0 * dt) else k][0], 2e-3, what='amplitude in a window taken alone')
    # optical gain
    og = OpticalGainEstimator(c['gain'], initial_optical_gain=c['og0'])
    m = len(vals)
    dl, cm = [np.array([v[0]]) for v in vals], [np.array([rng.uniform(0.5, 3)]) for _ in vals]
    ro = drive(og, {'in_demod_delta_command': value_feed(dl), 'in_demod_command': value_feed(cm)}, m)
    g = c['og0']
    for k in range(m):
        g = g - (1 - dl[k][0] / cm[k][0]) * c['gain'] * g
        close(np.ravel(ro['optical_gain'][k][0]), np.array([g]), 1e-4, what=f'optical gain at step {k}')
        close(np.ravel(ro['output'][k][0]), np.array([min(g, 1.0)]), 1e-4, what=f'output gain at step {k}')


@CHECK.family(st.fixed_dictionaries({'steps': st.lists(st.tuples(st.booleans(), st.booleans(), st.floats(-2, 2), st.sampled_from([0., 1e-14, 0.3, -0.7, 2.])), min_size=1, max_size=8),
    'gain': st.floats(0.01, 1.0), 'og0': st.sampled_from([1.0, 0.4, 1.6])}), 200, 8000, rule='an update is made, and one is not', double=0.4)
def optical_gain(c):
    """The gain moves by gain*(1 - delta/command) of itself when both amplitudes are new and the command is not zero; the output is limited to one."""
    og = OpticalGainEstimator(c['gain'], initial_optical_gain=c['og0'])

    def feed(j, i):
        o = BaseValue(value=np.zeros(1, DT))

        def script(k, o):
            s = c['steps'][k]
            if not s[j]:
                return False
            o.value = np.array([s[i]], DT)
            return True
        return o, script
    r = drive(og, {'in_demod_delta_command': feed(0, 2), 'in_demod_command': feed(1, 3)}, len(c['steps']))
    g, done, top = c['og0'], 0, 10.
    for k, (a, b, dl, cm) in enumerate(c['steps']):
        upd = a and b and abs(cm) > 1e-12
        if upd:
            g -= (1 - dl / cm) * c['gain'] * g
            done += 1
            top = max(top, abs(g))
        check(r['optical_gain'][k][1] == upd, f'step {k}: gain {"" if upd else "not "}expected to be refreshed')
        close(np.ravel(r['optical_gain'][k][0]), [g], 2e-5, what=f'optical gain at step {k}', scale=top)
        if a or b:
            check(r['output'][k][1], f'step {k}: output not refreshed')
            close(np.ravel(r['output'][k][0]), [min(g, 1.0)], 2e-5, what=f'output at step {k}', scale=top)
    return 'trivial' if done in (0, len(c['steps'])) else 'some'
