"""C13 - modal reconstruction and control: slopes to modes, pseudo open loop, several rates, gain optimization."""
from vlib.drive import *
from scipy import signal
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.intmat import Intmat
from specula.data_objects.recmat import Recmat
from specula.data_objects.slopes import Slopes
from specula.data_objects.iir_filter_data import IirFilterData
from specula.processing_objects.modalrec import Modalrec
from specula.processing_objects.modalrec_implicit_polc import ModalrecImplicitPolc
from specula.processing_objects.modalrec_multirate import ModalrecMultirate
from specula.processing_objects.multirate_complementary_filter import MultirateComplementaryFilter
from specula.processing_objects.gain_optimizer import GainOptimizer
from specula.processing_objects.integrator import Integrator

CHECK = Check('C13', 'modal control', scale=2, assumptions=['a reconstructor is used by one object only',
                                                   'gain optimization: cases whose best gain is within 1e-4 of another one are not compared'])
T = 2e-5 if PREC == 1 else 1e-11


def slopes_feed(vals, n):
    o = Slopes(n)

    def s(k, o):
        if vals[k] is None:
            return False
        o.slopes[:] = vals[k]
        return True
    return o, s


def sequence(rng, n, steps, p, first=True):
    return [rng.normal(size=n).astype(DT) if (k == 0 and first) or rng.random() < p else None for k in range(steps)]


def vec(vals, n):
    o = BaseValue(value=np.zeros(n, dtype=DT))

    def s(k, o):
        if vals[k] is None:
            return False
        o.value = np.array(vals[k], dtype=DT)
        return True
    return o, s


def held(vals, n):
    cur, out = np.zeros(n), []
    for v in vals:
        cur = cur if v is None else np.asarray(v, dtype=float)
        out.append(cur)
    return out


def split(rng, n, parts):
    cut = sorted(rng.choice(np.arange(1, n), parts - 1, replace=False)) if parts > 1 else []
    return [int(b - a) for a, b in zip([0] + list(cut), list(cut) + [n])]


rec_st = {'ns': st.integers(2, 12), 'nm': st.integers(1, 6), 'parts': st.integers(1, 3), 'steps': st.integers(1, 8), 'p': st.sampled_from([1.0, 0.6]), 'seed': st.integers(0, 10**6)}


@CHECK.family(st.fixed_dictionaries(dict(rec_st, kind=st.sampled_from(['rec', 'rec', 'identity', 'filt', 'proj']), cut=st.integers(0, 3), cmds=st.booleans())), 150, 3000,
    rule='reconstructor (plain, identity, truncated, filtered) on one or several slope vectors, some missing at some steps', double=0.4)
def open_loop(c):
    rng = rng_of(c['seed'])
    ns, nm = max(c['ns'], c['parts']), c['nm']
    parts = split(rng, ns, c['parts'])
    fr = [sequence(rng, n, c['steps'], c['p'], False) for n in parts]
    if c['kind'] == 'identity':
        obj = Modalrec(nmodes=ns, identity=True)
        R = np.eye(ns)
    else:
        R = rng.normal(size=(nm, ns)).astype(DT)
        kw = {}
        rm = Recmat(R.copy())
        if c['kind'] == 'filt':
            F = rng.normal(size=(ns, ns)).astype(DT)
            kw['filtmat'] = F.copy()
        if c['cut'] and c['cut'] < nm:
            kw['ncutmodes'] = c['cut']
            R = R[:nm - c['cut']]
        obj = Modalrec(recmat=rm, **kw)
        R = R.astype(float)
        if c['kind'] == 'filt':
            R = R @ F
    fs = [slopes_feed(v, n) for v, n in zip(fr, parts)]
    rec = drive(obj, {'in_slopes': fs[0]} if c['parts'] == 1 else {'in_slopes_list': fs}, c['steps'], outs=['out_modes'])['out_modes']
    hs = [held(v, n) for v, n in zip(fr, parts)]
    want = np.zeros(R.shape[0])
    for k, (v, fresh) in enumerate(rec):
        f = any(x[k] is not None for x in fr)
        if f:
            want = R @ np.concatenate([h[k] for h in hs])
        check(fresh == f, f'step {k}: fresh={fresh}, expected {f}')
        close(v, want, T, T, what=f'modes at step {k}', scale=np.abs(R).sum())
    return c['kind']


@CHECK.family(st.fixed_dictionaries({'ns': st.integers(3, 12), 'nm': st.integers(2, 6), 'keep': st.integers(0, 5), 'drop': st.integers(0, 3), 'steps': st.integers(1, 4), 'seed': st.integers(0, 10**6)}), 60, 1500,
    rule='always', double=0.4)
def from_intmat(c):
    """A reconstructor made from an interaction matrix, whole or with its last modes and slopes left out: the least squares solution, and the matrix is not changed."""
    rng = rng_of(c['seed'])
    ns, nm = c['ns'] + c['nm'], c['nm']
    D = rng.normal(size=(ns, nm)).astype(DT)
    im = Intmat(D.copy())
    keep = min(c['keep'], nm)
    rows = ns - c['drop']
    A = D[:rows, :keep or nm].astype(float)
    obj = Modalrec(intmat=im, **({'nmodes': keep} if keep else {}), **({'nSlopesToBeDiscarded': c['drop']} if c['drop'] else {}))
    fr = sequence(rng, rows, c['steps'], 1.0)
    rec = drive(obj, {'in_slopes': slopes_feed(fr, rows)}, c['steps'], outs=['out_modes'])['out_modes']
    for k, (v, fresh) in enumerate(rec):
        check(fresh, f'step {k}: no modes')
        close(v, np.linalg.lstsq(A, fr[k].astype(float), rcond=None)[0], 30 * T * np.linalg.cond(A), what=f'modes at step {k}', scale=1 + np.abs(np.linalg.pinv(A)).sum())
    same(im.intmat, D, 'the interaction matrix itself')
    return ('some modes' if 0 < keep < nm else 'all modes') + (' fewer slopes' if c['drop'] else '')


@CHECK.family(st.fixed_dictionaries(dict(rec_st, nc=st.integers(1, 6), proj=st.booleans(), cparts=st.integers(1, 2), cp=st.sampled_from([1.0, 0.5, 0.0]), none=st.booleans(), pairs=st.booleans())), 150, 3000,
    rule='pseudo open loop (explicit and implicit) against its equations, with commands and slopes at different rates; modes are linear in both', double=0.4)
def polc(c):
    rng = rng_of(c['seed'])
    ns, nc = max(c['ns'], c['parts']), max(c['nc'], c['cparts'])
    nm = c['nm'] if c['proj'] else nc
    parts, cparts = split(rng, ns, c['parts']), split(rng, nc, c['cparts'])
    allp = [rng.random() < c['p'] for _ in range(c['steps'])]
    fr = [[rng.normal(size=n).astype(DT) if allp[k] else None for k in range(c['steps'])] for n in parts]
    cm = [sequence(rng, n, c['steps'], c['cp'], False) for n in cparts]
    R, D, P = (rng.normal(size=s).astype(DT) for s in ((nm, ns), (ns, nc), (nc, nm)))
    kinds = ['explicit'] + (['implicit'] if c['proj'] else [])
    for kind in kinds:
        kw = dict(recmat=Recmat(R.copy()), intmat=Intmat(D.copy()), projmat=Recmat(P.copy()) if c['proj'] else None)
        obj = ModalrecImplicitPolc(**kw) if kind == 'implicit' else Modalrec(polc=True, **kw)
        feeds = {}
        fs = [slopes_feed(v, n) for v, n in zip(fr, parts)]
        feeds['in_slopes' if c['parts'] == 1 else 'in_slopes_list'] = fs[0] if c['parts'] == 1 else fs
        cs = [vec(v, n) for v, n in zip(cm, cparts)]
        if c['none'] and c['cparts'] == 1:
            o = BaseValue()                       # no commands before the first ones

            def s(k, o):
                if cm[0][k] is None:
                    return False
                o.value = np.array(cm[0][k], dtype=DT)
                return True
            cs = [(o, s)]
        feeds['in_commands' if c['cparts'] == 1 else 'in_commands_list'] = cs[0] if c['cparts'] == 1 else cs
        rec = drive(obj, feeds, c['steps'])
        hs, hc = [held(v, n) for v, n in zip(fr, parts)], [held(v, n) for v, n in zip(cm, cparts)]
        want, pol = np.zeros(nc), np.zeros(nm)
        for k in range(c['steps']):
            if allp[k]:
                s, u = np.concatenate([h[k] for h in hs]), np.concatenate([h[k] for h in hc])
                pol = R.astype(float) @ (s + D.astype(float) @ u)
                want = (P.astype(float) @ pol if c['proj'] else pol) - u
            v, fresh = rec['out_modes'][k]
            check(fresh == allp[k], f'{kind} modes at step {k}: fresh={fresh}, expected {allp[k]}')
            sc = (1 + np.abs(P).sum()) * np.abs(R).sum() * (1 + np.abs(D).sum())
            close(v, want, T, what=f'{kind} modes at step {k}', scale=sc)
            if kind == 'explicit':
                v, fresh = rec['out_pseudo_ol_modes'][k]
                check(fresh == allp[k], f'pseudo open-loop modes at step {k}: fresh={fresh}')
                close(v, pol, T, what=f'pseudo open-loop modes at step {k}', scale=sc)
    return kinds


@CHECK.family(st.fixed_dictionaries({'nsens': st.integers(1, 3), 'nm': st.integers(1, 5), 'steps': st.integers(1, 8), 'seed': st.integers(0, 10**6), 'miss': st.booleans()}), 120, 2500,
    rule='several sensors at different rates: the matrix of the sensors refreshed at each step, block by block; unforeseen combinations and wrong shapes are refused', double=0.4)
def multirate(c):
    rng = rng_of(c['seed'])
    S, nm = c['nsens'], c['nm']
    ns = [int(x) for x in rng.integers(1, 6, S)]
    masks = [[bool((m >> i) & 1) for i in range(S)] for m in range(1, 2**S)]
    rng.shuffle(masks)
    masks = [[bool(x) for x in m] for m in masks]
    mats = [rng.normal(size=(nm, sum(ns))).astype(DT) for _ in masks]
    skip = None
    if c['miss'] and len(masks) > 1:
        skip = masks.pop(); mats.pop()
    vals = [[rng.normal(size=n).astype(DT) if rng.random() < 0.6 else None for _ in range(c['steps'])] for n in ns]
    obj = ModalrecMultirate([Recmat(m.copy()) for m in mats], [list(m) for m in masks], nm)
    feeds = {'in_slopes_list': [slopes_feed(v, n) for v, n in zip(vals, ns)]}
    states = [[v[k] is not None for v in vals] for k in range(c['steps'])]
    if skip is not None and skip in states:
        raises(lambda: drive(obj, feeds, c['steps']), f'state {skip} has no matrix', KeyError)
        return 'refused'
    rec = drive(obj, feeds, c['steps'])
    off = np.concatenate([[0], np.cumsum(ns)])
    cur = [np.zeros(nm)] * S
    for k in range(c['steps']):
        if any(states[k]):
            M = mats[masks.index(states[k])].astype(float)
            cur = [M[:, off[i]:off[i + 1]] @ vals[i][k] if states[k][i] else np.zeros(nm) for i in range(S)]
        for i in range(S):
            v, fresh = rec[f'out_modes_{i}'][k]
            check(fresh == any(states[k]), f'sensor {i} step {k}: fresh={fresh}')
            close(v, cur[i], T, what=f'modes of sensor {i} at step {k}', scale=30)
    mk = lambda **k: dict(dict(recmat_list=[Recmat(m) for m in mats], validity_masks=masks, n_modes_total=nm), **k)
    raises(lambda: ModalrecMultirate(**mk(n_modes_total=nm + 1)), 'matrices with another number of modes', ValueError)
    raises(lambda: ModalrecMultirate(**mk(validity_masks=masks + [masks[0]])), 'more masks than matrices', ValueError)
    raises(lambda: ModalrecMultirate(recmat_list=[Recmat(m) for m in mats + mats[:1]], validity_masks=masks + masks[:1], n_modes_total=nm), 'repeated mask', ValueError)
    bad = ModalrecMultirate(**mk())
    raises(lambda: drive(bad, {'in_slopes_list': [slopes_feed([np.zeros(n + 1)], n + 1) for n in ns]}, 1), 'slopes of the wrong size', ValueError)
    return 'multi' if S > 1 else 'single'


def iir(num, den, u, gm):
    """num/den: coefficients, most recent last. Direct form on the whole input history u (steps x n)."""
    n, y = u.shape[1], np.zeros_like(u)
    ni, no = num.shape[1], den.shape[1]
    for k in range(len(u)):
        acc = np.zeros(n)
        for j in range(ni):
            if k - j >= 0:
                acc += num[:, ni - 1 - j] * gm[k] * u[k - j]
        for j in range(1, no):
            if k - j >= 0:
                acc -= den[:, no - 1 - j] * y[k - j]
        y[k] = acc / den[:, no - 1]
    return y


@CHECK.family(st.fixed_dictionaries({'n': st.integers(1, 4), 'slow': st.lists(st.integers(1, 4), min_size=0, max_size=3), 'steps': st.integers(1, 16), 'delay': st.sampled_from([0, 0, 1, 2]),
    'vec': st.booleans(), 'g': st.sampled_from([0.0, 0.3, 1.0]), 'sync': st.booleans(), 'fault': st.sampled_from([None, None, 'missing', 'extra']), 'gm': st.booleans(),
    'gain': st.sampled_from([0.5, 1.0]), 'ff': st.sampled_from([1.0, 0.9]), 'seed': st.integers(0, 10**6)}), 150, 3000,
    rule='fusion of a fast and several slow sensors, by separate inputs or one vector, against the difference equation; slow sensors out of step are refused', double=0.4)
def complementary(c):
    rng = rng_of(c['seed'])
    n, N, steps = c['n'], c['slow'], c['steps']
    w = rng.uniform(0.1, 3, len(N) + 1)
    d = IirFilterData.from_gain_and_ff([c['gain']] * n, ff=[c['ff']] * n)
    num, den = np.array(d.num, dtype=float), np.array(d.den, dtype=float)
    yf = [rng.normal(size=n).astype(DT) for _ in range(steps)]
    ys = [[rng.normal(size=n).astype(DT) if (k + 1) % m == 0 else None for k in range(steps)] for m in N]
    fault = c['fault'] if not c['vec'] and N else None
    kf = None
    if fault:
        i = int(rng.integers(len(N)))
        ks = [k for k in range(steps) if ((k + 1) % N[i] == 0) == (fault == 'missing')]
        if not ks:
            fault = None
        else:
            kf = int(rng.choice(ks))
            ys[i][kf] = None if fault == 'missing' else rng.normal(size=n).astype(DT)
    p = SimulParams(time_step=0.001)
    gms = [(rng.uniform(0.2, 2, n) * (rng.random(n) > 0.15)).astype(DT) for _ in range(steps)] if c['gm'] else None
    kw = dict(simul_params=p, iir_filter_data=d, g_track=c['g'], weights=[float(x) for x in w], N_list=list(N), delay=c['delay'], validate_sync=c['sync'])
    if c['vec']:
        total = n * (len(N) + 1)
        perm = rng.permutation(total)
        idx = [perm[i * n:(i + 1) * n] for i in range(len(N) + 1)]
        obj = MultirateComplementaryFilter(idx_yf=[int(x) for x in idx[0]], idx_ys=[[int(x) for x in i] for i in idx[1:]], **kw)
        V = []
        for k in range(steps):
            v = np.zeros(total, dtype=DT); v[idx[0]] = yf[k]
            for i in range(len(N)):
                v[idx[i + 1]] = ys[i][k] if ys[i][k] is not None else rng.normal(size=n)     # not used at these steps
            V.append(v)
        feeds = {'in_vec': vec(V, total)}
    else:
        obj = MultirateComplementaryFilter(**kw)
        feeds = {'in_yf': vec(yf, n), 'in_ys': [vec(y, n) for y in ys]}
        if not N:
            feeds.pop('in_ys'); obj.inputs['in_ys'].set([])
    if gms:
        feeds['gain_mod'] = vec(gms, n)
    if fault and c['sync']:
        raises(lambda: drive(obj, feeds, steps), f'slow sensor {fault} an update at step {kf}', RuntimeError)
        return 'refused'
    rec = drive(obj, feeds, steps)
    wn = w / w.sum()
    hy = [held(y, n) for y in ys]
    u = np.zeros((steps, n))
    for k in range(steps):
        u[k] = (1 + c['g'] * wn[0]) * yf[k].astype(float) - (yf[k - 1].astype(float) if k else 0)
        for i, m in enumerate(N):
            if (k + 1) % m == 0:
                u[k] += c['g'] * wn[i + 1] * m * hy[i][k]
    y = iir(num, den, u, gms if gms else [np.ones(n)] * steps)
    sc = max(1, np.abs(y).max())
    for k in range(steps):
        v, fresh = rec['out_comm_no_delay'][k]
        check(fresh, f'not refreshed at step {k}')
        close(v, y[k], T * 5, what=f'command without delay at step {k}', scale=sc)
        close(rec['out_comm'][k][0], y[k - c['delay']] if k >= c['delay'] else np.zeros(n), T * 5, what=f'command at step {k}', scale=sc)
    return 'vector' if c['vec'] else 'separate'


@CHECK.family(st.fixed_dictionaries({'n': st.integers(1, 3), 'rounds': st.sampled_from([0, 1, 2, 3, 3]), 'opt': st.sampled_from([10, 16, 25]), 'turn': st.booleans(), 'delay': st.sampled_from([1, 2, 3]), 'mgf': st.sampled_from([0.95, 0.6]),
    'sf': st.sampled_from([0.9, 1.0, 0.5]), 'inc': st.sampled_from([0.5, 1.0, 0.2]), 'limit': st.booleans(), 'ng': st.sampled_from([20, 20, 5]), 'og': st.booleans(), 'gain': st.sampled_from([0.5, 0.2]),
    'col': st.sampled_from([0.0, 0.95, 0.99]), 'mean': st.sampled_from([True, True, False]), 'seed': st.integers(0, 10**6)}), 60, 600,
    rule='optimized gains against an exhaustive search of the residual variance of the pseudo open loop over the same grid of stable gains; limits, optical gain, schedule', double=0.4)
def optimizer(c):
    rng = rng_of(c['seed'])
    n, steps, dt = c['n'], c['opt'] * c['rounds'] + 1 + c['seed'] % 9, 0.002
    p = SimulParams(time_step=dt)
    g0 = [c['gain']] * n
    d = IirFilterData.from_gain_and_ff(g0, ff=[1.0] * n)
    obj = GainOptimizer(p, d, opt_dt=c['opt'] * dt, delay=float(c['delay']), max_gain_factor=c['mgf'], safety_factor=c['sf'], max_inc=c['inc'], limit_inc=c['limit'], ngains=c['ng'], running_mean=c['mean'], verbose=False)
    x = np.zeros((steps, n)); w = rng.normal(size=(steps, n))
    for k in range(steps):
        x[k] = (c['col'] * x[k - 1] if k else 0) + w[k]
    noise = rng.uniform(0.05, 2) * rng.normal(size=(steps, n))
    if c['turn']:                                 # the disturbance and the noise change after the first optimization
        x[c['opt'] + 1:] *= rng.choice([0.03, 20.])
        noise[c['opt'] + 1:] *= rng.choice([0.03, 20.])
    comm, delta = (x * 0.7).astype(DT), (x * 0.3 + noise).astype(DT)
    og = rng.uniform(0.4, 1.0, steps).astype(DT)
    feeds = {'delta_comm': vec(list(delta), n), 'out_comm': vec(list(comm), n)}
    if c['og']:
        feeds['optical_gain'] = value_feed([float(v) for v in og])
    rec = drive(obj, feeds, steps, dt=dt)['optimized_gain']
    gmax = 2 * np.sin(np.pi / (2 * (2 * c['delay'] - 1))) if c['delay'] else np.inf       # integrator with a delay
    gmax *= c['mgf']
    prev, cur = np.array(g0, dtype=float), np.ones(n)
    nper = None
    mean = np.zeros(n, dtype=object)
    for k in range(steps):
        due = k >= c['opt'] and k % c['opt'] == 0
        v, fresh = rec[k]
        check(fresh == due, f'step {k}: fresh={fresh}, expected {due}')
        if due:
            ol = delta[:k + 1].astype(float).copy(); ol[1:] += comm[:k]
            nper = nper or min(k + 1, 256)
            grid = np.linspace(gmax / c['ng'], gmax, c['ng'])
            best = np.zeros(n)
            for m in range(n):
                f, psd = signal.welch(ol[:, m], fs=1 / dt, window='hann', nperseg=nper)
                if c['mean']:                     # earlier spectra count less and less
                    psd = mean[m] = (psd + mean[m]) / 2
                z = np.exp(2j * np.pi * f * dt)
                C = np.where(np.abs(z - 1) < 1e-9, np.inf, z / np.where(np.abs(z - 1) < 1e-9, 1, z - 1))
                tot = []
                for g in grid:
                    with np.errstate(all='ignore'):
                        H = np.where(np.isinf(C), 0, 1 / (1 + g * C * z**(-c['delay'])))
                    tot.append(np.sum(np.abs(H)**2 * psd))
                tot = np.array(tot); o = np.sort(tot)
                if (o[1] - o[0]) < 2e-3 * o[0]:
                    raise Skip
                best[m] = grid[np.argmin(tot)]
            if c['limit']:
                best = prev + c['inc'] * (best - prev)
            if c['og']:
                best = best * og[k] / og[k - 1]
            best = np.minimum(best * c['sf'], gmax)
            prev = cur = best
        close(v, cur, 3e-3, what=f'optimized gain at step {k} (largest stable gain {gmax:.4f})')
    close(d.gain, prev if steps > c['opt'] else g0, 3e-3, what='gain of the filter')
    return 'optimized' if steps > c['opt'] else 'trivial'


@CHECK.family(st.fixed_dictionaries({'nm': st.integers(1, 5), 'ns': st.integers(5, 12), 'gain': st.sampled_from([0.3, 0.5, 0.7]), 'polc': st.sampled_from(['no', 'explicit', 'implicit']),
    'seed': st.integers(0, 10**6)}), 40, 600,
    rule='a closed loop with a perfect reconstructor removes a constant disturbance geometrically, with and without pseudo open loop', double=0.4)
def closed_loop(c):
    rng = rng_of(c['seed'])
    nm, ns, steps = c['nm'], c['ns'], 24
    D = rng.normal(size=(ns, nm)).astype(DT)
    R = np.linalg.pinv(D.astype(float)).astype(DT)
    if np.linalg.cond(D.astype(float)) > 30:
        raise Skip
    if c['polc'] == 'no':
        rc = Modalrec(recmat=Recmat(R))
    else:
        kw = dict(recmat=Recmat(R), intmat=Intmat(D), projmat=Recmat(np.eye(nm, dtype=DT)))
        rc = Modalrec(polc=True, **kw) if c['polc'] == 'explicit' else ModalrecImplicitPolc(**kw)
    p = SimulParams(time_step=0.001)
    it = Integrator(p, int_gain=[c['gain']] * nm)
    dist = rng.normal(size=nm)
    sl = Slopes(ns)
    res = []

    def plant(k, o):
        # the mirror holds the command computed in the previous step
        r = dist - it.outputs['out_comm'].value
        res.append(np.array(r, dtype=float))
        o.slopes[:] = D @ r
        return True
    it.inputs['delta_comm'].set(rc.outputs['out_modes'])
    feeds = {'in_slopes': (sl, plant)}
    if c['polc'] != 'no':
        rc.inputs['in_commands'].set(it.outputs['out_comm'])
    drive(rc, feeds, steps, extra=[it], outs=['out_modes'])
    r0 = np.abs(dist).max()
    for k, r in enumerate(res):
        close(r, dist * (1 - c['gain'])**k, 3e-4 if PREC == 1 else 1e-9, what=f'residual after {k} steps', scale=r0)
    return c['polc']
