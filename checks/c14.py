"""C14 - deformable mirrors, influence functions and modal analysis: linear, masked, and inverse of each other."""
from vlib.drive import *
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.ifunc import IFunc
from specula.data_objects.ifunc_inv import IFuncInv
from specula.data_objects.m2c import M2C
from specula.data_objects.pupilstop import Pupilstop
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.layer import Layer
from specula.processing_objects.dm import DM
from specula.processing_objects.modal_analysis import ModalAnalysis

CHECK = Check('C14', 'deformable mirrors and modal analysis', scale=3, assumptions=['square masks', 'the length of a command vector does not change during a run',
                                                                          'phase unwrapping: neighbouring pixels differ by less than half a wave'])
T = 3e-5 if PREC == 1 else 1e-11


def mask_of(rng, n, kind):
    m = np.zeros((n, n), dtype=DT)
    if kind == 'full':
        m[:] = 1
    elif kind == 'disc':
        y, x = np.mgrid[:n, :n] - (n - 1) / 2
        m[x * x + y * y <= n * n / 4] = 1
        if rng.random() < 0.5:
            m[x * x + y * y < n * n / 40] = 0
    else:
        m[rng.random((n, n)) < 0.6] = 1
        m[0, 0] = m[-1, 0] = m[0, -1] = 1
    return m


def modes_of(rng, n, npix):
    """Well conditioned random modes."""
    q = np.linalg.qr(rng.normal(size=(npix, n)))[0].T * np.sqrt(npix)
    return q + 0.3 * rng.normal(size=(n, n)) @ q / np.sqrt(n)


def history(rng, n, steps, p):
    return [rng.normal(size=n).astype(DT) * 10 if rng.random() < p else None for _ in range(steps)]


mask_st = {'n': st.integers(3, 12), 'mask': st.sampled_from(['full', 'disc', 'random']), 'seed': st.integers(0, 10**6)}


@CHECK.family(st.fixed_dictionaries(dict(mask_st, nm=st.integers(1, 8), m2c=st.booleans(), nc=st.integers(1, 8), sel=st.sampled_from(['all', 'nmodes', 'start', 'both', 'idx']), a=st.integers(0, 5), b=st.integers(1, 6),
                                         extra=st.integers(0, 2), sign=st.sampled_from([-1, -1, 1, 2]), stop=st.booleans(), height=st.sampled_from([0.0, 5000.0]), steps=st.integers(1, 6), p=st.sampled_from([1.0, 0.6]), pitch=st.sampled_from([0.05, 0.1]))),
    500, 8000, rule='random influence functions, masks, mode selections, modes-to-commands matrices and command histories against the weighted sum of influence functions', double=0.4)
def dm(c):
    rng = rng_of(c['seed'])
    m = mask_of(rng, c['n'], c['mask'])
    npix = int(m.sum())
    assume(npix >= 1)
    nm = c['nm']
    F = rng.normal(size=(nm, npix)).astype(DT)
    kw = {}
    ntot = c['nc'] if c['m2c'] else nm          # the modes the commands refer to
    ids = list(range(ntot))
    if c['sel'] in ('nmodes', 'both') and ntot > 1:
        kw['nmodes'] = end = 1 + c['b'] % ntot
        ids = ids[:end]
    if c['sel'] in ('start', 'both') and len(ids) > 1:
        kw['start_mode'] = s0 = c['a'] % len(ids)
        ids = ids[s0:]
    if c['sel'] == 'idx':
        assume(not (c['m2c'] and ntot != nm))
        ids = [int(i) for i in rng.permutation(ntot)[:1 + c['b'] % ntot]]
        kw['idx_modes'] = list(ids)
    elif c['m2c'] and 'nmodes' not in kw:
        assume(c['nc'] == nm)                    # otherwise the number of modes is that of the influence functions
    C = rng.normal(size=(nm, ntot)).astype(DT) if c['m2c'] else None
    cmds = history(rng, len(ids) + c['extra'], c['steps'], c['p'])
    if kw.get('idx_modes') is not None:
        cmds = [None if v is None else v[:len(ids)] for v in cmds]
    par = SimulParams(pixel_pupil=c['n'], pixel_pitch=c['pitch'])
    ifu = IFunc(F.copy(), mask=m.copy())
    stop = Pupilstop(par, input_mask=m.copy()) if c['stop'] else None
    obj = DM(par, c['height'], ifunc=ifu, m2c=M2C(C.copy()) if c['m2c'] else None, sign=c['sign'], pupilstop=stop, **kw)
    lay = obj.outputs['out_layer']
    check(lay.pixel_pitch == c['pitch'] and lay.height == c['height'], f'layer pitch {lay.pixel_pitch}, height {lay.height}')
    seen = []
    real = np.zeros((c['n'], c['n']))
    rec = drive(obj, {'in_command': value_feed(cmds)}, c['steps'])['out_layer']
    for k, (_, fresh) in enumerate(rec):
        check(fresh == (cmds[k] is not None), f'step {k}: layer fresh={fresh}, command {cmds[k] is not None}')
    W = (C[:, ids].astype(float).T @ F) if c['m2c'] else F[ids].astype(float)
    for k, (v, _) in enumerate(rec):
        if cmds[k] is not None:
            real = np.zeros((c['n'], c['n']))
            real[m > 0] = c['sign'] * cmds[k][:len(ids)].astype(float) @ W
        close(v[0], m, 0, 0, what='amplitude of the layer')
        close(v[1], real, T, what=f'phase at step {k}', scale=np.abs(W).sum(0).max() * 40)
    same(ifu.influence_function, F, 'influence functions after the run')
    return f"{c['sel']}-{c['m2c']}"


@CHECK.family(st.fixed_dictionaries(dict(mask_st, nm=st.integers(1, 8), cut=st.integers(0, 8), kind=st.sampled_from(['ifunc', 'inv', 'both', 'dm']), nin=st.integers(0, 3), steps=st.integers(1, 4),
                                         p=st.sampled_from([1.0, 0.6]), rms=st.booleans())), 500, 8000,
    rule='modes of random phases are the least-squares fit inside the mask: single and lists of fields, truncations, shared influence functions; mirror commands are recovered', double=0.4)
def analysis(c):
    rng = rng_of(c['seed'])
    m = mask_of(rng, c['n'], c['mask'])
    npix = int(m.sum())
    nm = min(c['nm'], npix - 1)
    assume(nm >= 1)
    F = modes_of(rng, nm, npix).astype(DT)
    ifu = IFunc(F.copy(), mask=m.copy())
    inv = ifu.inverse()
    close(inv.ifunc_inv, np.linalg.pinv(F.astype(float)), T, what='inverse influence functions')
    inv0 = np.array(inv.ifunc_inv)
    nuse = nm if c['cut'] == 0 else min(c['cut'], nm)
    kw = {} if c['cut'] == 0 else {'nmodes': nuse}
    if c['kind'] in ('ifunc', 'dm'):
        kw['ifunc'] = ifu
    elif c['kind'] == 'inv':
        kw['ifunc_inv'] = inv
    else:
        kw.pop('nmodes', None)
        nuse = nm
        kw.update(ifunc=IFunc(modes_of(rng, nm, npix).astype(DT), mask=m.copy()), ifunc_inv=inv)      # the inverse has priority
    nin = c['nin']
    ma = ModalAnalysis(dorms=c['rms'], n_inputs=max(nin, 1), **kw)
    # cutting an inverse keeps the first modes of the complete fit, cutting the modes is a fit with fewer modes
    P = np.linalg.pinv(F[:nuse].astype(float)) if c['kind'] in ('ifunc', 'dm') else np.linalg.pinv(F.astype(float))[:, :nuse]
    par = SimulParams(pixel_pupil=c['n'], pixel_pitch=0.1)
    phs, feeds = [], []
    cmds = []
    for i in range(max(nin, 1)):
        ef = ElectricField(c['n'], c['n'], 0.1)
        if c['kind'] == 'dm':
            cm = [rng.normal(size=nuse) if rng.random() < c['p'] else None for _ in range(c['steps'])]
            d = DM(par, 0.0, ifunc=ifu, nmodes=nuse)
            rec = drive(d, {'in_command': value_feed([None if v is None else v.astype(DT) for v in cm])}, c['steps'])['out_layer']
            seq = [rec[k][0][1] + 1000 * (1 - m) if cm[k] is not None else None for k in range(c['steps'])]
            cmds.append(cm)
        else:
            seq = [(rng.normal(size=(c['n'], c['n'])) * 30).astype(DT) if rng.random() < c['p'] else None for k in range(c['steps'])]
        phs.append(seq)

        def s(k, o, seq=seq):
            if seq[k] is None:
                return False
            o.phaseInNm[:] = seq[k]
            return True
        feeds.append((ef, s))
    rec = drive(ma, {'in_ef_list': feeds} if nin else {'in_ef': feeds[0]}, c['steps'])
    cur = [np.zeros((c['n'], c['n'])) for _ in phs]
    for k in range(c['steps']):
        any_ = any(s[k] is not None for s in phs)
        for i, s in enumerate(phs):
            if s[k] is not None:
                cur[i] = s[k].astype(float)
            got, fresh = rec['out_modes_list'][k][i] if nin else rec['out_modes'][k]
            if nin or i == 0:
                check(fresh == any_, f'step {k}: modes fresh={fresh}, inputs {any_}')
            if any_:
                want = cur[i][m > 0] @ P
                close(got, want, T, what=f'modes of input {i} at step {k}', scale=100 * np.abs(P).sum(0).max())
                if c['kind'] == 'dm' and cmds[i][k] is not None:
                    close(got, -cmds[i][k], 3 * T, what=f'mirror commands recovered at step {k}', scale=100 * np.abs(P).sum(0).max())
        if c['rms'] and any_:
            close(rec['rms'][k][0], [np.std(cur[-1][m > 0])], T, what='phase rms')
    same(ifu.influence_function, F, 'influence functions used by another object')
    same(inv.ifunc_inv, inv0, 'inverse influence functions used by another object')
    return c['kind']


@CHECK.family(st.fixed_dictionaries({'n': st.integers(6, 20), 'nm': st.integers(1, 6), 'wl': st.sampled_from([200.0, 750.0, 2200.0]), 'amp': st.sampled_from([0.1, 0.5, 0.9, 1.0]), 'seed': st.integers(0, 10**6)}), 200, 3000,
    rule='smooth phases of many waves, wrapped: the analysis with unwrapping gives the modes of the phase before wrapping', double=0.4)
def unwrap(c):
    rng = rng_of(c['seed'])
    n, wl = c['n'], c['wl']
    y, x = (np.mgrid[:n, :n] - (n - 1) / 2) / n
    co = rng.normal(size=9)
    ph = sum(a * x**i * y**j for a, (i, j) in zip(co, [(1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (3, 0), (0, 3), (2, 1), (1, 2)]))
    if listed('C14-unwrap-edges'):
        ph *= 1 - np.linspace(-1, 1, n)**2             # known finding: vertical differences along the first and last columns are lost
    g = max(np.abs(np.diff(ph, axis=0)).max(), np.abs(np.diff(ph, axis=1)).max(), 1e-9)
    ph *= c['amp'] * 0.4 * wl / g                      # neighbours differ by 0.4 waves at most
    ph -= ph.mean()
    m = np.ones((n, n), dtype=DT)
    F = modes_of(rng, c['nm'], n * n)
    F = (F - F.mean(1, keepdims=True)).astype(DT)
    wrapped = ph - wl * np.round(ph / wl) + wl * rng.integers(-2, 3)
    ma = ModalAnalysis(ifunc=IFunc(F.copy(), mask=m), wavelengthInNm=wl, dorms=True)
    ef = ElectricField(n, n, 0.1)

    def s(k, o):
        o.phaseInNm[:] = wrapped
        return True
    rec = drive(ma, {'in_ef': (ef, s)}, 1)
    P = np.linalg.pinv(F.astype(float))
    P -= P.mean(0)
    close(rec['out_modes'][0][0], ph.ravel() @ P, T, what='modes after unwrapping', scale=10 * np.abs(P).sum(0).max() * max(np.abs(ph).max(), 2 * wl))
    close(rec['rms'][0][0], [ph.std()], 30 * T, what='rms after unwrapping', scale=np.abs(ph).max() + 2 * wl)
    return 'wraps' if np.abs(ph).max() > 0.5 * wl else ''


@CHECK.finding
def unwrap_edges(c):
    n, wl = 16, 500.0
    ph = np.add.outer(np.arange(n), np.zeros(n)) * 100.0       # a tilt of 100 nm per pixel
    ph -= ph.mean()
    F = ph.reshape(1, -1) / ph.std()
    ma = ModalAnalysis(ifunc=IFunc(F.astype(DT), mask=np.ones((n, n), dtype=DT)), wavelengthInNm=wl)
    ef = ElectricField(n, n, 0.1)

    def s(k, o):
        o.phaseInNm[:] = ph - wl * np.round(ph / wl)
        return True
    rec = drive(ma, {'in_ef': (ef, s)}, 1)
    close(rec['out_modes'][0][0], [ph.std()], 1e-3, what='mode of a wrapped tilt after unwrapping')


@CHECK.family(st.fixed_dictionaries(dict(mask_st, nm=st.integers(1, 10), ops=st.lists(st.tuples(st.sampled_from(['start', 'n', 'both', 'idx']), st.integers(0, 9), st.integers(1, 9)), max_size=3), norm=st.booleans())), 250, 4000,
    rule='sequences of mode selections on influence functions, their inverse and mode matrices keep exactly the modes selected; cubes; set_value', double=0.3)
def cuts(c):
    rng = rng_of(c['seed'])
    m = mask_of(rng, c['n'], c['mask'])
    npix = int(m.sum())
    assume(npix)
    F = rng.normal(size=(c['nm'], npix)).astype(DT)
    objs = [IFunc(F.copy(), mask=m.copy()), IFuncInv(F.T.copy(), m.copy()), M2C(F.T.copy())]
    ids = list(range(c['nm']))
    for kind, a, b in c['ops']:
        if kind == 'idx':
            kw = {'idx_modes': [int(i) for i in rng.permutation(len(ids))[:b]]}
            ids = [ids[i] for i in kw['idx_modes']]
        else:
            kw = {}
            a = a % len(ids)
            if kind in ('start', 'both'):
                kw['start_mode'] = a
                ids = ids[a:]
            if kind in ('n', 'both'):
                kw['nmodes'] = b
                ids = ids[:b]
        for o in objs:
            o.cut(**kw)
    same(objs[0].influence_function, F[ids], 'influence functions left')
    same(objs[1].ifunc_inv, F[ids].T, 'inverse left')
    same(objs[2].m2c, F[ids].T, 'mode matrix left')
    check(objs[0].size == (len(ids), npix) and objs[2].nmodes == len(ids), f'sizes {objs[0].size}, {objs[2].nmodes}')
    cube = arr(objs[0].ifunc_2d_to_3d(normalize=c['norm']))
    want = np.zeros((c['n'], c['n'], len(ids)))
    f = F[ids].astype(float)
    want[m > 0] = (f / np.sqrt((f**2).mean(1, keepdims=True)) if c['norm'] else f).T
    close(cube, want, T, what='cube of influence functions')
    one = IFunc(F.copy(), mask=m.copy(), **({'idx_modes': ids} if c['ops'] else {}))
    same(one.influence_function, F[ids], 'influence functions selected by the constructor')
    new = rng.normal(size=f.shape).astype(DT)
    for o, v in zip(objs, (new, new.T, new.T)):
        o.set_value(v.copy())
        same(o.get_value(), v, 'value set')
    return f"ops{len(c['ops'])}"
