"""C24: calibrators."""
import os
from types import SimpleNamespace
from vlib.drive import *
from specula.data_objects.pixels import Pixels
from specula.data_objects.intensity import Intensity
from specula.data_objects.slopes import Slopes
from specula.data_objects.intmat import Intmat
from specula.data_objects.recmat import Recmat
from specula.data_objects.subap_data import SubapData
from specula.data_objects.pupdata import PupData
from specula.data_objects.pupilstop import Pupilstop
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.source import Source
from specula.processing_objects.dm import DM
from specula.processing_objects.modulated_pyramid import ModulatedPyramid
from specula.processing_objects.pyr_slopec import PyrSlopec
from specula.processing_objects.sh import SH
from specula.processing_objects.sh_slopec import ShSlopec
from specula.processing_objects.im_calibrator import ImCalibrator
from specula.processing_objects.multi_im_calibrator import MultiImCalibrator
from specula.processing_objects.rec_calibrator import RecCalibrator
from specula.processing_objects.multi_rec_calibrator import MultiRecCalibrator
from specula.processing_objects.sn_calibrator import SnCalibrator
from specula.processing_objects.sh_subap_calibrator import ShSubapCalibrator
from specula.processing_objects.pyr_pupdata_calibrator import PyrPupdataCalibrator
from specula.processing_objects.dynamic_pyr_pupdata_calibrator import DynamicPyrPupdataCalibrator
from specula.lib.mmse_reconstructor import compute_mmse_reconstructor
from specula.lib.modal_base_generator import compute_ifs_covmat

CHECK = Check('C24', 'Calibrators measure and store what was applied and seen', scale=1.5, assumptions=[
    'push-pull commands move one mode at a time; amplitudes between 1e-3 and 1e3',
    'frames of the subaperture calibrator are a whole number of pixels per lenslet; pyramid frames have even sides',
    'MMSE covariances are symmetric, positive definite and well conditioned (< 1e4)'])
RT = 3e-5 if PREC == 1 else 1e-10
seeds = st.integers(0, 99999)
tags = st.sampled_from(['cal', 'cal_1.fits', 'a.b'])


def slopes_feed(vals, stale=()):
    o = Slopes(len(vals[0]))

    def script(k, o):
        if k in stale:
            return False
        o.slopes = np.asarray(vals[k], dtype=DT)
        return True
    return o, script


def fits_name(tag):
    return tag if tag.endswith('.fits') else tag + '.fits'


class Where:
    """A data directory given as an absolute path, or relative to the current directory, existing or not."""
    def __init__(self, d, kind):
        self.d, self.kind, self.old = d, kind, os.getcwd()

    def __enter__(self):
        if self.kind == 'relative':
            os.chdir(self.d)
            return 'sub/data'
        if self.kind == 'there':
            return self.d
        return os.path.join(self.d, 'sub', 'data')

    def __exit__(self, *a):
        os.chdir(self.old)


where = st.sampled_from(['relative', 'there', 'new'])


def history(rng, steps, nact, zero):
    """Commands of a push-pull: one mode at a time (or none)."""
    cmd = np.zeros((steps, nact), dtype=DT)
    for k in range(steps):
        if rng.random() >= zero:
            cmd[k, rng.integers(nact)] = rng.choice([-1, 1]) * 10.0**rng.uniform(-3, 3)
    return cmd


@CHECK.family(st.fixed_dictionaries(dict(
    nmodes=st.integers(1, 6), first=st.integers(0, 4), beyond=st.integers(0, 3), ns=st.integers(1, 9), steps=st.integers(1, 24),
    zero=st.sampled_from([0, 0.2]), p_stale=st.sampled_from([0, 0, 0.3]), tag=tags, where=where, verbose=st.booleans(),
    again=st.booleans(), seed=seeds)), quick=400, thorough=6000, rule='some mode of the range is moved', double=0.3)
def push_pull(c):
    rng = rng_of(c['seed'])
    nact = c['first'] + c['nmodes'] + c['beyond']
    cmd = history(rng, c['steps'], nact, c['zero'])
    A = rng.normal(size=(c['ns'], nact))
    sl = [(A @ x + 0.01 * rng.normal(size=c['ns']) * np.abs(x).max()).astype(DT) for x in cmd]
    stale = [k for k in range(1, c['steps']) if rng.random() < c['p_stale']]
    acc, n = np.zeros((c['ns'], c['nmodes'])), np.zeros(c['nmodes'], dtype=int)
    live = []
    for k in range(c['steps']):
        if k not in stale and cmd[k].any():
            j = int(np.flatnonzero(cmd[k])[0])
            if c['first'] <= j < c['first'] + c['nmodes']:
                acc[:, j - c['first']] += sl[k].astype(float) / cmd[k, j]
                n[j - c['first']] += 1
        live.append(acc.copy())
    want = acc / np.maximum(n, 1)
    with Scratch() as d, Where(d, c['where']) as data:
        path = os.path.join(data, fits_name(c['tag']))
        obj = ImCalibrator(nmodes=c['nmodes'], data_dir=data, im_tag=c['tag'], first_mode=c['first'], overwrite=False)
        obj.verbose = c['verbose']
        sl_in = [x.copy() for x in sl]
        rec = drive(obj, {'in_slopes': slopes_feed(sl, stale), 'in_commands': value_feed([x.copy() for x in cmd])}, c['steps'], outs=['out_single_im'])
        for k in range(c['steps']):
            got = np.column_stack([np.asarray(v)[:, 0] for v, _ in rec['out_single_im'][k]])
            close(got, live[k], rtol=RT, atol=RT * (1 + np.abs(live[k]).max()), what=f'single matrices at step {k}')
            for _, fresh in rec['out_single_im'][k]:
                check(fresh == (k not in stale), 'freshness at step', k)
        close(np.asarray(obj.intmat.intmat), want, rtol=RT, atol=RT * (1 + np.abs(want).max()), what='interaction matrix')
        got = Intmat.restore(path)
        same(np.asarray(got.intmat), np.asarray(obj.intmat.intmat), 'stored matrix')
        for a, b in zip(sl, sl_in):
            same(a, b, 'input slopes')
        before = open(path, 'rb').read()
        if not c['again']:
            raises(lambda: ImCalibrator(nmodes=1, data_dir=data, im_tag=c['tag'], overwrite=False), 'existing file', FileExistsError)
            check(open(path, 'rb').read() == before, 'existing file changed')
        else:
            obj = ImCalibrator(nmodes=1, data_dir=data, im_tag=c['tag'], overwrite=True)
            drive(obj, {'in_slopes': slopes_feed([[2.0, 4.0]]), 'in_commands': value_feed([np.array([4.0])])}, 1, outs=[])
            close(np.asarray(Intmat.restore(path).intmat), np.array([[0.5], [1.0]]), rtol=1e-6, what='overwritten matrix')
    return 'trivial' if not n.any() else ('first_mode' if c['first'] else 'plain')


@CHECK.family(st.fixed_dictionaries(dict(
    nmodes=st.integers(1, 6), beyond=st.integers(0, 2), nss=st.lists(st.integers(1, 6), min_size=1, max_size=3), ndm=st.integers(1, 2),
    steps=st.integers(1, 16), zero=st.sampled_from([0, 0.2]), where=where, full=st.booleans(), rec=st.booleans(), modes=st.integers(1, 6),
    seed=seeds)), quick=250, thorough=4000, rule='some mode is moved', double=0.3)
def multi(c):
    """Several sensors, and the reconstructors computed from their matrices in the same run."""
    rng = rng_of(c['seed'])
    nact = c['nmodes'] + c['beyond']
    cmds = [np.zeros((c['steps'], nact), dtype=DT) for _ in range(c['ndm'])]
    all_ = history(rng, c['steps'], nact, c['zero'])
    who = rng.integers(0, c['ndm'], size=c['steps'])
    for k in range(c['steps']):
        cmds[who[k]][k] = all_[k]
    sls = [[(rng.normal(size=ns) * np.abs(x).max()).astype(DT) for x in all_] for ns in c['nss']]
    want, n = [np.zeros((ns, c['nmodes'])) for ns in c['nss']], np.zeros(c['nmodes'])
    for k in range(c['steps']):
        j = np.flatnonzero(all_[k])
        if len(j) and j[0] < c['nmodes']:
            n[j[0]] += 1
            for w, s in zip(want, sls):
                w[:, j[0]] += s[k].astype(float) / all_[k, j[0]]
    want = [w / np.maximum(n, 1) for w in want]
    names = [f'im{i}' for i in range(len(c['nss']))]
    with Scratch() as d, Where(d, c['where']) as data:
        obj = MultiImCalibrator(nmodes=c['nmodes'], n_inputs=len(names), data_dir=data, im_tag=names, full_im_tag='full' if c['full'] else None)
        extra = []
        if c['rec']:
            r = MultiRecCalibrator(nmodes=c['modes'], data_dir=os.path.join(data, 'rec'), rec_tag='rec', full_rec_tag='fullrec')
            r.inputs['intmat_list'].set(obj.outputs['out_intmat_list'])
            r.inputs['full_intmat'].set(obj.outputs['out_intmat_full'])
            extra = [r]
        drive(obj, {'in_slopes_list': [slopes_feed(s) for s in sls], 'in_commands_list': [value_feed(list(x)) for x in cmds]}, c['steps'],
              outs=[], extra=extra)
        for i, w in enumerate(want):
            got = np.asarray(Intmat.restore(os.path.join(data, names[i] + '.fits')).intmat)
            close(got, w, rtol=RT, atol=RT * (1 + np.abs(w).max()), what=f'matrix {i}')
            same(got, np.asarray(obj.outputs['out_intmat_list'][i].intmat), f'output {i}')
        W = np.vstack([np.asarray(x.intmat) for x in obj.outputs['out_intmat_list']])
        same(np.asarray(obj.outputs['out_intmat_full'].intmat), W, 'full matrix')
        if c['full']:
            same(np.asarray(Intmat.restore(os.path.join(data, 'full.fits')).intmat), W, 'stored full matrix')
        if c['rec']:
            for i, x in enumerate(obj.outputs['out_intmat_list']):
                is_pinv(np.asarray(Recmat.restore(os.path.join(data, 'rec', f'rec{i}.fits')).recmat), np.asarray(x.intmat)[:, :c['modes']])
            is_pinv(np.asarray(Recmat.restore(os.path.join(data, 'rec', 'fullrec.fits')).recmat), W[:, :c['modes']])
            raises(lambda: MultiRecCalibrator(nmodes=1, data_dir=os.path.join(data, 'rec'), full_rec_tag='fullrec'), 'existing file', FileExistsError)
        raises(lambda: MultiImCalibrator(nmodes=1, n_inputs=1, data_dir=data, im_tag=names), 'existing file', FileExistsError)
    return 'trivial' if not n.any() else ('with reconstructor' if c['rec'] else 'matrices')


def is_pinv(R, A):
    """The four Moore-Penrose conditions, up to the conditioning of A."""
    A, R = A.astype(float), R.astype(float)
    check(R.shape == A.shape[::-1], 'shape of the reconstructor', R.shape, A.shape)
    s = np.linalg.svd(A, compute_uv=False)
    e = 1e-5 if PREC == 1 else 1e-11
    s0 = s.max(initial=0)
    if s0 == 0:
        check(not R.any(), 'pseudo-inverse of a null matrix')
        return
    good = s[s > 1e-3 * s0]
    if len(good) < len(s) and s[len(good)] > (1e-8 if PREC == 1 else 1e-16) * s0:
        raise Skip()       # near the rank cut of the inversion
    tol = e * (s0 / good[-1])**2 * 10
    P, Q = A @ R, R @ A
    close(P @ A, A, rtol=0, atol=tol * s0, what='A R A = A')
    close(Q @ R, R, rtol=0, atol=tol / good[-1], what='R A R = R')
    close(P, P.T, rtol=0, atol=tol, what='A R symmetric')
    close(Q, Q.T, rtol=0, atol=tol, what='R A symmetric')


@CHECK.family(st.fixed_dictionaries(dict(
    nm=st.integers(1, 8), ns=st.integers(1, 12), use=st.sampled_from([None, 'less', 'same', 'more']), rank=st.sampled_from(['full', 'zero column', 'diagonal']),
    tag=tags, where=where, template=st.booleans(), scale=st.sampled_from([1, 1e-6, 1e6]), seed=seeds)), quick=250, thorough=4000, rule='more than one mode', double=0.3)
def rec(c):
    rng = rng_of(c['seed'])
    A = rng.normal(size=(c['ns'], c['nm'])).astype(DT) * DT(c['scale'])
    if c['rank'] == 'zero column':
        A[:, rng.integers(c['nm'])] = 0
    elif c['rank'] == 'diagonal':
        A = np.diag(np.diag(A)) if c['ns'] == c['nm'] else A * np.eye(c['ns'], c['nm'], dtype=DT)
    use = {None: None, 'less': max(1, c['nm'] // 2), 'same': c['nm'], 'more': c['nm'] + 3}[c['use']]
    im = Intmat(A.copy(), norm_factor=0.5)
    with Scratch() as d, Where(d, c['where']) as data:
        kw = dict(rec_tag='auto', tag_template=c['tag']) if c['template'] else dict(rec_tag=c['tag'])
        obj = RecCalibrator(nmodes=use, data_dir=data, **kw)
        obj.inputs['in_intmat'].set(im)
        obj.setup()
        obj.finalize()
        same(np.asarray(im.intmat), A, 'interaction matrix')
        path = os.path.join(data, fits_name(c['tag']))
        R = np.asarray(Recmat.restore(path).recmat)
        is_pinv(R, A[:, :use])
        before = open(path, 'rb').read()
        raises(lambda: RecCalibrator(nmodes=use, data_dir=data, **kw), 'existing file', FileExistsError)
        check(open(path, 'rb').read() == before, 'existing file changed')
    return 'trivial' if c['nm'] == 1 else str(c['use'])


def spd(rng, n, scale, kind):
    if kind == 'diagonal':
        return np.diag(rng.uniform(0.2, 2, size=n)) * scale
    M = rng.normal(size=(n, n))
    return (M @ M.T / n + 0.2 * np.eye(n)) * scale


@CHECK.family(st.fixed_dictionaries(dict(
    nm=st.integers(1, 7), nwfs=st.integers(1, 3), ns=st.integers(1, 6), noise=st.sampled_from(['none', 'variances', 'diagonal', 'full']),
    atm=st.sampled_from(['diagonal', 'full']), inv=st.booleans(), sa=st.sampled_from([1e-14, 1e-6, 1, 1e6]), sn=st.sampled_from([1e-14, 1e-6, 1, 1e6]),
    seed=seeds)), quick=500, thorough=8000, rule='a full covariance is used')
def mmse(c):
    """(A' Cz^-1 A + Cx^-1) W = A' Cz^-1, from the definition."""
    rng = rng_of(c['seed'])
    n = c['ns'] * c['nwfs']
    # slopes and modes in units such that neither term is negligible
    A = rng.normal(size=(n, c['nm'])) * np.sqrt((1 if c['noise'] == 'none' else c['sn']) / c['sa'])
    Cx = spd(rng, c['nm'], c['sa'], c['atm'])
    if c['noise'] == 'none':
        Cz, kw = np.eye(n), {}
    elif c['noise'] == 'variances':
        v = rng.uniform(0.2, 2, size=c['nwfs']) * c['sn']
        Cz, kw = np.diag(np.repeat(v, c['ns'])), dict(noise_variance=list(v))
    else:
        Cz = spd(rng, n, c['sn'], c['noise'])
        kw = dict(c_noise=Cz)
    give = Cx
    if c['inv']:
        give = np.linalg.inv(Cx)
        kw = {} if c['noise'] == 'none' else dict(c_noise=np.linalg.inv(Cz))
    W = compute_mmse_reconstructor(A, give, np, np.float64, c_inverse=c['inv'], **kw)
    # the other form: W = Cx A' (A Cx A' + Cz)^-1
    want = Cx @ A.T @ np.linalg.inv(A @ Cx @ A.T + Cz)
    close(W, want, rtol=1e-8, atol=1e-8 * np.abs(want).max(), what='MMSE reconstructor')
    raises(lambda: compute_mmse_reconstructor(A, np.eye(c['nm'] + 1), np, np.float64), 'wrong covariance', ValueError)
    return 'trivial' if c['atm'] == 'diagonal' and c['noise'] != 'full' else c['noise'] + (' inverse' if c['inv'] else '')


@CHECK.family(st.fixed_dictionaries(dict(
    n=st.integers(6, 12), nif=st.integers(3, 6), nm=st.integers(2, 6), ns=st.integers(2, 9), use=st.integers(1, 6),
    noise=st.sampled_from(['scalar', 'list1', 'list', 'array1', 'vector', 'matrix', 'full']), m2c=st.booleans(), sn=st.sampled_from([1e-12, 1e-4, 1]),
    r0=st.sampled_from([0.05, 0.15]), L0=st.sampled_from([10.0, 25.0]), pitch=st.sampled_from([0.02, 0.1]), seed=seeds)),
    quick=120, thorough=2000, rule='several modes', double=1)
def rec_mmse(c):
    rng = rng_of(c['seed'])
    n = c['n']
    mask = (np.hypot(*(np.mgrid[:n, :n] - (n - 1) / 2)) < n / 2).astype(DT)
    F = rng.normal(size=(c['nif'], int(mask.sum()))).astype(DT)
    nm = min(c['nm'], c['nif'])
    m2c = rng.normal(size=(c['nif'], nm)).astype(DT) if c['m2c'] else None
    modes = m2c.T @ F if c['m2c'] else F
    use = min(c['use'], modes.shape[0])
    # the calibrated matrix may have fewer columns than the base has modes
    A = rng.normal(size=(c['ns'], use + (c['seed'] % 2) * min(1, modes.shape[0] - use)))
    Cx = np.asarray(compute_ifs_covmat(mask, c['pitch'] * n, modes, c['r0'], c['L0'], oversampling=2, dtype=np.float64))[:use, :use]
    if np.linalg.cond(Cx) > 1e4:
        raise Skip()
    A = (A * np.sqrt(c['sn'] / np.trace(Cx))).astype(DT)
    v = rng.uniform(0.3, 2, size=c['ns']) * c['sn']
    noise, Cz = {
        'scalar': (v[0], np.eye(c['ns']) * v[0]), 'list1': ([v[0]], np.eye(c['ns']) * v[0]), 'array1': (np.array([v[0]]), np.eye(c['ns']) * v[0]),
        'list': (list(v), np.diag(v)), 'vector': (v, np.diag(v)), 'matrix': (np.diag(v), np.diag(v)),
        'full': (None, None)}[c['noise']]
    if c['noise'] == 'full':
        noise = Cz = spd(rng, c['ns'], c['sn'], 'full')
    dm = SimpleNamespace(pixel_pitch=c['pitch'], pixel_pupil=n, ifunc=F, mask=mask, m2c=m2c)
    with Scratch() as d:
        obj = RecCalibrator(nmodes=use, data_dir=d, rec_tag='r', mmse=True, r0=c['r0'], L0=c['L0'], dm=dm, noise_cov=noise)
        im = Intmat(A.copy())
        obj.inputs['in_intmat'].set(im)
        obj.setup()
        obj.finalize()
        W = np.asarray(Recmat.restore(os.path.join(d, 'r.fits')).recmat)
    B = A[:, :use].astype(float)
    want = Cx @ B.T @ np.linalg.inv(B @ Cx @ B.T + Cz)
    close(W, want, rtol=1e-3 if PREC == 1 else 1e-6, atol=(3e-3 if PREC == 1 else 1e-6) * np.abs(want).max(), what='MMSE reconstructor')
    return 'trivial' if use == 1 else c['noise']


@CHECK.family(st.fixed_dictionaries(dict(
    ns=st.integers(1, 12), steps=st.integers(1, 12), kind=st.sampled_from(['noise', 'constant', 'large']), p_stale=st.sampled_from([0, 0.3]),
    tag=tags, where=where, template=st.booleans(), seed=seeds)), quick=200, thorough=3000, rule='more than one frame', double=0.3)
def slope_null(c):
    rng = rng_of(c['seed'])
    sl = [rng.normal(size=c['ns']).astype(DT) for _ in range(c['steps'])]
    if c['kind'] == 'constant':
        sl = [sl[0].copy() for _ in sl]
    elif c['kind'] == 'large':
        sl = [s * DT(1e4) for s in sl]
    stale = [k for k in range(1, c['steps']) if rng.random() < c['p_stale']]
    keep = [s.copy() for s in sl]
    with Scratch() as d, Where(d, c['where']) as data:
        kw = dict(output_tag='auto', tag_template=c['tag']) if c['template'] else dict(output_tag=c['tag'])
        obj = SnCalibrator(data_dir=data, **kw)
        drive(obj, {'in_slopes': slopes_feed(sl, stale)}, c['steps'])
        got = np.asarray(Slopes.restore(os.path.join(data, fits_name(c['tag']))).slopes)
        want = np.mean([s.astype(float) for k, s in enumerate(keep) if k not in stale], axis=0)
        close(got, want, rtol=RT, atol=RT * np.abs(keep).max(), what='slope null')
        for a, b in zip(sl, keep):
            same(a, b, 'input slopes')
        raises(lambda: SnCalibrator(data_dir=data, **kw), 'existing file', FileExistsError)
    return 'trivial' if c['steps'] - len(stale) < 2 else c['kind']


@CHECK.family(st.fixed_dictionaries(dict(
    n=st.integers(1, 7), npx=st.integers(1, 6), th=st.sampled_from([0.1, 0.3, 0.5, 0.9]), frames=st.integers(1, 3), pixels=st.booleans(),
    tag=tags, where=where, pupil=st.booleans(), seed=seeds)), quick=300, thorough=5000, rule='some lenslet is below the threshold', double=0.2)
def sh_subaps(c):
    rng = rng_of(c['seed'])
    n, q = c['n'], c['npx']
    N = n * q
    fr = []
    for _ in range(c['frames']):
        f = rng.uniform(0, 1, size=(n, n))
        if c['pupil']:
            f = f * 0.3 + (np.hypot(*(np.mgrid[:n, :n] - (n - 1) / 2)) < n / 2)
        fr.append((np.kron(f, np.ones((q, q))) * rng.uniform(0.5, 1.5, size=(N, N)) * 1000).astype(DT))
    cls, attr = (Pixels, 'pixels') if c['pixels'] else (Intensity, 'i')
    o = cls(N, N)

    def script(k, o):
        setattr(o, attr, fr[k].copy())
        return True
    with Scratch() as d, Where(d, c['where']) as data:
        obj = ShSubapCalibrator(n, data, c['th'], output_tag=c['tag'])
        drive(obj, {'in_pixels' if c['pixels'] else 'in_i': (o, script)}, c['frames'])
        got = SubapData.restore(os.path.join(data, fits_name(c['tag'])))
        flux = fr[-1].astype(float).reshape(n, q, n, q).sum((1, 3))
        if np.abs(flux / flux.max() - c['th']).min() < 1e-5:
            raise Skip()
        lit = flux > c['th'] * flux.max()
        check(got.n_subaps == lit.sum() and got.np_sub == q and got.nx == got.ny == n, 'size', got.n_subaps, lit.sum(), got.np_sub)
        m = np.zeros(n * n, dtype=bool)
        m[np.asarray(got.display_map)] = True
        same(m.reshape(n, n), lit, 'display map')
        same(np.asarray(got.single_mask()).astype(bool), lit, 'mask')
        check(abs(got.energy_th - c['th']) < 1e-6, 'threshold')
        pos = np.arange(N * N).reshape(n, q, n, q)
        for k, s in enumerate(np.asarray(got.display_map)):
            same(np.asarray(got.idxs)[k], pos[s // n, :, s % n].ravel(), f'pixels of subaperture {k}')
        if not lit.all():
            obj = ShSubapCalibrator(n, data, 1.0, output_tag='none')
            raises(lambda: drive(obj, {'in_pixels' if c['pixels'] else 'in_i': (o, lambda k, o: True)}, 1), 'no subaperture', ValueError)
        obj = ShSubapCalibrator(n, data, c['th'], output_tag=c['tag'])
        before = open(os.path.join(data, fits_name(c['tag'])), 'rb').read()
        raises(lambda: drive(obj, {'in_pixels' if c['pixels'] else 'in_i': (o, lambda k, o: True)}, 1), 'existing file', OSError)
        check(open(os.path.join(data, fits_name(c['tag'])), 'rb').read() == before, 'existing file changed')
    return 'trivial' if lit.all() else 'selected'


def pupils_frame(rng, c, dtype):
    """Four pupils, one per quadrant, with their true centres (x, y) in the order of the quadrants."""
    h, w = c['h'] * 2, c['h'] * 2 + 2 * c['dw']
    y, x = np.mgrid[:h, :w]
    f = np.zeros((h, w))
    r = c['h'] * c['size'] / 2
    cs = []
    for j, i in ((0, 0), (0, 1), (1, 0), (1, 1)):
        lo = np.array([w // 2 - (1 - i) * c['h'], j * c['h']]) + r + 0.5
        hi = lo + c['h'] - 1 - 2 * r - 1
        p = (lo + hi) / 2 + rng.uniform(-1, 1, size=2) * np.maximum(0, (hi - lo) / 2) * c['off']
        if c['grid']:
            p = np.round(p)
        cs.append(p)
        d = np.hypot(x - p[0], y - p[1])
        f = np.where((d <= r) & (d >= c['obs'] * r), 100 * (1 - c['taper'] * d / r), f)
    if c['ripple']:
        f *= rng.uniform(0.8, 1.2, size=f.shape)
    return np.asarray(f + c['bg'], dtype=dtype), np.array(cs), r


def measure(quad, thr1, thr2):
    """Pupil of a quadrant: every pixel is thresholded twice."""
    lo, hi = quad.min(), quad.max()
    s1 = lo + (hi - lo) * thr1
    kept = np.where(quad < s1, 0, quad)
    pos = kept[kept > 0]
    s2 = pos.mean() * thr2
    for s, a in ((s1, quad), (s2, kept)):
        if (np.abs(a - s) < 1e-5 * hi).any():
            raise Skip()
    m = kept >= s2
    y, x = np.nonzero(m)
    return np.array([x.mean(), y.mean()]), np.sqrt(m.sum() / np.pi)


@CHECK.family(st.fixed_dictionaries(dict(
    h=st.integers(8, 24), dw=st.sampled_from([0, 0, 3]), size=st.sampled_from([0.5, 0.7, 0.85]), off=st.sampled_from([0, 0.7]), grid=st.booleans(), obs=st.sampled_from([0, 0, 0.3]),
    ripple=st.booleans(), taper=st.sampled_from([0, 0.5, 0.95]), moving=st.booleans(), bg=st.sampled_from([0, 2]), thr1=st.sampled_from([0.1, 0.3]), thr2=st.sampled_from([0.25, 0.6]), sfi=st.booleans(),
    auto=st.booleans(), dt=st.sampled_from([None, 1, 2, 3]), steps=st.integers(1, 7), pixels=st.booleans(), dyn=st.booleans(),
    change=st.booleans(), seed=seeds)), quick=300, thorough=4000, rule='the pupils are not at the centre of their quadrants', double=0.3)
def pyr_pupils(c):
    rng = rng_of(c['seed'])
    base, cs, r = pupils_frame(rng, c, DT)
    other = pupils_frame(rng, c, DT)[0] if c['moving'] else base
    fr = [np.asarray((base if k % 3 else other) * DT(rng.uniform(0.5, 2)), dtype=DT) for k in range(c['steps'])]
    h, w = base.shape
    cls, attr = (Pixels, 'pixels') if c['pixels'] else (Intensity, 'i')
    o = cls(w, h)

    def script(k, o):
        setattr(o, attr, fr[k].copy())
        return True
    feeds = {'in_pixels' if c['pixels'] else 'in_i': (o, script)}
    dt = 0.001
    thr = [(c['thr1'], c['thr2'])] * c['steps']
    kc = c['steps'] // 2
    change = c['dyn'] and c['change']
    if change:
        thr = [(c['thr1'], c['thr2']) if k < kc else (0.2, 0.5) for k in range(c['steps'])]
        feeds['in_thr1'] = value_feed([None] * kc + [0.2] + [None] * c['steps'])
        feeds['in_thr2'] = value_feed([None] * kc + [0.5] + [None] * c['steps'])
        ask = BaseValue()

        def name(k, o):
            o.value = 'snap'
            return k == kc
        feeds['in_save'] = (ask, name)
    with Scratch() as d:
        kw = dict(data_dir=d, dt=None if c['dt'] is None else c['dt'] * dt, thr1=c['thr1'], thr2=c['thr2'], slopes_from_intensity=c['sfi'],
                  output_tag='pup', auto_detect_obstruction=c['auto'])
        obj = (DynamicPyrPupdataCalibrator if c['dyn'] else PyrPupdataCalibrator)(**kw)
        got, ratio = [], []

        def spy(k, t):
            p = obj.pupdata
            got.append((np.array(p.ind_pup), np.array(p.radius), np.array(p.cx), np.array(p.cy), tuple(np.array(p.framesize)), p.generation_time == t))
            ratio.append(obj.central_obstruction_ratio)
        drive(obj, feeds, c['steps'], dt=dt, outs=[], extra=[Look(spy)])
        acc = np.zeros((h, w))
        last = None
        for k in range(c['steps']):
            acc = (acc.astype(DT) + fr[k]).astype(float)
            due = c['dt'] is None or k % c['dt'] == 0
            check(got[k][-1] == due, 'pupil data written at step', k)
            if due:
                last = expect(acc, c, *thr[k], ratio[k])
                acc = np.zeros((h, w))
                if not (c['auto'] and c['obs']):
                    check(ratio[k] == 0, 'obstruction of a filled pupil', ratio[k])
                elif r * c['obs'] >= 2:
                    check(0 < ratio[k] <= c['obs'] + 0.05, 'obstruction', ratio[k])
            if last is not None:
                ind, rad, cx, cy, shape, _ = got[k]
                close(rad, last[1], rtol=1e-5, what='radius')
                close(cx, last[2], rtol=1e-5, what='cx')
                close(cy, last[3], rtol=1e-5, what='cy')
                check(shape == (h, w), 'frame size', shape)
                same(ind, last[0], 'pupil pixels')
        # the pupils are where they were drawn
        if not c['ripple'] and c['grid'] and not c['moving']:
            close(np.stack([last[2], last[3]], -1), cs[[1, 0, 2, 3]], rtol=0, atol=1e-4, what='true centres')
        p = PupData.restore(os.path.join(d, 'pup.fits'))
        same(np.asarray(p.ind_pup), got[-1][0], 'stored indices')
        check(p.slopes_from_intensity == c['sfi'], 'kind of indices stored')
        if change:
            p = PupData.restore(os.path.join(d, 'snap.fits'))
            same(np.asarray(p.ind_pup), got[kc][0], 'indices stored on request')
    return 'trivial' if c['off'] == 0 else ('intensity' if c['sfi'] else 'geometric')


def expect(image, c, thr1, thr2, ratio):
    h, w = image.shape
    q = min(h // 2, w // 2)
    cen, rad = [], []
    for j, i in ((0, 0), (0, 1), (1, 0), (1, 1)):
        y0, x0 = h // 2 - (1 - j) * q, w // 2 - (1 - i) * q
        p, r = measure(image[y0:y0 + q, x0:x0 + q], thr1, thr2)
        cen.append(p + [x0, y0])
        rad.append(r)
    y, x = np.mgrid[:h, :w]

    def disc(p, r):
        d = np.hypot(x - p[0], y - p[1])
        if (np.abs(d - r) < 1e-9).any() or (ratio and (np.abs(d - r * ratio) < 1e-9).any()):
            raise Skip()
        return np.argwhere((d <= r) & (d >= r * ratio))
    cols = []
    if c['sfi']:
        for p, r in zip(cen, rad):
            m = disc(p, r)
            cols.append(m[:, 0] * w + m[:, 1])
    else:
        m = disc(cen[0], max(rad))
        for p in cen:
            t = p - cen[0]
            if (np.abs(np.abs(t - np.floor(t)) - 0.5) < 1e-6).any():
                raise Skip()
            s = m + np.round(t).astype(int)[::-1]
            s = s[(s >= 0).all(1) & (s[:, 0] < h) & (s[:, 1] < w)]
            cols.append(s[:, 0] * w + s[:, 1])
    ind = np.full((max(map(len, cols)), 4), -1)
    for k, v in enumerate(cols):
        ind[:len(v), k] = v
    order = [1, 0, 2, 3]
    cen, rad = np.array(cen), np.array(rad)
    return ind[:, order], rad[order], cen[order, 0], cen[order, 1]


@CHECK.family(st.fixed_dictionaries(dict(
    ns=st.integers(1, 6), nm=st.integers(1, 6), ops=st.lists(st.tuples(st.sampled_from(
        ['nmodes', 'nslopes', 'less modes', 'less slopes', 'start', 'set mode', 'set slopes', 'add', 'io', 'value']), st.integers(0, 8), st.integers(0, 5)), min_size=1, max_size=10),
    seed=seeds)), quick=400, thorough=8000, rule='three operations or more', double=0.2)
def matrix_history(c):
    """Intmat against a plain array."""
    rng = rng_of(c['seed'])
    M = rng.normal(size=(c['ns'], c['nm'])).astype(DT)
    im = Intmat(M.copy(), pupdata_tag='p', subapdata_tag='s', norm_factor=2.0)
    with Scratch() as d:
        for op, a, b in c['ops']:
            if op == 'nmodes' and a > 0:
                im.set_nmodes(a)
                M = np.hstack([M, np.zeros((len(M), max(0, a - M.shape[1])), dtype=DT)])[:, :a]
            elif op == 'nslopes' and a > 0:
                im.set_nslopes(a)
                M = np.vstack([M, np.zeros((max(0, a - len(M)), M.shape[1]), dtype=DT)])[:a]
            elif op == 'less modes':
                if a >= M.shape[1]:
                    raises(lambda: im.reduce_size(a), 'too many modes', ValueError)
                else:
                    im.reduce_size(a)
                    M = M[:, :M.shape[1] - a]
            elif op == 'less slopes':
                if a >= len(M):
                    raises(lambda: im.reduce_slopes(a), 'too many slopes', ValueError)
                else:
                    im.reduce_slopes(a)
                    M = M[:len(M) - a]
            elif op == 'start':
                if a >= M.shape[1]:
                    raises(lambda: im.set_start_mode(a), 'too many modes', ValueError)
                else:
                    im.set_start_mode(a)
                    M = M[:, a:]
            elif op == 'set mode':
                v = rng.normal(size=len(M)).astype(DT)
                im.modes[a % M.shape[1]] = v
                M = M.copy()
                M[:, a % M.shape[1]] = v
            elif op == 'set slopes':
                v = rng.normal(size=M.shape[1]).astype(DT)
                im.slopes[a % len(M)] = v
                M = M.copy()
                M[a % len(M)] = v
            elif op == 'add':
                im.modes[a % M.shape[1]] += DT(b)
                M = M.copy()
                M[:, a % M.shape[1]] += DT(b)
            elif op == 'io':
                im.save(os.path.join(d, 'x.fits'), overwrite=True)
                im = Intmat.restore(os.path.join(d, 'x.fits'))
                check((im.pupdata_tag, im.subapdata_tag, im.norm_factor) == ('p', 's', 2.0), 'tags')
            else:
                M = rng.normal(size=M.shape).astype(DT)
                im.set_value(M.copy())
            check((im.nslopes, im.nmodes) == M.shape, 'size', op, im.nslopes, im.nmodes, M.shape)
            same(np.asarray(im.get_value()), M, op)
            same(np.asarray(im.modes[b % M.shape[1]]), M[:, b % M.shape[1]], 'column after ' + op)
            same(np.asarray(im.slopes[b % len(M)]), M[b % len(M)], 'row after ' + op)
        r = Recmat(M.T.copy())
        k = c['ops'][0][1]
        if k < M.shape[1]:
            r.reduce_size(k)
            same(np.asarray(r.recmat), M.T[:M.shape[1] - k], 'reduced reconstructor')
        else:
            raises(lambda: r.reduce_size(k), 'too many modes', ValueError)
    return 'trivial' if len(c['ops']) < 3 else 'history'


@CHECK.family(st.fixed_dictionaries(dict(ns=st.integers(1, 6), nm=st.integers(1, 5), steps=st.integers(1, 15), seed=seeds)),
              quick=150, thorough=2500, rule='a mode is measured twice', double=0.3)
def from_slopes(c):
    rng = rng_of(c['seed'])
    cmd = history(rng, c['steps'], c['nm'], 0).astype(float)
    sl = {k * 10: rng.normal(size=c['ns']) * np.abs(x).max() for k, x in enumerate(cmd)}
    im = Intmat.build_from_slopes(sl, {k * 10: x for k, x in enumerate(cmd)})
    want, n = np.zeros((c['ns'], c['nm'])), np.zeros(c['nm'])
    for k, x in enumerate(cmd):
        j = np.flatnonzero(x)[0]
        want[:, j] += sl[k * 10] / x[j]
        n[j] += 1
    want /= np.maximum(n, 1)
    close(np.asarray(im.intmat), want, rtol=RT, atol=RT * (1 + np.abs(want).max()), what='matrix from slopes')
    return 'trivial' if n.max() < 2 else 'built'


if __name__ == '__main__':
    CHECK.main()


AUTO = dict(nsub=st.integers(2, 5), wl=st.sampled_from([500, 750, 750.5]), fov=st.sampled_from([2.0, 2.04, 4.0]), pp=st.sampled_from([20, 40]),
            pitch=st.sampled_from([0.05, 0.051, 0.1]), r=st.integers(0, 400).map(lambda v: v / 20), theta=st.integers(0, 400).map(lambda v: v / 20),
            h=st.sampled_from([float('inf'), 90000.0, 90000.04, 1e5]), nm=st.integers(1, 6), first=st.integers(0, 3),
            md=st.integers(80, 100).map(lambda v: v / 100), obs=st.integers(0, 20).map(lambda v: v / 100),
            sx=st.integers(-30, 30).map(lambda v: v / 20), sy=st.integers(-30, 30).map(lambda v: v / 20),
            rot=st.integers(0, 200).map(lambda v: v / 20), mag=st.integers(90, 110).map(lambda v: v / 100), pyr=st.booleans())


def auto_names(c, d, multi):
    """Names of the files an automatic calibration of configuration c writes in d."""
    sp = SimulParams(pixel_pupil=c['pp'], pixel_pitch=c['pitch'])
    kw = dict(pupilstop=Pupilstop(sp, mask_diam=c['md'], obs_diam=c['obs'], shiftXYinPixel=(c['sx'], c['sy']), rotInDeg=c['rot'], magnification=c['mag']),
              dm=DM(sp, type_str='zernike', nmodes=6, obsratio=0.0, height=0))
    src = Source(polar_coordinates=[c['r'], c['theta']], magnitude=8, wavelengthInNm=c['wl'], height=c['h'])
    if c['pyr']:
        wfs = ModulatedPyramid(sp, pup_diam=2 * c['nsub'], wavelengthInNm=c['wl'], fov=c['fov'], output_resolution=40, min_pup_dist=0, pup_dist=12)
        slopec = PyrSlopec(PupData(ind_pup=np.arange(8).reshape(2, 4), framesize=(4, 4)))
    else:
        wfs = SH(subap_on_diameter=c['nsub'], subap_wanted_fov=c['fov'], wavelengthInNm=c['wl'], sensor_pxscale=0.5, subap_npx=8)
        slopec = ShSlopec(SubapData(np.arange(16).reshape(4, 4), np.arange(4), 2, 2))
    if multi:
        m = MultiImCalibrator(c['nm'], 1, d, im_tag='auto', pupilstop=kw['pupilstop'], dm=kw['dm'], source_dict={'a': src}, sensor_dict={'a': wfs}, slopec_dict={'a': slopec})
        return m.im_paths[0]
    return ImCalibrator(c['nm'], d, im_tag='auto', first_mode=c['first'], source=src, sensor=wfs, slopec=slopec, **kw).im_path


@CHECK.family(st.fixed_dictionaries(dict(a=st.fixed_dictionaries(AUTO), b=st.fixed_dictionaries(AUTO), key=st.sampled_from(sorted(AUTO)), near=st.booleans(), multi=st.booleans())),
              quick=100, thorough=2000, rule='the two configurations differ', double=0.2)
def auto_tags(c):
    """Configurations which differ in one of the parameters named in the automatic tag (sensor, wavelength, field of view, pupil, pitch, source position and height,
    modes, and size, obstruction, shift, rotation and magnification of the stop) get different file names; equal ones get the same name."""
    a, key = dict(c['a']), c['key']
    if a['r'] == 0 and key == 'theta' or key == 'first' and c['multi']:
        return False
    b = dict(a, **{key: c['b'][key]})
    if c['near'] and key in ('r', 'theta', 'h', 'md', 'obs', 'sx', 'sy', 'rot', 'mag') and a[key] < 1e6:
        b[key] = round(a[key] + 0.03, 3)
    with Scratch() as d:
        names = [auto_names(v, d, c['multi']) for v in (a, dict(a), b)]
    check(names[0] == names[1], f'two names for one configuration: {names[:2]}')
    check((names[0] == names[2]) == (a[key] == b[key]), f'{key} {a[key]} and {b[key]} give {os.path.basename(names[0])} and {os.path.basename(names[2])}')
    return key if a[key] != b[key] else False
