"""C17: slope computers."""
from vlib.drive import *
from specula.data_objects.pixels import Pixels
from specula.data_objects.slopes import Slopes
from specula.data_objects.subap_data import SubapData
from specula.data_objects.pupdata import PupData
from specula.data_objects.intmat import Intmat
from specula.data_objects.recmat import Recmat
from specula.processing_objects.sh_slopec import ShSlopec
from specula.processing_objects.pyr_slopec import PyrSlopec
from specula.processing_objects.double_roof_slopec import DoubleRoofSlopec
from specula.processing_objects.cur_wfs_slopec import CurWfsSlopec
from specula.processing_objects.zwfs_slopec import ZwfsSlopec
from specula.processing_objects.ciao_ciao_slopec import CiaoCiaoSlopec

CHECK = Check('C17', 'Slope computers give the documented signals', scale=3, assumptions=[
    'pixel values are finite; the subaperture and pupil maps are valid (no -1 padding, no repeated index)',
    'no flux within 0.5% of the threshold under which a subaperture counts as dark, and no pixel within rounding of a threshold'])
RT = 2e-5 if PREC == 1 else 1e-10


def subaps(rng, npx, ny, nx, nsub, same_order):
    """idxs (nsub, npx**2) of a frame of ny x nx subapertures."""
    fy, fx = ny * npx, nx * npx
    m = np.sort(rng.choice(ny * nx, nsub, replace=False))
    if not same_order:
        m = rng.permutation(m)
    ids = []
    for k in m:
        i, j = divmod(k, nx)
        a = np.arange(fy * fx).reshape(fy, fx)[i * npx:(i + 1) * npx, j * npx:(j + 1) * npx]
        ids.append(a.ravel())
    return (fy, fx), np.array(ids), m


def frames(rng, shape, n, kind, dark_every=0):
    out = []
    for k in range(n):
        if kind == 'noise':
            f = rng.uniform(0, 100, size=shape)
        elif kind == 'negative':
            f = rng.normal(20, 15, size=shape)
        elif kind == 'sparse':
            f = rng.uniform(0, 100, size=shape) * (rng.random(shape) < 0.3)
        else:
            f = np.zeros(shape)
            f[tuple(rng.integers(0, s) for s in shape)] = 50.0
        if dark_every and k % dark_every == dark_every - 1:
            f = np.zeros(shape)
        out.append(np.asarray(f, dtype=DT))
    return out


def pix_feed(fr):
    o = Pixels(fr[0].shape[1], fr[0].shape[0])

    def script(k, o):
        o.pixels = fr[k].copy()
        return True
    return o, script


def sh_reference(stack, npx, exp_w, rad, window, thr):
    """stack (nsub, npx, npx) float64 -> sx, sy, thresholded flux, ambiguous"""
    c = (np.arange(npx) - (npx - 1) / 2) / (npx / 2)
    s = np.sign(c) * np.abs(c)**exp_w
    X, Y = np.meshgrid(s, s)
    if rad:
        p = np.arange(npx) - (npx - 1) / 2
        r2 = p[:, None]**2 + p[None, :]**2
        if window:
            w = (r2 < rad**2).astype(float)
        else:
            sig = 2 * rad / (2 * np.sqrt(2 * np.log(2)))
            w = np.exp(-r2 / (2 * sig**2))
            w /= w.max()
            w[w < 1e-6] = 0
    else:
        w = np.ones((npx, npx))
    f = np.maximum(stack - (thr if thr > 0 else 0), 0)
    tot = (f * w).sum((1, 2))
    mean = tot.mean()
    lim = 1e-3 * mean
    if np.any((np.abs(tot - lim) < 5e-3 * lim) & (lim > 0)):
        raise Skip
    ok = (tot > lim)
    d = np.where(ok, tot, 1)
    return np.where(ok, (f * w * X).sum((1, 2)) / d, 0), np.where(ok, (f * w * Y).sum((1, 2)) / d, 0), tot


def split(s, inter):
    return (s[0::2], s[1::2]) if inter else (s[:len(s) // 2], s[len(s) // 2:])


def filters(rng, n, how, kw):
    """Modes filtered out of the slopes: as two matrices in one array, or as objects of the library (modes by slopes)."""
    nf = int(rng.integers(1, 3))
    IM, RM = rng.normal(size=(n, nf)), rng.normal(size=(n, nf)) * 0.3
    if how == 'filt':
        kw['filtmat'] = np.stack([IM, RM]).astype(DT)
    elif how == 'objects':
        kw.update(filt_intmat=Intmat(IM.astype(DT)), filt_recmat=Recmat(RM.T.astype(DT)))
    else:
        return np.zeros((n, nf)), np.zeros((n, nf))
    return IM, RM


SH = st.fixed_dictionaries({'npx': st.integers(2, 9), 'ny': st.integers(1, 4), 'nx': st.integers(1, 4), 'order': st.booleans(),
    'kind': st.sampled_from(['noise', 'negative', 'sparse', 'spot']), 'dark': st.sampled_from([0, 0, 2, 3]), 'inter': st.booleans(),
    'exp': st.sampled_from([1.0, 1.0, 0.5, 1.3, 2.0]), 'rad': st.sampled_from([0, 0, 0.7, 1.3, 2.2, 3.4]), 'window': st.booleans(), 'thr': st.sampled_from([-1, 0, 7.3, 30.6]),
    'sn': st.booleans(), 'filt': st.sampled_from(['no', 'no', 'filt', 'mat']), 'seed': st.integers(0, 10**6)})


@CHECK.family(SH, 150, 3000, rule='several frames through ShSlopec; counted when some subaperture has light', double=0.4)
def sh_slopes(c):
    rng = rng_of(c['seed'])
    npx = c['npx']
    n = c['ny'] * c['nx']
    ns = int(rng.integers(1, n + 1))
    shape, ids, m = subaps(rng, npx, c['ny'], c['nx'], ns, c['order'])
    fr = frames(rng, shape, 4, c['kind'], c['dark'])
    if np.any(np.abs(np.concatenate([f.ravel() for f in fr]) - max(c['thr'], 0)) < 1e-4 * (1 if c['thr'] > 0 else 0)):
        raise Skip
    rad = c['rad']
    if rad and c['window'] and rad < 0.5 * np.sqrt(2):
        rad = 1.3
    sd = SubapData(ids, m, c['ny'], c['nx'])
    kw = {}
    sn = rng.normal(size=2 * ns) * 0.3
    if c['sn']:
        kw['sn'] = Slopes(slopes=sn.astype(DT), interleave=c['inter'])
    IM, RM = filters(rng, 2 * ns, c['filt'], kw)
    s = ShSlopec(sd, thr_value=c['thr'], exp_weight=c['exp'], weightedPixRad=rad, windowing=c['window'], interleave=c['inter'], **kw)
    RMAT = rng.normal(size=(2 * ns, 2 * ns))
    if c['filt'] == 'mat':
        s.recmat = Recmat(RMAT.astype(DT))
    rec = drive(s, {'in_pixels': pix_feed(fr)}, len(fr), outs=['out_slopes', 'out_flux_per_subaperture', 'out_total_counts', 'out_subap_counts'])
    lit = False
    for k, f in enumerate(fr):
        g = f.astype(float)
        stack = g.ravel()[ids].reshape(ns, npx, npx)
        flux = stack.sum((1, 2))
        (sl, fresh) = rec['out_slopes'][k]
        check(fresh, 'slopes not refreshed')
        close(rec['out_flux_per_subaperture'][k][0], flux, RT, what='flux per subaperture', scale=100 * npx**2)
        close(rec['out_total_counts'][k][0][0], flux.sum(), RT, what='total counts', scale=100 * npx**2 * ns)
        close(rec['out_subap_counts'][k][0][0], flux.sum() / ns, RT, what='mean counts', scale=100 * npx**2)
        sx, sy, tot = sh_reference(stack, npx, c['exp'], rad, c['window'], c['thr'])
        lit = lit or tot.max() > 0
        want = np.zeros(2 * ns)
        if c['inter']:
            want[0::2], want[1::2] = sx, sy
        else:
            want[:ns], want[ns:] = sx, sy
        if c['sn']:
            want = want - sn
        amp = np.abs(want).max() + 1
        if c['filt'] == 'mat':
            want = want @ RMAT; amp *= np.abs(RMAT).sum(0).max()
        if c['filt'] == 'filt':
            want = want - (want @ RM) @ IM.T; amp *= 1 + (np.abs(RM).sum(0).max() * np.abs(IM).max() * IM.shape[1])
        close(sl, want, 5 * RT, what=f'slopes of frame {k}', scale=amp)
    # the 2D view puts each slope at the place of its subaperture
    if c['filt'] != 'mat':
        d = s.outputs['out_slopes'].get2d()
        xs, ys = split(rec['out_slopes'][-1][0], c['inter'])
        wx, wy = np.zeros(n), np.zeros(n)
        wx[m], wy[m] = xs, ys
        same(np.asarray(d), np.stack([wx.reshape(c['ny'], c['nx']), wy.reshape(c['ny'], c['nx'])]), 'get2d')
    return 'lit' if lit else 'trivial'


@CHECK.family(st.fixed_dictionaries({'npx': st.integers(3, 8), 'ns': st.integers(1, 3), 'rows': st.integers(1, 3), 'gap': st.integers(1, 3), 'aslist': st.booleans(), 'window': st.booleans(),
    'seed': st.integers(0, 10**6)}), 40, 800, rule='weighting radius changing with time, as given by vecWeiPixRadT', double=0.3)
def sh_radius_schedule(c):
    rng = rng_of(c['seed'])
    npx, ns = c['npx'], c['ns']
    shape, ids, m = subaps(rng, npx, 1, ns, ns, True)
    steps = 8
    fr = frames(rng, shape, steps, 'noise')
    times = [0.0005 + 0.001 * (c['gap'] * i) for i in range(c['rows'])]
    radii = rng.choice([0.9, 1.6, 2.3, 3.1], c['rows'])
    rows = [[float(r), float(t)] for r, t in zip(radii, times)]
    s = ShSlopec(SubapData(ids, m, 1, ns), weightedPixRad=1.3, windowing=c['window'], vecWeiPixRadT=rows if c['aslist'] else np.array(rows))
    rec = drive(s, {'in_pixels': pix_feed(fr)}, steps, outs=['out_slopes'])
    for k in range(steps):
        rad = 1.3
        for r, t in rows:
            if k * 0.001 > t:
                rad = r
        sx, sy, _ = sh_reference(fr[k].astype(float).ravel()[ids].reshape(ns, npx, npx), npx, 1.0, rad, c['window'], -1)
        close(rec['out_slopes'][k][0], np.concatenate([sx, sy]), RT * 3, what=f'slopes with radius {rad} at step {k}', scale=1)
    return f'{c["rows"]} rows'


@CHECK.family(st.fixed_dictionaries({'npx': st.integers(3, 6), 'ns': st.integers(1, 3), 'every': st.integers(1, 4), 'window': st.booleans(), 'wthr': st.sampled_from([5.3, 40.7, 150.2]),
    'kind': st.sampled_from(['noise', 'sparse']), 'dark': st.sampled_from([0, 0, 2]), 'thr': st.sampled_from([-1, 7.3]), 'seed': st.integers(0, 10**6)}), 60, 1200,
    rule='pixel weights accumulated over a period; counted when a weight was computed', double=0.3)
def sh_pixel_weights(c):
    rng = rng_of(c['seed'])
    npx, ns, every = c['npx'], c['ns'], c['every']
    shape, ids, m = subaps(rng, npx, 1, ns, ns, True)
    steps = 3 * every + 2
    fr = frames(rng, shape, steps, c['kind'], c['dark'])
    s = ShSlopec(SubapData(ids, m, 1, ns), thr_value=c['thr'], weight_int_pixel_dt=every * 0.001, window_int_pixel=c['window'], window_int_threshold=c['wthr'])
    rec = drive(s, {'in_pixels': pix_feed(fr)}, steps, outs=['out_slopes', 'out_flux_per_subaperture'])
    acc = np.zeros(shape)
    w = np.ones((npx * npx, ns))
    reset, used = False, False
    for k in range(steps):
        if reset:
            acc = np.zeros(shape); reset = False
        acc = acc + fr[k].astype(float)
        if k % every == 0 and k >= every:
            reset = True
            a = acc.ravel()[ids].T
            a = a - a.min(0)
            mx = a.max(0)
            if c['window'] and np.any(np.abs(a - c['wthr']) < 1e-3):
                raise Skip
            used = True
            w = np.ones_like(a)
            for i in range(ns):
                if mx[i] > 0:
                    w[:, i] = ((a[:, i] >= c['wthr']) | (a[::-1, i] >= c['wthr'])) if c['window'] else a[:, i] / mx[i]
        px = fr[k].astype(float).ravel()[ids].T * w
        close(rec['out_flux_per_subaperture'][k][0], px.sum(0), 3 * RT, what=f'flux at step {k}', scale=100 * npx**2)
        if c['thr'] > 0 and np.any(np.abs(px - c['thr']) < 1e-3):
            raise Skip
        sx, sy, tot = sh_reference(px.T.reshape(ns, npx, npx), npx, 1.0, 0, False, c['thr'])
        if np.any((tot > 0) & (tot < 1)):
            raise Skip
        close(rec['out_slopes'][k][0], np.concatenate([sx, sy]), 1e-3 if PREC == 1 else 1e-9, what=f'weighted slopes at step {k}', scale=1)
    return 'weighted' if used else 'trivial'


def pupils(rng, side, half):
    """Four congruent pupils in the quadrants, in the order used by PupData."""
    y, x = np.mgrid[:side, :side]
    mask = rng.random((side, side)) < 0.7
    mask[side // 2, side // 2] = True
    ii = np.argwhere(mask)
    n = 2 * half
    offs = [(0, half), (0, 0), (half, 0), (half, half)]
    ind = np.stack([(ii[:, 0] + oy) * n + ii[:, 1] + ox for oy, ox in offs], axis=1)
    return n, ind, ii


@CHECK.family(st.fixed_dictionaries({'side': st.integers(2, 7), 'gap': st.integers(0, 3), 'cls': st.sampled_from(['pyr', 'roof']), 'mode': st.sampled_from(['mean', 'mean', 'norm', 'shlike', 'intensity', 'norm0']),
    'kind': st.sampled_from(['noise', 'negative', 'sparse']), 'dark': st.sampled_from([0, 2, 3]), 'thr': st.sampled_from([0, 7.3, 60.6, 500.0]), 'inter': st.booleans(), 'sn': st.booleans(), 'filt': st.sampled_from(['no', 'no', 'no', 'filt', 'objects']),
    'seed': st.integers(0, 10**6)}), 200, 4000, rule='several frames through PyrSlopec and DoubleRoofSlopec; counted when there is light', double=0.4)
def pyr_slopes(c):
    rng = rng_of(c['seed'])
    n, ind, ii = pupils(rng, c['side'], c['side'] + c['gap'])
    ns = len(ind)
    fr = frames(rng, (n, n), 4, c['kind'], c['dark'])
    if np.any(np.abs(np.concatenate([f.ravel() for f in fr]) - c['thr']) < 1e-4) and c['thr'] > 0:
        raise Skip
    pd = PupData(ind_pup=ind, framesize=[n, n], radius=np.ones(4), cx=np.ones(4), cy=np.ones(4))
    kw = {}
    if c['mode'] == 'norm':
        kw['norm_factor'] = 37.5
    if c['mode'] == 'norm0':
        kw['norm_factor'] = 0
    if c['mode'] == 'shlike':
        kw['shlike'] = True
    if c['mode'] == 'intensity':
        kw['slopes_from_intensity'] = True
    nsl = 4 * ns if c['mode'] == 'intensity' else 2 * ns
    inter = c['inter']
    sn = rng.normal(size=nsl) * 0.3
    if c['sn']:
        kw['sn'] = Slopes(slopes=sn.astype(DT), interleave=inter)
    IM, RM = filters(rng, nsl, c['filt'], kw)
    s = (PyrSlopec if c['cls'] == 'pyr' else DoubleRoofSlopec)(pd, thr_value=c['thr'], interleave=inter, **kw)
    rec = drive(s, {'in_pixels': pix_feed(fr)}, 4, outs=['out_slopes', 'out_flux_per_subaperture', 'out_total_counts', 'out_subap_counts'])
    lit = False
    for k, f in enumerate(fr):
        g = np.maximum(f.astype(float) - c['thr'], 0).ravel()
        A, B, C, D = (g[ind[:, i]] for i in range(4))
        flux = A + B + C + D
        tot = flux.sum()
        lit = lit or tot > 0
        close(rec['out_flux_per_subaperture'][k][0], flux, RT, what='flux per subaperture', scale=400)
        close(rec['out_total_counts'][k][0][0], tot, RT, what='total counts', scale=400 * ns)
        close(rec['out_subap_counts'][k][0][0], tot / ns, RT, what='mean counts', scale=400)
        if c['mode'] == 'intensity':
            nf, sx, sy = tot / (4 * ns), np.concatenate([A, B]), np.concatenate([C, D])
        else:
            sx, sy = (A + B - C - D, B + C - A - D) if c['cls'] == 'pyr' else (A - B, D - C)
            nf = {'norm': 37.5, 'shlike': tot}.get(c['mode'], tot / ns)
        nf = nf if tot > 0 else 1
        want = np.zeros(nsl)
        if inter:
            want[0::2], want[1::2] = sx / nf, sy / nf
        else:
            want[:nsl // 2], want[nsl // 2:] = sx / nf, sy / nf
        if c['sn']:
            want = want - sn
        amp = max(1, np.abs(want).max(), 400 / nf) * (1 + np.abs(RM).sum(0).max() * np.abs(IM).max() * IM.shape[1])
        close(rec['out_slopes'][k][0], want - IM @ (RM.T @ want), 5 * RT, what=f'slopes of frame {k}', scale=amp)
    if c['mode'] != 'intensity':
        d = np.asarray(s.outputs['out_slopes'].get2d())
        h = c['side'] + c['gap']
        xs, ys = split(rec['out_slopes'][-1][0], inter)
        w = np.zeros((2, h, h))
        w[0][ii[:, 0], ii[:, 1]], w[1][ii[:, 0], ii[:, 1]] = xs, ys
        same(d, w.astype(d.dtype), 'get2d')
    elif not inter:
        d = np.asarray(s.outputs['out_slopes'].get2d())
        w = np.zeros(n * n)
        w[ind.T.ravel()] = rec['out_slopes'][-1][0]
        same(d, w.reshape(n, n).astype(d.dtype), 'get2d of intensities')
    return c['mode'] if lit else 'trivial'


@CHECK.family(st.fixed_dictionaries({'n': st.integers(6, 20), 'd': st.integers(4, 18), 'obs': st.sampled_from([0, 0, 0.2, 0.4]), 'cls': st.sampled_from(['cur', 'zwfs']),
    'kind': st.sampled_from(['noise', 'sparse']), 'dark': st.sampled_from([0, 2]), 'thr': st.sampled_from([0, 12.3]), 'sn': st.booleans(), 'seed': st.integers(0, 10**6)}), 80, 1600,
    rule='curvature and Zernike slope computers; counted when there is light', double=0.4)
def cur_zwfs(c):
    rng = rng_of(c['seed'])
    n, d = c['n'], min(c['d'], c['n'])
    p = np.arange(n) - (n - 1) / 2
    r2 = p[:, None]**2 + p[None, :]**2
    obs = c['obs'] if c['cls'] == 'zwfs' else 0
    lim = [(d / 2)**2, (d / 2 * obs)**2]
    if any(np.any((np.abs(r2 - L) < 1e-6) & (r2 > 0)) for L in lim):
        raise Skip
    mask = (r2 < lim[0]) & (r2 >= lim[1])
    ns = int(mask.sum())
    if ns == 0:
        raise Skip
    sn = rng.normal(size=ns)
    if ns % 2:
        kw = {}
    else:
        kw = {'sn': Slopes(slopes=sn.astype(DT))} if c['sn'] else {}
    fr = frames(rng, (n, n), 3, c['kind'], c['dark'])
    if c['cls'] == 'cur':
        fr2 = frames(rng, (n, n), 3, c['kind'], 3)
        s = CurWfsSlopec(diameter=d, ccd_size=(n, n), **kw)
        rec = drive(s, {'in_pixels1': pix_feed(fr), 'in_pixels2': pix_feed(fr2)}, 3)
    else:
        s = ZwfsSlopec(pup_diam=d, ccd_size=n, obsratio=c['obs'], thr_value=c['thr'], **kw)
        rec = drive(s, {'in_pixels': pix_feed(fr)}, 3)
    lit = False
    for k in range(3):
        a = fr[k].astype(float)[mask]
        if c['cls'] == 'cur':
            b = fr2[k].astype(float)[mask]
            flux = a + b
            want = np.where(flux > 0, (a - b) / np.where(flux > 0, flux, 1), 0)
        else:
            flux = a - c['thr']
            if 0 < abs(flux.mean()) < 1:
                raise Skip
            want = flux / (flux.mean() or 1)
        lit = lit or flux.max() > 0
        if kw:
            want = want - sn
        close(rec['out_flux_per_subaperture'][k][0], flux, RT, what='flux', scale=200)
        close(rec['out_total_counts'][k][0][0], flux.sum(), RT, what='total counts', scale=200 * ns)
        close(rec['out_subap_counts'][k][0][0], flux.mean(), RT, what='mean counts', scale=200)
        close(rec['out_slopes'][k][0], want, 10 * RT, what=f'slopes of frame {k}', scale=max(1, np.abs(want).max()))
    d2 = np.asarray(s.outputs['out_slopes'].get2d())
    w = np.zeros((n, n)); w[mask] = rec['out_slopes'][-1][0]
    same(d2, w.astype(d2.dtype), 'get2d')
    return c['cls'] if lit else 'trivial'


@CHECK.family(st.fixed_dictionaries({'ny': st.integers(26, 41), 'nx': st.integers(26, 41), 'fx': st.integers(8, 9), 'fy': st.integers(-9, 9), 'amp': st.floats(0.05, 0.3), 'ncyc': st.integers(0, 1), 'sigma': st.floats(2.5, 3.4),
    'wl': st.sampled_from([500.0, 1650.0]), 'piston': st.floats(-1, 1), 'mask': st.booleans(), 'seed': st.integers(0, 10**6)}), 60, 1200,
    rule='fringes with a known band limited phase give back that phase, on even and odd frames', double=0.4)
def ciao(c):
    rng = rng_of(c['seed'])
    ny, nx = c['ny'], c['nx']
    y, x = np.mgrid[:ny, :nx]
    # small phase, periodic on the frame: its sidebands stay in the window
    ph = c['piston'] + c['amp'] * c['ncyc'] * np.cos(2 * np.pi * (rng.integers(0, 4) * x / nx + rng.integers(0, 4) * y / ny) + rng.uniform(0, 6))
    I = 100 * (1 + 0.8 * np.cos(2 * np.pi * (c['fx'] * x / nx + c['fy'] * y / ny) + ph))
    from specula.data_objects.pupilstop import Pupilstop
    m = None
    msk = np.ones((ny, nx))
    if c['mask'] and ny == nx:
        from specula.data_objects.simul_params import SimulParams
        msk = (rng.random((ny, nx)) < 0.7).astype(float); msk[0, 0] = 1
        m = Pupilstop(SimulParams(pixel_pupil=ny, pixel_pitch=0.1), input_mask=msk.astype(DT))
    s = CiaoCiaoSlopec(c['wl'], nx // 2 + c['fx'], ny // 2 + c['fy'], c['sigma'], m, unwrap=False)
    rec = drive(s, {'in_pixels': pix_feed([I.astype(DT)] * 2)}, 2)
    # the sideband filtered with the window, computed here from its Fourier series
    ref = 40 * np.exp(1j * ph)
    F = np.fft.fft2(ref)
    ky, kx = np.fft.fftfreq(ny) * ny, np.fft.fftfreq(nx) * nx
    W = np.exp(-((kx[None, :]**2 + ky[:, None]**2) / (2 * c['sigma']**2))**2)
    want = np.angle(np.fft.ifft2(F * W))
    got = rec['out_slopes'][1][0].reshape(ny, nx) / c['wl'] * 2 * np.pi
    dif = np.angle(np.exp(1j * (got - want))) * msk
    close(dif, np.zeros_like(dif), 0.02, what='demodulated phase', scale=1)
    close(rec['out_subap_counts'][1][0][0], I[msk > 0].mean(), RT, what='mean flux', scale=200)
    return f'{ny % 2}{nx % 2}'
