"""C21: Zernike polynomials, influence functions and modal bases."""
from math import factorial
from vlib.drive import *
from specula.data_objects.ifunc import IFunc
from specula.data_objects.ifunc_inv import IFuncInv
from specula.data_objects.m2c import M2C
from specula.lib.mask import CircularMask
from specula.lib.zernike_generator import ZernikeGenerator
from specula.lib.compute_zern_ifunc import compute_zern_ifunc
from specula.lib.compute_zonal_ifunc import compute_zonal_ifunc
from specula.lib.modal_base_generator import make_modal_base_from_ifs_fft, compute_ifs_covmat
from scipy.special import gamma

CHECK = Check('C21', 'Zernike polynomials, influence functions and modal bases', scale=2, assumptions=[
    'Zernike influence functions up to the sign of each mode and a rotation of the orthonormal set is not allowed: each is orthogonal to the previous ones',
    'modal bases from at least five more actuators than removed modes, in double precision',
    'pistons of modes of a modal base are irrelevant in the mode to command matrix'])
D = np.float64
T32 = 2e-5


def noll(j):
    """Radial order, azimuthal order and parity by walking the Noll sequence"""
    n = 0
    k = 1
    while True:
        for m in range(n % 2, n + 1, 2):
            for _ in range(1 if m == 0 else 2):
                if k == j:
                    return n, m
                k += 1
        n += 1


def zernike(j, x, y):
    n, m = noll(j)
    r, t = np.hypot(x, y), np.arctan2(y, x)
    R = sum((-1)**s * factorial(n - s) / (factorial(s) * factorial((n + m) // 2 - s) * factorial((n - m) // 2 - s)) * r**(n - 2 * s) for s in range((n - m) // 2 + 1))
    if m == 0:
        return np.sqrt(n + 1) * R
    return np.sqrt(2 * (n + 1)) * R * (np.cos(m * t) if j % 2 == 0 else np.sin(m * t))


def grid(shape, cy, cx, rad):
    y, x = np.mgrid[:shape[0], :shape[1]] + 0.5
    return (x - cx) / rad, (y - cy) / rad


@CHECK.family(st.fixed_dictionaries({'h': st.integers(4, 24), 'w': st.integers(4, 24), 'mask': st.booleans(), 'off': st.tuples(st.floats(-2, 2), st.floats(-2, 2)),
                                     'rad': st.floats(2., 12.), 'modes': st.lists(st.integers(1, 45), min_size=1, max_size=8), 'single': st.booleans()}),
              quick=150, thorough=4000, rule='a mode of order at least 2')
def polynomials(c):
    """Noll's polynomials and their derivatives on the disc, zero outside."""
    dt = np.float32 if c['single'] else D
    if c['mask']:
        sh, rad = (c['h'], c['w']), c['rad']
        cy, cx = sh[0] / 2 + c['off'][0], sh[1] / 2 + c['off'][1]
        g = ZernikeGenerator(CircularMask(sh, maskRadius=rad, maskCenter=np.array([cy, cx])), xp=np, dtype=dt)
    else:
        sh, rad, cy, cx = (c['h'], c['h']), c['h'] / 2, c['h'] / 2, c['h'] / 2
        g = ZernikeGenerator(c['h'], xp=np, dtype=dt)
    x, y = grid(sh, cy, cx, rad)
    r = np.hypot(x, y)
    ok = np.abs(r - 1) > 1e-6
    h = 1e-4
    for j in c['modes'] + c['modes'][:1]:
        n, m = noll(j)
        got = np.asarray(g.getZernike(j), float)
        check(got.shape == sh, 'shape')
        want = np.where(r <= 1, zernike(j, x, y), 0)
        close(got * ok, want * ok, atol=(1e-4 if c['single'] else 1e-8) * (n + 1)**2, what=f'Zernike {j}')
        check(np.asarray(g.getZernike(j)).dtype == dt, 'precision')
        check(ZernikeGenerator.degree(j) == (n, m), f'order of mode {j}')
        dx = (zernike(j, x + h, y) - zernike(j, x - h, y)) / (2 * h)
        dy = (zernike(j, x, y + h) - zernike(j, x, y - h)) / (2 * h)
        for f, w, ax in ((g.getDerivativeX, dx, 'x'), (g.getDerivativeY, dy, 'y')):
            close(np.asarray(f(j), float) * ok, np.where(r <= 1, w, 0) * ok, atol=(2e-3 if c['single'] else 1e-4) * (n + 1)**3, what=f'derivative of Zernike {j} along {ax}')
    d = g.getZernikeDict(sorted(set(c['modes'])))
    check(sorted(d) == sorted(set(c['modes'])) and all(np.array_equal(d[j], g[j]) for j in d), 'dictionary of the modes')
    raises(lambda: g.getZernike(0), 'mode 0')
    return str(max(noll(j)[0] for j in c['modes'])) if max(noll(j)[0] for j in c['modes']) > 1 else 'trivial'


@CHECK.family(st.fixed_dictionaries({'dim': st.integers(10, 24), 'modes': st.integers(1, 15), 'obs': st.sampled_from([None, 0., 0.2, 0.4]), 'dia': st.sampled_from([None, 1., 0.8]),
                                     'how': st.sampled_from(['sizes', 'mask']), 'start': st.sampled_from([None, 0, 1, 3]), 'idx': st.booleans(), 'norm': st.booleans(),
                                     'single': st.booleans(), 'seed': st.integers(0, 2**31)}),
              quick=300, thorough=10000, rule='more than one mode')
def zernike_ifunc(c):
    """Zero mean, unit rms, in the span of the Zernike polynomials in their order; selection of modes; 3d view and inverse."""
    dim, n = c['dim'], c['modes']
    y, x = (np.mgrid[:dim, :dim] + 0.5 - dim / 2) / (dim / 2)
    r = np.hypot(x, y)
    kw = {}
    if c['how'] == 'mask':
        rng = rng_of(c['seed'])
        lit = (rng.random((dim, dim)) < 0.8) & (r < 1)
        kw['mask'] = lit * rng.choice([1., 2.])
    else:
        o, d = c['obs'] or 0., 1. if c['dia'] is None else c['dia']
        if np.abs(r - d).min() < 1e-6 or (o and np.abs(r - d * o).min() < 1e-6):
            raise Skip
        lit = (r < d) & (r >= d * o)
        kw.update(obsratio=c['obs'], diaratio=c['dia'])
    if lit.sum() <= n + 5:
        raise Skip
    prec = 1 if c['single'] else 0
    f = IFunc(type_str='zernike', npixels=dim, nmodes=n, precision=prec, **kw)
    M = np.asarray(f.influence_function, float)
    check(M.shape == (n, lit.sum()), f'shape {M.shape}')
    same(np.asarray(f.mask_inf_func) > 0, lit, 'mask')
    t = 1e-3 if c['single'] else 1e-7
    check(np.abs(M.mean(axis=1)).max() < t and np.abs(M.std(axis=1) - 1).max() < t, 'mean or rms of the modes')
    Z = np.array([zernike(j, x, y)[lit] for j in range(2, n + 2)])
    Q = np.linalg.qr(Z.T)[0].T
    Q = Q - Q.mean(axis=1, keepdims=True)
    Q /= Q.std(axis=1, keepdims=True)
    if np.linalg.cond(Z) > 1e3:
        raise Skip
    for k in range(n):
        s = np.sign((M[k] * Q[k]).sum())
        close(M[k] * s, Q[k], atol=2e-3 if c['single'] else 1e-6, what=f'mode {k}')
    # three dimensional view, inverse
    cube = np.asarray(f.ifunc_2d_to_3d(normalize=c['norm']), float)
    check(cube.shape == (dim, dim, n), 'shape of the cube')
    close(cube[lit], M.T / (np.sqrt((M**2).mean(axis=1)) if c['norm'] else 1), rtol=1e-5, what='cube')
    check(not cube[~lit].any(), 'cube outside the mask')
    inv = f.inverse()
    check(isinstance(inv, IFuncInv), 'type of the inverse')
    close(M @ np.asarray(inv.ifunc_inv, float), np.eye(n), atol=1e-3 if c['single'] else 1e-8, what='inverse')
    # selection of modes
    s = c['start']
    if c['idx']:
        sel = list(rng_of(c['seed'] + 1).integers(0, n, 3))
        kw2 = dict(idx_modes=[int(i) for i in sel], start_mode=s)
        want = M[sel]
    else:
        m2 = max(1, n - 2)
        kw2 = dict(start_mode=s, nmodes=m2)
        want = M[(s or 0):(s or 0) + m2]
    g = IFunc(M.copy(), mask=lit, precision=prec, **kw2)
    close(g.influence_function, want, rtol=1e-6, what='selected modes')
    check(g.size == want.shape, 'size')
    inv.cut(**kw2)
    m = M2C(rng_of(3).normal(size=(7, n)), precision=prec)
    ref = np.asarray(m.m2c).copy()
    m.cut(**kw2)
    cols = sel if c['idx'] else np.arange(n)[(s or 0):(s or 0) + m2]
    same(np.asarray(m.m2c), ref[:, cols], 'selected columns of the modes to commands')
    close(inv.ifunc_inv, np.linalg.pinv(M)[:, cols], rtol=1e-3 if c['single'] else 1e-6, what='selected columns of the inverse')
    return 'trivial' if n == 1 else c['how']


def actuators(geom, dim, n, rot):
    if geom == 'circular':
        rings = (n + 2) // 2 if n % 2 == 0 else (n + 1) // 2
        step = (dim - 1) / (2 * rings - 2)
        p = [(0., 0.)]
        for k in range(1, rings):
            p += [(k * step * np.cos(np.radians(rot + 60. / k * i)), k * step * np.sin(np.radians(rot + 60. / k * i))) for i in range(6 * k)]
        return np.array(p) + (dim - 1) / 2, step
    v = np.linspace(0, dim - 1, n)
    p = np.array([(a, b) for b in v for a in v])
    if geom == 'alpao':
        p = p[np.hypot(*(p - (dim - 1) / 2).T) <= (dim - 1) * (9 / 8 - n / 384) / 2]
    return p, (dim - 1) / (n - 1)


@CHECK.family(st.fixed_dictionaries({'n': st.integers(3, 7), 'px': st.integers(2, 4), 'geom': st.sampled_from(['square', 'square', 'circular', 'alpao']), 'rot': st.sampled_from([0., 0., 15., 90.]),
                                     'mech': st.booleans(), 'coup': st.tuples(st.floats(0.1, 0.5), st.floats(0., 0.1)), 'slave': st.sampled_from([None, None, 'near', 'linear']),
                                     'thr': st.sampled_from([0.1, 0.3, 0.6]), 'edge': st.sampled_from([0., 0., 0.5, 1.]), 'reach': st.sampled_from([1.5, 2.5]),
                                     'mask': st.sampled_from(['disc', 'own', 'annulus']), 'obj': st.booleans(), 'seed': st.integers(0, 2**31), 'more': st.integers(0, 2)}),
              quick=150, thorough=4000, rule='always')
def zonal(c):
    """One at its actuator, zero at the others; coupling and slaving are linear combinations of these."""
    n, geom = c['n'], c['geom']
    if geom == 'circular':
        n = min(n, 5)
    dim = (n - 1) * c['px'] + 1 + c['more'] if geom != 'circular' else max(9, 2 * n * c['px'])
    pos, step = actuators(geom, dim, n, c['rot'])
    y, x = np.mgrid[:dim, :dim] - (dim - 1) / 2
    r = np.hypot(x, y) / (dim / 2)
    if np.abs(r - 1).min() < 1e-6 or np.abs(r - 0.3).min() < 1e-6:
        raise Skip
    kw = dict(dim=dim, n_act=n, geom=geom, angle_offset=c['rot'], dtype=D)
    if c['mask'] == 'own':
        lit = (rng_of(c['seed']).random((dim, dim)) < 0.8) & (r < 1.2)
        kw['mask'] = lit.astype(float)
    else:
        lit = (r < 1) & (r >= (0.3 if c['mask'] == 'annulus' else 0))
        kw['obsratio'] = 0.3 if c['mask'] == 'annulus' else 0.
    allpx = np.ones((dim, dim))
    base = compute_zonal_ifunc(**dict(kw, mask=allpx))
    B, coord = np.asarray(base[0]), np.asarray(base[2])
    check(B.shape == (len(pos), dim * dim), f'shape {B.shape} for {len(pos)} actuators')
    close(coord.T, pos, atol=1e-9, what='coordinates of the actuators')
    cube = B.reshape(len(pos), dim, dim)
    check(not np.asarray(base[3]).any(), 'slaving matrix without slaving')
    onpx = [(i, int(round(a)), int(round(b))) for i, (a, b) in enumerate(pos) if abs(a - round(a)) < 1e-9 and abs(b - round(b)) < 1e-9 and 0 <= round(a) < dim and 0 <= round(b) < dim]
    for i, a, b in onpx:
        for k, _, _ in onpx:
            check(abs(cube[k, b, a] - (i == k)) < 1e-6, f'influence function {k} is {cube[k, b, a]} at actuator {i}')
    if geom == 'square':
        for k, a, b in onpx:
            i = int(round(pos[k][1] / step)) * n + int(round((dim - 1 - pos[k][0]) / step))
            close(cube[i], cube[k][:, ::-1], atol=1e-6, what='mirrored influence function')
    want = cube
    dist = np.hypot(pos[:, None, 0] - pos[None, :, 0], pos[:, None, 1] - pos[None, :, 1])
    if c['mech']:
        kw.update(do_mech_coupling=True, coupling_coeffs=list(c['coup']))
        K = np.eye(len(pos)) + c['coup'][0] * ((dist > 0) & (dist <= step + 1e-6)) + c['coup'][1] * ((dist > step + 1e-6) & (dist <= 2 * step + 1e-6))
        want = np.tensordot(K, cube, 1)
    label = geom
    if c['slave'] is not None:
        kw.update(do_slaving=True, slaving_thr=c['thr'], linear_slaving=c['slave'] == 'linear', edge_constraint_weight=c['edge'], search_radius_steps=c['reach'])
        peaks = want[:, lit].max(axis=1) / want.max(axis=(1, 2))
        if np.abs(peaks - c['thr']).min() < 1e-6 or not lit.any():
            raise Skip
        ma, sl = np.where(peaks >= c['thr'])[0], np.where(peaks < c['thr'])[0]
        if len(ma) < 3:
            raise Skip
        ifs, mask, co, S = [np.asarray(v) for v in compute_zonal_ifunc(**kw)]
        same(co, coord[:, ma], 'coordinates of the masters')
        check(S.shape == dist.shape, 'shape of the slaving matrix')
        W = S[np.ix_(ma, sl)]
        rest = S.copy()
        rest[np.ix_(ma, sl)] = 0
        check(not rest.any(), 'slaving outside masters and slaves')
        close(ifs, (want[ma] + np.tensordot(W, want[sl], 1))[:, lit], atol=1e-8, what='influence functions with slaves')
        if c['slave'] == 'near':
            N = (dist[np.ix_(ma, sl)] <= 1.1 * step).astype(float)
            close(W, N / np.maximum(N.sum(axis=0), 1), atol=1e-12, what='slaving weights')
        elif len(sl):
            # a slave is on the plane fitted to the masters nearby, held to zero (with a weight) one step further out
            mid = pos.mean(axis=0)
            for j in range(len(sl)):
                d = dist[ma, sl[j]]
                if np.abs(d - c['reach'] * step).min() < 1e-6:
                    continue
                near = np.where(d < c['reach'] * step)[0]
                if len(near) < 3:
                    near = np.argsort(d)[:3]
                    if len(d) > 3 and np.ptp(np.sort(d)[2:4]) < 1e-6:
                        continue
                P = np.column_stack([pos[ma[near]], np.ones(len(near))]) - np.append(pos[sl[j]], 0)        # heights at the slave
                out = pos[sl[j]] - mid
                out = out / np.hypot(*out) if np.hypot(*out) > 1e-9 else np.array([1., 0.])
                P = np.vstack([P, c['edge'] * np.append(step * out, 1)])
                if np.linalg.matrix_rank(P, tol=1e-6) < 3:
                    continue
                w = np.zeros(len(ma))
                w[near] = np.linalg.pinv(P)[2, :-1]
                close(W[:, j], w, atol=1e-7, what='slaving weights')
        label += ' slaves' if len(sl) else ''
    else:
        ifs, mask, co, S = [np.asarray(v) for v in compute_zonal_ifunc(**kw)]
        close(ifs, want[:, lit], atol=1e-8, what='influence functions in the mask')
        same(co, coord, 'coordinates')
    same(mask > 0, lit, 'mask')
    if c['obj'] and geom != 'alpao' and c['slave'] != 'linear':
        kw2 = {k: v for k, v in kw.items() if k not in ('dim', 'geom', 'dtype', 'linear_slaving', 'edge_constraint_weight', 'search_radius_steps')}
        f = IFunc(type_str='zonal', npixels=dim, circ_geom=geom == 'circular', **kw2)
        close(f.influence_function, ifs, atol=1e-5, what='influence functions of the object')
        same(np.asarray(f.mask_inf_func) > 0, lit, 'mask of the object')
    return label


@CHECK.family(st.fixed_dictionaries({'n': st.integers(19, 21), 'px': st.integers(1, 2), 'geom': st.sampled_from(['alpao', 'square', 'circular'])}),
              quick=2, thorough=30, rule='always')
def zonal_many(c):
    """With many actuators, functions made from the actuators nearby only are still one at their actuator, zero at the others and zero from afar."""
    n, geom = c['n'], c['geom']
    dim = (n - 1) * c['px'] + 1
    pos, step = actuators(geom, dim, n, 0.)
    B, _, coord, _ = compute_zonal_ifunc(dim=dim, n_act=n, geom=geom, mask=np.ones((dim, dim)), dtype=D)
    close(np.asarray(coord).T, pos, atol=1e-9, what='coordinates of the actuators')
    cube = np.asarray(B).reshape(len(pos), dim, dim)
    p = np.round(pos).astype(int)
    on = np.where(np.abs(pos - p).max(axis=1) < 1e-9)[0]
    close(cube[:, p[on, 1], p[on, 0]], np.eye(len(pos))[:, on], atol=1e-6, what='functions at the actuators')
    y, x = np.mgrid[:dim, :dim]
    for k in range(len(pos)):
        far = np.hypot(x - pos[k, 0], y - pos[k, 1]) > 7.2 * dim / n + 1e-6
        check(not cube[k][far].any(), f'influence function {k} far away')
    return geom


def covariance(lit, diam, F, r0, L0, over):
    """Covariance of the projections of turbulence on the functions"""
    n = len(lit)
    N = over * n
    cst = gamma(11 / 6)**2 / (2 * np.pi**(11 / 3)) * (24 * gamma(6 / 5) / 5)**(5 / 6)
    k = np.arange(N)
    k = np.minimum(k, N - k) / (over * diam)
    psd = cst * r0**(-5 / 3) * (k[:, None]**2 + k[None]**2 + 1 / L0**2)**(-11 / 6)
    cube = np.zeros((len(F), n, n))
    cube[:, lit] = F
    E = np.exp(-2j * np.pi * np.outer(np.arange(N), np.arange(n)) / N)
    ft = np.einsum('ka,iab,lb->ikl', E, cube, E).reshape(len(F), -1)
    return (ft * psd.ravel() @ ft.conj().T).real / lit.sum()**2 / (over * diam)**2


@CHECK.family(st.fixed_dictionaries({'dim': st.integers(8, 16), 'nact': st.integers(10, 24), 'zern': st.integers(0, 5), 'r0': st.floats(0.05, 0.3), 'L0': st.floats(5., 60.),
                                     'diam': st.floats(1., 40.), 'over': st.integers(2, 3), 'kind': st.sampled_from(['smooth', 'random', 'span']), 'filt': st.sampled_from([0, 0, 1, 2]),
                                     'piston': st.booleans(), 'seed': st.integers(0, 2**31)}),
              quick=200, thorough=8000, rule='more than two modes left')
def modal_base(c):
    """Orthonormal modes without piston, uncorrelated under turbulence, by decreasing variance, made by the commands of the matrix."""
    rng = rng_of(c['seed'])
    dim, n, nz = c['dim'], c['nact'], c['zern']
    y, x = (np.mgrid[:dim, :dim] + 0.5 - dim / 2) / (dim / 2)
    lit = np.hypot(x, y) < 1
    px = int(lit.sum())
    if c['kind'] == 'random':
        F = rng.normal(size=(n, px))
    else:
        q = rng.uniform(-1, 1, (n, 2))
        F = np.array([np.exp(-((x - a)**2 + (y - b)**2) / 0.1)[lit] for a, b in q])
    Z = np.array([zernike(j, x, y)[lit] for j in range(2, nz + 2)]).reshape(nz, px)
    if c['kind'] == 'span':                                       # a mirror that makes the Zernike modes and the piston exactly
        F = rng.normal(size=(n, n)) @ np.vstack([np.ones((1, px)), Z, rng.normal(size=(n - 1 - nz, px))])
    elif c['piston']:
        F[0] = 1 - F[1:].sum(axis=0)
    if np.linalg.cond(F) > 1e6:
        raise Skip
    C = covariance(lit, c['diam'], F, c['r0'], c['L0'], c['over'])
    got = np.asarray(compute_ifs_covmat(lit.astype(float), c['diam'], F, c['r0'], c['L0'], c['over'], dtype=D))
    close(got, C, rtol=1e-6, what='turbulence covariance of the influence functions')
    filt = rng.normal(size=(c['filt'], n)) @ F if c['filt'] else None
    keep = F.copy()
    kl, m2c, sv = make_modal_base_from_ifs_fft(lit.astype(float), c['diam'], F, c['r0'], c['L0'], zern_modes=nz, oversampling=c['over'], filt_modes=filt, dtype=D)
    same(F, keep, 'influence functions changed')
    kl, m2c = np.asarray(kl), np.asarray(m2c)
    left = n - 1 - nz - c['filt']
    check(kl.shape == (nz + left, px) and m2c.shape == (n, nz + left), f'shapes {kl.shape} {m2c.shape}')
    K = kl[nz:]
    t = 1e-6
    check(nz and c['kind'] != 'span' or np.abs(K.mean(axis=1)).max() < t, f'piston in the modes: {np.abs(K.mean(axis=1)).max()}')
    close(K @ K.T / px, np.eye(left), atol=t, what='products of the modes')
    V = covariance(lit, c['diam'], K, c['r0'], c['L0'], c['over'])
    close(V, np.diag(np.diag(V)), rtol=1e-6, what='turbulence covariance of the modes')
    check(np.all(np.diff(np.diag(V)) <= 1e-9 * V.max()), 'variances are not decreasing')
    close(np.asarray(sv['S2'])[:left], np.diag(V), rtol=1e-6, what='variances')
    if nz:
        P = np.linalg.pinv(F) @ F                                  # what the mirror can do
        Q = np.linalg.qr(np.vstack([np.ones(px), Z]).T)[0].T[1:]
        W = (Q / np.sqrt((Q**2).mean(axis=1, keepdims=True))) @ P
        for i in range(nz):
            s = np.sign((W[i] * kl[i]).sum())
            close(kl[i] * s, W[i], atol=1e-6 * np.abs(W).max(), what=f'Zernike mode {i} of the base')
        if c['kind'] == 'span':
            close(K @ kl[:nz].T / px, np.zeros((left, nz)), atol=1e-5, what='products of modes with Zernike modes')
    if filt is not None and (nz == 0 or c['kind'] == 'span'):
        f = filt - filt.mean(axis=1, keepdims=True)
        close(K @ f.T / px / np.abs(f).max(), np.zeros((left, c['filt'])), atol=1e-5, what='filtered modes in the base')
    made = m2c.T @ F
    if not (c['piston'] or c['kind'] == 'span'):                                           # a mirror that cannot make a piston can only approximate
        P = np.linalg.pinv(F) @ F
        made, kl = made @ P, kl @ P
        one = np.ones(px) @ P
    else:
        one = np.ones(px)
    rem = lambda v: v - np.outer(v @ one / (one @ one), one)
    close(rem(made), rem(kl), atol=1e-6 * np.abs(kl).max(), what='shape of the commands of the modes')
    return 'trivial' if left < 3 else f"{c['kind']} {nz > 0} {c['filt']}"
