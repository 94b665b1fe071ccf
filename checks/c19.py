"""C19: pyramid-like, Zernike and interferometric sensors."""
from vlib.drive import *
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.simul_params import SimulParams
from specula.processing_objects.modulated_pyramid import ModulatedPyramid
from specula.processing_objects.modulated_double_roof import ModulatedDoubleRoof
from specula.processing_objects.poly_crom_pyramid import PolyCromPyramid
from specula.processing_objects.zernike_sensor import ZernikeSensor
from specula.processing_objects.ext_source_pyramid import ExtSourcePyramid
from specula.processing_objects.ciao_ciao_sensor import CiaoCiaoSensor

CHECK = Check('C19', 'Pyramid, Zernike and interferometric sensors', scale=2, assumptions=[
    'square pupil with an even number of pixels, some light; no interpolation of the field (the sampled field of view is the wanted one or larger)',
    'no edge of the focal plane mask within rounding of the centre of a pixel; sharp edges and tip',
    'no shift, rotation or magnification of the pupil'])
R2A = 3600 * 180 / np.pi
RT = 5e-4 if PREC == 1 else 1e-9


def pupil(rng, n, kind):
    y, x = np.mgrid[:n, :n] - (n - 1) / 2
    if kind == 'full':
        a = np.ones((n, n))
    elif kind == 'disc':
        r = np.hypot(x, y) / (n / 2)
        a = ((r < 1) & (r > 0.2)).astype(float)
    elif kind == 'gray':
        a = rng.uniform(0.2, 1.5, (n, n))
    else:
        a = (rng.random((n, n)) < 0.6).astype(float)
        a[0, 0] = 1
    return np.asarray(a, DT).astype(float)


def phase(rng, n, rough):
    y, x = np.mgrid[:n, :n] / n
    p = rng.normal(size=(n, n)) * (60 if rough else 3)
    for _ in range(3):
        a, b, c = rng.normal(size=3)
        p += 200 * np.sin(3 * (a * x + b * y + c))
    return np.asarray(p, DT).astype(float)


def ef_feed(amps, phis, pitch, s0):
    n = amps[0].shape[0]
    o = ElectricField(n, n, pitch, S0=s0)

    def script(k, o):
        o.A = np.asarray(amps[k], dtype=DT)
        o.phaseInNm = np.asarray(phis[k], dtype=DT)
        return True
    return o, script


def area_bin(f, npx):
    e = np.arange(npx + 1) * f / npx
    i = np.arange(f)
    return np.clip(np.minimum(e[1:, None], i[None] + 1) - np.maximum(e[:-1, None], i[None]), 0, None)


def even_round(x):
    return int(np.around(x / 2) * 2)


def sizes(n, pup_diam, pup_dist, margin, fft_res, min_dist=None):
    """FFT size, detector side before the crop, and distance of the pupils"""
    dist = pup_diam + 2 * margin if pup_dist is None else pup_dist
    side = int(np.around(fft_res * pup_diam / 2) * 2)
    res = max(side / pup_diam, (dist + pup_diam) / pup_diam * 1.1)
    N = even_round(n * res)
    return N, side, dist


def dft(n, N):
    k = np.arange(N) - (N - 1) / 2
    return np.exp(-2j * np.pi * np.outer(k, np.arange(n)) / N)


def stop_mask(N, ratio, obs=0.):
    k = (np.arange(N) - (N - 1) / 2) / (N / 2)
    r = np.hypot(k[:, None], k[None, :])
    for e in (ratio, ratio * obs):
        if e and np.abs(r - e).min() < 1e-5:
            raise Skip
    return ((r < ratio) & (r >= ratio * obs)).astype(float)


def sense(E, plate, D, tilts, weights, mask):
    """Image of the pupils after the plate (complex, on the focal plane), and the focal plane intensity; E[n, n]."""
    n, N = E.shape[0], D.shape[0]
    pup = np.zeros((N, N))
    foc = np.zeros((N, N))
    c = (N - n) // 2
    # field at pixel x of a detector with the pupil of the system in the middle
    x = np.arange(N) - c
    k = np.arange(N) - (N - 1) / 2
    B = np.exp(2j * np.pi * np.outer(x, k) / N)
    for t, w in zip(tilts, weights):
        u = D @ (E * t) @ D.T
        foc += w * np.abs(u)**2
        pup += w * np.abs(B @ (u * plate * mask) @ B.T)**2
    return pup, foc / np.sum(weights)


def modulation(kind, n, amp, steps, odd=False):
    y, x = np.mgrid[:n, :n] - (n - 1) / 2
    tx, ty = (v / ((n - 1) / 2) * np.pi for v in (x, y))
    if kind == 'circular':
        a = 2 * np.pi * np.arange(steps) / steps
        return [np.exp(-1j * amp * (np.sin(q) * tx + np.cos(q) * ty)) for q in a], np.ones(steps)
    pos = amp * (2 * np.arange(steps) / (steps - 1) - 1) if steps > 1 else np.zeros(1)
    t = tx if kind == 'horizontal' or (kind == 'alternating' and odd) else ty
    if steps == 1 or amp == 0:
        w = np.ones(steps)
    else:
        av = pos.copy()                       # first and last: the middle of their half interval
        h = amp / (steps - 1)
        av[0] += h / 2
        av[-1] -= h / 2
        w = 1 / np.cos(np.abs(av) * np.pi / (2 * amp))
    return [np.exp(-1j * p * t) for p in pos], w


def facets(N, scale):
    d = np.minimum(np.arange(N), np.arange(N)[::-1])
    return np.exp(-2j * np.pi * (d[:, None] + d[None, :]) / scale)


def detector(pup, flux, side, out):
    """Binned to side x side with the given total, then cropped or padded to out x out. Image, fraction inside."""
    B = area_bin(pup.shape[0], side)
    im = B @ pup @ B.T
    im = im / im.sum() * flux
    if out > side:
        d = (out - side) // 2
        full = np.zeros((out, out))
        full[d:d + side, d:d + side] = im
        return full, 1.0
    d = (side - out) // 2
    cut = im[d:d + out, d:d + out]
    return cut, cut.sum() / im.sum()


base = dict(halfn=st.integers(3, 10), lam=st.sampled_from([500., 750., 1650.]), pitch=st.floats(0.02, 0.3), fovr=st.floats(0.4, 0.999),
            diam=st.integers(4, 10), margin=st.integers(0, 3), dist=st.integers(-1, 4), res=st.sampled_from([2.0, 3.0, 3.4, 4.0]), pad=st.integers(0, 10),
            kind=st.sampled_from(['full', 'disc', 'gray', 'holes']), rough=st.booleans(), s0=st.floats(0.1, 1e4),
            steps=st.integers(1, 3), seed=st.integers(0, 2**31))


def setup(c):
    n = 2 * c['halfn']
    fov_int = c['lam'] * 1e-9 / c['pitch'] * R2A
    fov = fov_int * c['fovr']
    dist = None if c['dist'] < 0 else c['diam'] + 2 * c['margin'] + c['dist']
    N, side, d = sizes(n, c['diam'], dist, c['margin'], c['res'])
    out = d + c['diam'] + 2 * c['margin'] + c['pad']
    if abs(N / 2 - n * max(side / c['diam'], (d + c['diam']) / c['diam'] * 1.1) / 2) > 0.499:
        raise Skip
    kw = dict(simul_params=SimulParams(pixel_pupil=n, pixel_pitch=c['pitch']), wavelengthInNm=c['lam'], fov=fov, pup_diam=c['diam'],
              output_resolution=out, fov_errinf=0.1, fov_errsup=4., pup_dist=dist, pup_margin=c['margin'], fft_res=c['res'])
    scale = (N / n) / (d / c['diam'] / 2)
    return n, N, side, out, scale, c['fovr'], kw


def fields(c, n):
    rng = rng_of(c['seed'])
    return [pupil(rng, n, c['kind']) for _ in range(c['steps'])], [phase(rng, n, c['rough']) for _ in range(c['steps'])]


def compare(rec, k, want, foc, mask, flux, tr, frac):
    v = rec['out_i'][k]
    check(v[1], 'image not refreshed')
    close(v[0], want, rtol=RT, atol=RT * want.max(), what=f'image at step {k}')
    if foc is not None:
        close(rec['out_psf_bfm'][k][0], foc, rtol=RT, atol=RT * foc.max(), what=f'focal plane before the mask at step {k}')
        close(rec['out_psf_tot'][k][0], foc * mask, rtol=RT, atol=RT * foc.max(), what=f'focal plane at step {k}')
    close(rec['out_transmission'][k][0], [tr], rtol=RT, what=f'transmission at step {k}')
    close(rec['out_flux_frac_inside_detector'][k][0], [frac], rtol=RT, what=f'flux inside the detector at step {k}')
    close(v[0].sum(), flux * tr * frac, rtol=RT, what=f'flux in the image at step {k}')


@CHECK.family(st.fixed_dictionaries({**base, 'mod': st.sampled_from(['circular', 'circular', 'vertical', 'horizontal', 'alternating']),
                                     'amp': st.sampled_from([0., 0.5, 1., 2., 2.6, 4.]), 'more': st.sampled_from([None, 0, 1, 5]),
                                     'obs': st.sampled_from([None, None, 0.8])}),
              quick=250, thorough=8000, rule='a modulated pyramid', double=0.4)
def pyramid(c):
    n, N, side, out, scale, ratio, kw = setup(c)
    amp, mod = c['amp'], c['mod']
    least = int(max(1, np.around(2 * np.pi * amp)))
    if c['more'] is None:
        steps = int(max(1, round(amp * 2) * 4) if mod == 'circular' else round(amp) * 2 + 1)
        step_arg = None
    else:
        steps = step_arg = least + c['more']
    obs = 0. if c['obs'] is None else c['obs'] / n
    mask = stop_mask(N, ratio, obs)
    A, P = fields(c, n)
    pyr = ModulatedPyramid(mod_amp=amp, mod_step=step_arg, mod_type=mod, fp_obs=c['obs'], **kw)
    if c['obs'] is not None:
        # the size of the obstruction on the focal plane is taken from the sensor; it must be a centred disc
        mask = np.asarray(pyr.fp_mask).astype(float)
        close(mask, mask[::-1], what='focal plane mask')
        close(mask, mask.T, what='focal plane mask')
        if not mask.any():
            raise Skip
    rec = drive(pyr, {'in_ef': ef_feed(A, P, c['pitch'], c['s0'])}, c['steps'])
    D = dft(n, N)
    plate = facets(N, scale)
    for k in range(c['steps']):
        tilts, w = modulation(mod, n, amp, steps, odd=k % 2)
        pup, foc = sense(A[k] * np.exp(2j * np.pi * P[k] / c['lam']), plate, D, tilts, w, mask)
        tr = (foc * mask).sum() / foc.sum()
        flux = c['s0'] * A[k].sum() * c['pitch']**2
        want, frac = detector(pup, flux * tr, side, out)
        compare(rec, k, want, foc, mask, flux, tr, frac)
    return 'trivial' if amp == 0 else mod


@CHECK.family(st.fixed_dictionaries({**base, 'amp': st.sampled_from([0., 1., 2.]), 'swap': st.booleans()}), quick=120, thorough=5000,
              rule='a field with phase errors', double=0.4)
def pyramid_symmetry(c):
    """A field mirrored in a direction gives the mirrored image; a piston changes nothing."""
    c = dict(c, steps=4)
    n, N, side, out, scale, ratio, kw = setup(c)
    A, P = fields(c, n)
    if (side - out) % 2:
        raise Skip
    a, p = A[0], P[0]
    A = [a, a, a[:, ::-1], a.T]
    P = [p, p + 0.4 * c['lam'], p[:, ::-1], p.T]
    v = [x[0] for x in drive(ModulatedPyramid(mod_amp=c['amp'], mod_type='circular', **kw), {'in_ef': ef_feed(A, P, c['pitch'], c['s0'])}, 4)['out_i']]
    t = (3e-3 if PREC == 1 else 1e-8) * v[0].max()
    close(v[1], v[0], rtol=0, atol=t, what='image after adding a piston')
    close(v[2], v[0][:, ::-1], rtol=0, atol=t, what='image of the mirrored field')
    close(v[3], v[0].T, rtol=0, atol=t, what='image of the transposed field')
    return c['kind']


def moved(im, dr, dc):
    """Bilinear image sampled dr rows and dc columns further on; nothing outside is invented."""
    N = im.shape[0]

    def weights(d):
        x = np.clip(np.arange(N) * (N - 1) / N + d, 0, N - 1)
        i = np.minimum(np.floor(x).astype(int), N - 2)
        W = np.zeros((N, N))
        W[np.arange(N), i] = 1 - (x - i)
        W[np.arange(N), i + 1] += x - i
        return W
    return weights(dr) @ im @ weights(dc).T


@CHECK.family(st.fixed_dictionaries({**base, 'amp': st.sampled_from([0., 1., 2.]), 'tip': st.floats(0, 6), 'shift': st.tuples(st.floats(-3, 3), st.floats(-3, 3)),
                                     'what': st.sampled_from(['tip', 'shift', 'both'])}),
              quick=120, thorough=5000, rule='a flattened tip or moved pupils', double=0.4)
def pyramid_defects(c):
    """A tip flattened over a disc of the given diameter in lambda/D; pupils moved on the detector by the given x and y."""
    n, N, side, out, scale, ratio, kw = setup(c)
    amp = c['amp']
    tip = c['tip'] if c['what'] != 'shift' else 0.
    dx, dy = c['shift'] if c['what'] != 'tip' else (0., 0.)
    steps = int(max(1, round(amp * 2) * 4))
    mask = stop_mask(N, ratio)
    d = np.minimum(np.arange(N), np.arange(N)[::-1])
    tlt = (d[:, None] + d[None, :]).astype(float)
    q = np.arange(N) - (N - 1) / 2
    r = np.hypot(q[:, None], q[None, :])
    edge = tip * (N / n) / 2
    if np.abs(r - edge).min() < 1e-4:
        raise Skip
    flat = r <= edge
    if flat.any():
        tlt[flat] = tlt[flat].min()
    A, P = fields(c, n)
    pyr = ModulatedPyramid(mod_amp=amp, pyr_tip_maya_ld=tip, pup_shifts=(dx, dy), **kw)
    rec = drive(pyr, {'in_ef': ef_feed(A, P, c['pitch'], c['s0'])}, c['steps'])
    D = dft(n, N)
    plate = np.exp(-2j * np.pi * tlt / scale)
    s = N / side
    for k in range(c['steps']):
        tilts, w = modulation('circular', n, amp, steps)
        pup, foc = sense(A[k] * np.exp(2j * np.pi * P[k] / c['lam']), plate, D, tilts, w, mask)
        tr = (foc * mask).sum() / foc.sum()
        flux = c['s0'] * A[k].sum() * c['pitch']**2
        pup *= flux * tr / pup.sum()
        if (dx, dy) != (0., 0.):
            pup = moved(pup, dy * s, dx * s)
        want, frac = detector(pup, pup.sum(), side, out)
        close(rec['out_i'][k][0], want, rtol=4 * RT, atol=4 * RT * want.max(), what=f'image at step {k}')
        close(rec['out_transmission'][k][0], [tr], rtol=RT, what=f'transmission at step {k}')
        close(rec['out_flux_frac_inside_detector'][k][0], [frac], rtol=4 * RT, what=f'flux inside the detector at step {k}')
    return c['what'] if flat.any() or (dx, dy) != (0., 0.) else 'trivial'


@CHECK.family(st.fixed_dictionaries({**base, 'amp': st.sampled_from([0., 1., 2.]), 'edge': st.floats(0, 3), 'tip': st.floats(0, 5)}), quick=60, thorough=2500,
              rule='an edge or a tip wide enough to be rough', double=0.4)
def rough_edges(c):
    """Rough edges or tip scatter the light that falls on them (at random), and change nothing else."""
    n, N, side, out, scale, ratio, kw = setup(c)
    mask = stop_mask(N, ratio)
    A, P = fields(c, n)
    pyr = ModulatedPyramid(mod_amp=c['amp'], pyr_edge_def_ld=c['edge'], pyr_tip_def_ld=c['tip'], **kw)
    q = np.arange(N) - (N - 1) / 2
    f = N / n / 2
    r = np.hypot(q[:, None], q[None, :])
    if min(np.abs(np.abs(q) - c['edge'] * f).min(), np.abs(r - c['tip'] * f).min()) < 1e-4:
        raise Skip
    hit = (np.abs(q)[:, None] <= c['edge'] * f) | (np.abs(q)[None] <= c['edge'] * f) | (r <= c['tip'] * f)
    rec = drive(pyr, {'in_ef': ef_feed(A, P, c['pitch'], c['s0'])}, c['steps'])
    D = dft(n, N)
    plate = facets(N, scale)
    steps = int(max(1, round(c['amp'] * 2) * 4))
    for k in range(c['steps']):
        tilts, w = modulation('circular', n, c['amp'], steps)
        pup, foc = sense(A[k] * np.exp(2j * np.pi * P[k] / c['lam']), plate, D, tilts, w, mask)
        tr = (foc * mask).sum() / foc.sum()
        flux = c['s0'] * A[k].sum() * c['pitch']**2
        close(rec['out_psf_tot'][k][0], foc * mask, rtol=RT, atol=RT * foc.max(), what=f'focal plane at step {k}')
        close(rec['out_transmission'][k][0], [tr], rtol=RT, what=f'transmission at step {k}')
        got = rec['out_i'][k][0].astype(float)
        close(got.sum(), flux * tr * rec['out_flux_frac_inside_detector'][k][0][0], rtol=RT, what=f'flux in the image at step {k}')
        sharp, frac = detector(pup, flux * tr, side, out)
        share = (foc * mask * hit).sum() / (foc * mask).sum()
        # triangle inequality on the field in the plane of the detector, for each modulation position
        dist = np.abs(got - sharp).sum() / (flux * tr)
        check(dist <= 4 * np.sqrt(share) + 1e-3, f'step {k}: {share:.4g} of the light on the rough part moved {dist:.4g} of it')
        check(share < 0.3 or dist > 1e-3, f'step {k}: {share:.4g} of the light on the rough part is not scattered')
    return 'trivial' if not hit.any() else 'rough'


@CHECK.family(st.fixed_dictionaries({**base, 'lams': st.lists(st.sampled_from([1., 1.1, 1.25, 0.97]), min_size=1, max_size=3), 'k': st.floats(0.3, 20),
                                     'amp': st.sampled_from([0., 1., 2.])}), quick=80, thorough=3000, rule='more than one wavelength', double=0.4)
def polychromatic(c):
    n, N, side, out, scale, ratio, kw = setup(dict(c, fovr=min(c['fovr'], 0.9)))
    rng = rng_of(c['seed'] + 1)
    lams = [c['lam'] * f for f in c['lams']]
    w = rng.uniform(0.1, 1, len(lams))
    if len(lams) > 1 and c['seed'] % 3 == 0:
        w[-1] = 0
    A, P = fields(c, n)
    del kw['wavelengthInNm']
    feeds = lambda: {'in_ef': ef_feed(A, P, c['pitch'], c['s0'])}
    one = [drive(ModulatedPyramid(wavelengthInNm=l, mod_amp=c['amp'], **kw), feeds(), c['steps'])['out_i'] for l in lams]
    v = drive(PolyCromPyramid(wavelengthInNm=lams, flux_factor=[float(x * c['k']) for x in w], mod_amp=c['amp'], **kw), feeds(), c['steps'])['out_i']
    for k in range(c['steps']):
        ref = sum(x * o[k][0].astype(float) for x, o in zip(w, one))
        ref *= c['s0'] * A[k].sum() * c['pitch']**2 / ref.sum()
        check(v[k][1], 'not refreshed')
        close(v[k][0], ref, rtol=0, atol=(1e-4 if PREC == 1 else 1e-10) * ref.max(), what=f'polychromatic image at step {k}')
    return 'trivial' if len(lams) == 1 else str(len(lams))


@CHECK.family(st.fixed_dictionaries({**base, 'rad': st.floats(0.3, 2.5), 'shift': st.sampled_from([0.25, 0.5, 1.0, -0.5])}), quick=120, thorough=5000,
              rule='an aberrated field', double=0.4)
def zernike(c):
    """The field filtered by a phase shifting spot of the given radius (in lambda/D)."""
    n = 2 * c['halfn']
    N, side, _ = sizes(n, c['diam'], 1, 0, c['res'])
    out = c['diam'] + 1 + c['pad']
    fov = c['lam'] * 1e-9 / c['pitch'] * R2A * c['fovr']
    if c['fovr'] < 0.1:
        raise Skip
    mask = stop_mask(N, c['fovr'])
    k = np.arange(N) - (N - 1) / 2
    r = np.hypot(k[:, None], k[None, :])
    R = c['rad'] * N / n
    if np.abs(r - R).min() < 1e-4:
        raise Skip
    plate = np.where(r < R, np.exp(-1j * np.pi * c['shift']), 1)
    A, P = fields(c, n)
    zs = ZernikeSensor(simul_params=SimulParams(pixel_pupil=n, pixel_pitch=c['pitch']), wavelengthInNm=c['lam'], fov=fov, pup_diam=c['diam'],
                       output_resolution=out, spot_radius_lambda=c['rad'], phase_shift_pi=c['shift'], fft_res=c['res'])
    rec = drive(zs, {'in_ef': ef_feed(A, P, c['pitch'], c['s0'])}, c['steps'])
    for i in range(c['steps']):
        pup, foc = sense(A[i] * np.exp(2j * np.pi * P[i] / c['lam']), plate, dft(n, N), [1.], [1.], mask)
        tr = (foc * mask).sum() / foc.sum()
        flux = c['s0'] * A[i].sum() * c['pitch']**2
        want, frac = detector(pup, flux * tr, side, out)
        compare(rec, i, want, foc, mask, flux, tr, frac)
    return c['kind']


@CHECK.family(st.fixed_dictionaries({**base, 'amp': st.sampled_from([0., 1., 2.])}), quick=120, thorough=5000, rule='a field with phase errors', double=0.4)
def double_roof(c):
    """Two images of two pupils each, from two crossed roofs."""
    n, N, side, out, scale, ratio, kw = setup(c)
    mask = stop_mask(N, ratio)
    A, P = fields(c, n)
    obj = ModulatedDoubleRoof(mod_amp=c['amp'], **kw)
    rec = drive(obj, {'in_ef': ef_feed(A, P, c['pitch'], c['s0'])}, c['steps'])
    tilts, w = modulation('circular', n, c['amp'], int(max(1, round(c['amp'] * 2) * 4)))
    h = N // 2
    i = np.arange(N)
    d = np.where(i < h, h - 1 - i, i - h)                      # distance from the edge
    r1 = (d[None, :] - i[:, None]) / scale                     # edge along y, both faces inclined: two pupils on a side
    r2 = np.rot90(r1)
    for k in range(c['steps']):
        E = A[k] * np.exp(2j * np.pi * P[k] / c['lam'])
        p1, foc = sense(E, np.exp(-2j * np.pi * r1), dft(n, N), tilts, w, mask)
        p2, _ = sense(E, np.exp(-2j * np.pi * r2), dft(n, N), tilts, w, mask)
        tr = (foc * mask).sum() / foc.sum()
        flux = c['s0'] * A[k].sum() * c['pitch']**2
        want, frac = detector(p1 + np.rot90(p2), flux * tr, side, out)
        compare(rec, k, want, None, mask, flux, tr, frac)
    return c['kind']


@CHECK.family(st.fixed_dictionaries({**base, 'npts': st.lists(st.integers(1, 9), min_size=3, max_size=3), 'batch': st.integers(1, 6), 'stream': st.booleans(),
                                     'weak': st.booleans()}), quick=120, thorough=5000, rule='more than one point in the source', double=0.4)
def extended_source(c):
    """The flux weighted sum of the images of the points; faint points are replaced by four points on the faces."""
    n, N, side, out, scale, ratio, kw = setup(c)
    mask = stop_mask(N, ratio)
    A, P = fields(c, n)
    rng = rng_of(c['seed'] + 2)
    steps = c['steps']
    npts = c['npts'] if not c['stream'] else [c['npts'][0]] * 3
    coefs, fed, last = [], [], None
    for k in range(steps):
        new = k == 0 or rng.random() < 0.6
        if new:
            q = rng.normal(size=(npts[k % 3], 4))
            q[:, 2] *= 0.2
            q[:, 3] = rng.uniform(0.1, 1, len(q)) * 3
            if c['weak'] and not c['stream'] and len(q) > 1:
                q[rng.integers(0, len(q)), 3] = 1e-4
            last = np.asarray(q, DT)
        coefs.append(last.astype(float))
        fed.append(last.copy() if new else None)
    src = BaseValue(value=fed[0].copy())

    def script(k, o):
        if fed[k] is None:
            return False
        o.value = fed[k].copy()
        return True
    obj = ExtSourcePyramid(max_batch_size=c['batch'], cuda_stream_enable=c['stream'], max_flux_ratio_thr=1e-3, **kw)
    rec = drive(obj, {'in_ef': ef_feed(A, P, c['pitch'], c['s0']), 'ext_source_coeff': (src, script)}, steps)
    y, x = (np.mgrid[:n, :n] - (n - 1) / 2) / (n / 2)
    r2 = x**2 + y**2
    inside = np.asarray(obj.ext_ttf[0] != 0) if hasattr(obj, 'ext_ttf') and n > 2 else r2 < 1
    zern = [2 * x, 2 * y, np.sqrt(3) * (2 * r2 - 1)]
    for k in range(steps):
        q = coefs[k]
        big = q[:, 3] > 1e-3 * q[:, 3].max()
        keep = q if c['stream'] else q[big]
        if not c['stream'] and not big.all():
            rad = kw['fov'] / 2 / (N / n)
            faces = np.array([[rad, 0, 0, 0], [0, rad, 0, 0], [-rad, 0, 0, 0], [0, -rad, 0, 0.]])
            faces[:, 3] = q[~big, 3].sum() / 4
            keep = np.vstack([keep, faces])
        tilts = [np.exp(-1j * np.where(inside, a * zern[0] + b * zern[1] - f * zern[2], 0)) for a, b, f, _ in keep]
        pup, foc = sense(A[k] * np.exp(2j * np.pi * P[k] / c['lam']), facets(N, scale), dft(n, N), tilts, keep[:, 3], mask)
        tr = (foc * mask).sum() / foc.sum()
        flux = c['s0'] * A[k].sum() * c['pitch']**2
        want, frac = detector(pup, flux * tr, side, out)
        compare(rec, k, want, foc, mask, flux, tr, frac)
    return 'trivial' if max(len(q) for q in coefs) < 2 else ('weak' if c['weak'] and not c['stream'] else 'points')


@CHECK.family(st.fixed_dictionaries({'n': st.integers(4, 20), 'px': st.integers(2, 20), 'rot': st.sampled_from([0., 0., 180.]), 'lam': st.sampled_from([500., 1650.]),
                                     'pitch': st.floats(0.02, 0.2), 'split': st.floats(0., 1.), 'tilt': st.tuples(st.floats(-2, 2), st.floats(-2, 2)),
                                     'norm': st.booleans(), 'steps': st.integers(1, 3), 'seed': st.integers(0, 2**31), 's0': st.floats(0.1, 1e3),
                                     'kind': st.sampled_from(['full', 'disc', 'gray', 'holes'])}), quick=200, thorough=8000, rule='both channels have light', double=0.4)
def interferometer(c):
    """The interference of the field with itself, rotated and tilted."""
    n = c['n']
    rng = rng_of(c['seed'])
    A = [pupil(rng, n, 'full' if c['rot'] else c['kind']) for _ in range(c['steps'])]
    P = [phase(rng, n, True) for _ in range(c['steps'])]
    obj = CiaoCiaoSensor(wavelengthInNm=c['lam'], number_px=c['px'], diffRotAngleInDeg=c['rot'], tiltInArcsec=c['tilt'], channel_flux=c['split'], normalize_flux=c['norm'])
    rec = drive(obj, {'in_ef': ef_feed(A, P, c['pitch'], c['s0'])}, c['steps'])['out_i']
    x = (np.arange(n) - n // 2) * c['pitch'] * 2 * np.pi / (c['lam'] * 1e-9) / R2A
    T = np.exp(1j * (c['tilt'][0] * x[None, :] + c['tilt'][1] * x[:, None]))
    for k in range(c['steps']):
        E = A[k] * np.exp(2j * np.pi * P[k] / c['lam'])
        F = E
        if c['rot']:                # sampled between the pixels
            x_ = (n - 1) * (1 - np.arange(n) / n)
            L = np.clip(1 - np.abs(x_[:, None] - np.arange(n)), 0, None)
            F = (L @ A[k] @ L.T) * np.exp(2j * np.pi * (L @ P[k] @ L.T) / c['lam'])
        I = np.abs(np.sqrt(2 * c['split']) * E + np.sqrt(2 - 2 * c['split']) * F * T)**2
        B = area_bin(n, c['px'])
        want = B @ I @ B.T
        if I.sum() < 1e-3 * n * n:
            raise Skip
        want *= (c['s0'] * A[k].sum() * c['pitch']**2 if c['norm'] else I.sum()) / want.sum()
        check(rec[k][1], 'not refreshed')
        close(rec[k][0], want, rtol=RT, atol=RT * want.max(), what=f'fringes at step {k}')
    return 'trivial' if c['split'] in (0., 1.) else str(c['rot'])


# ------------------------------------------------------------------ turned, moved and magnified pupils
MOVE = dict(rot=st.sampled_from([0., 0., 17., 90., -45.]), xs=st.sampled_from([0., 0., 1., -0.6]), ys=st.sampled_from([0., 0., 0.8, -1.]), mag=st.sampled_from([1., 1., 1.15, 0.9]))


def transformed(A, P, pitch, s0, rot, xs, ys, mag, force=False):
    """The fields after the interpolation (itself decided by C22), with the flux of the given ones."""
    from specula.lib.extrapolation_2d import EFInterpolator
    n = A.shape[0]
    o = ElectricField(n, n, pitch, S0=s0)
    o.A = np.asarray(A, DT)
    it = EFInterpolator(o, o.size, rotAnglePhInDeg=rot, xShiftPhInPixel=xs, yShiftPhInPixel=ys, magnification=mag, force_extrapolation=force)
    out = []
    for p in P:
        o.phaseInNm = np.asarray(p, DT)
        it.interpolate()
        r = it.interpolated_ef()
        out.append((np.array(r.A, dtype=float), np.array(r.phaseInNm, dtype=float)))
    return [a for a, _ in out], [p for _, p in out]


@CHECK.family(st.fixed_dictionaries({**base, **MOVE, 'sensor': st.sampled_from(['pyramid', 'pyramid', 'roof', 'poly']), 'force': st.booleans(), 'amp': st.sampled_from([0., 1., 2.]),
                                     'two': st.booleans()}), quick=120, thorough=5000, rule='the pupil is turned, moved or magnified', double=0.4)
def moved_pupil(c):
    """A sensor that turns, moves or magnifies the pupil gives the image of the field turned, moved or magnified beforehand."""
    import warnings
    n, N, side, out, scale, ratio, kw = setup(c)
    stop_mask(N, ratio)
    rng = rng_of(c['seed'])
    A, P = pupil(rng, n, c['kind']), [phase(rng, n, c['rough']) for _ in range(c['steps'])]
    mv = dict(rotAnglePhInDeg=c['rot'], xShiftPhInPixel=c['xs'], yShiftPhInPixel=c['ys'])
    mag, force = (c['mag'], c['force']) if c['sensor'] == 'pyramid' else (1., False)
    if c['sensor'] == 'pyramid':
        mv.update(magnification=mag, force_extrapolation=force)
        make = lambda **k: ModulatedPyramid(mod_amp=c['amp'], **kw, **k)
    elif c['sensor'] == 'poly':
        pkw = {a: b for a, b in kw.items() if a != 'wavelengthInNm'}
        make = lambda **k: PolyCromPyramid(wavelengthInNm=[c['lam']], flux_factor=[1.], mod_amp=c['amp'], **pkw, **k)
    else:
        make = lambda **k: ModulatedDoubleRoof(mod_amp=c['amp'], **kw, **k)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        A2, P2 = transformed(A, P, c['pitch'], c['s0'], c['rot'], c['xs'], c['ys'], mag, force)
        if A2[0].sum() < 0.1 * A.sum():
            raise Skip
        o, script = ef_feed([A] * c['steps'], P, c['pitch'], c['s0'])
        extra = []
        if c['two']:                                  # another sensor of the same field, turned in another way
            extra = [make(**dict(mv, rotAnglePhInDeg=c['rot'] + 30.))]
            extra[0].inputs['in_ef'].set(o)
        got = drive(make(**mv), {'in_ef': (o, script)}, c['steps'], extra=extra)
        want = drive(make(), {'in_ef': ef_feed(A2, P2, c['pitch'], c['s0'] * A.sum() / A2[0].sum())}, c['steps'])
    for k in range(c['steps']):
        for name in ('out_i', 'out_transmission', 'out_flux_frac_inside_detector'):
            if name not in got:
                continue
            g, w = got[name][k][0], want[name][k][0].astype(float)
            close(g, w, rtol=4 * RT, atol=4 * RT * np.abs(w).max(), what=f'{name} at step {k}')
    return 'trivial' if mag == 1 and not any([c['rot'], c['xs'], c['ys']]) else c['sensor']


@CHECK.family(st.fixed_dictionaries({**MOVE, 'drot': st.sampled_from([180., 180., 0., 90., 10.]), 'dxs': st.sampled_from([0., 0., 1., -0.7]), 'dys': st.sampled_from([0., 0., -1., 0.4]),
                                     'dmag': st.sampled_from([1., 1., 1.1]), 'n': st.integers(4, 16), 'split': st.floats(0.1, 0.9), 'seed': st.integers(0, 2**31),
                                     'kind': st.sampled_from(['full', 'disc', 'gray', 'holes']), 's0': st.floats(0.1, 1e3), 'steps': st.integers(1, 3), 'two': st.booleans()}),
              quick=150, thorough=6000, rule='the pupil is turned, moved or magnified', double=0.4)
def moved_interferometer(c):
    """The field turned, moved and magnified interferes with itself, turned, moved and magnified once more by the difference of the channels."""
    import warnings
    n, lam, pitch = c['n'], 1000., 0.1
    rng = rng_of(c['seed'])
    A, P = pupil(rng, n, c['kind']), [phase(rng, n, False) for _ in range(c['steps'])]
    d = dict(diffRotAngleInDeg=c['drot'], xShiftDiffPhInPixel=c['dxs'], yShiftDiffPhInPixel=c['dys'], magnificationDiff=c['dmag'])
    mv = dict(rotAnglePhInDeg=c['rot'], xShiftPhInPixel=c['xs'], yShiftPhInPixel=c['ys'], magnification=c['mag'])
    make = lambda **k: CiaoCiaoSensor(wavelengthInNm=lam, number_px=n, channel_flux=c['split'], **k)
    o, script = ef_feed([A] * c['steps'], P, pitch, c['s0'])
    extra = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if c['two']:
            extra = [make(**dict(mv, rotAnglePhInDeg=c['rot'] + 30.), **d)]
            extra[0].inputs['in_ef'].set(o)
        A1, P1 = transformed(A, P, pitch, c['s0'], c['rot'], c['xs'], c['ys'], c['mag'])
        if not A1[0].any():
            raise Skip
        A2, P2 = transformed(A1[0], P1, pitch, c['s0'], c['drot'], c['dxs'], c['dys'], c['dmag'])
        rec = drive(make(**mv, **d), {'in_ef': (o, script)}, c['steps'], extra=extra)['out_i']
    for k in range(c['steps']):
        E1, E2 = (a * np.exp(2j * np.pi * p / lam) for a, p in ((A1[k], P1[k]), (A2[k], P2[k])))
        I = np.abs(np.sqrt(2 * c['split']) * E1 + np.sqrt(2 - 2 * c['split']) * E2)**2
        if I.sum() < 1e-3 * n * n:
            raise Skip
        want = I / I.sum() * c['s0'] * A.sum() * pitch**2
        close(rec[k][0], want, rtol=RT, atol=RT * want.max(), what=f'fringes at step {k}')
    return 'trivial' if [c['rot'], c['xs'], c['ys'], c['mag']] == [0, 0, 0, 1] else c['kind']


# ------------------------------------------------------------------ curvature sensor
@CHECK.family(st.fixed_dictionaries({'n': st.integers(3, 9).map(lambda k: 2 * k), 'pad': st.sampled_from([0, 2, 4, 10]), 'bin': st.sampled_from([1, 1, 2, 3]),
                                     'npx': st.integers(2, 6).map(lambda k: 2 * k), 'kind': st.sampled_from(['disc', 'gray', 'spots', 'full']),
                                     'lam': st.sampled_from([500., 1650.]), 'defocus': st.sampled_from([30., 150., 400., -100.]), 's0': st.sampled_from([1., 60.]),
                                     'flat': st.booleans(), 'steps': st.integers(1, 3), 'seed': st.integers(0, 2**31)}), quick=80, thorough=5000,
              rule='a field with phase errors', double=0.4)
def curvature(c):
    """Both defocused images against the direct Fourier sum, at exact detector geometries (whole internal pixels per detector pixel)."""
    from specula.processing_objects.curvature_sensor import CurvatureSensor
    n, b, npx = c['n'], c['bin'], c['npx']
    M = max(n + c['pad'], npx * b + 2)
    M += M % 2
    F = npx * b
    pitch, lam = 0.2, c['lam'] * 1e-9
    px = b * lam / (M * pitch) * R2A * (1 + 1e-9)
    rng = rng_of(c['seed'])
    amps = [pupil(rng, n, c['kind'])] * c['steps']
    phis = [np.zeros((n, n)) if c['flat'] else phase(rng, n, False) for _ in amps]
    cs = CurvatureSensor(wavelengthInNm=c['lam'], wanted_fov=npx * px, pxscale=px, number_px=npx, defocus_rms_nm=c['defocus'], fov_ovs_coeff=float(b))
    rec = drive(cs, {'in_ef': ef_feed(amps, phis, pitch, c['s0'])}, c['steps'], 0.01, outs=['out_i1', 'out_i2'],)
    y, x = (np.mgrid[:n, :n] - (n - 1) / 2) / (n / 2)
    z4 = np.sqrt(3) * (2 * (x ** 2 + y ** 2) - 1) * (np.hypot(x, y) <= 1)
    u = np.arange(M) - M // 2
    W = np.exp(-2j * np.pi * u[:, None] * np.arange(n)[None] / M)
    yy, xx = np.mgrid[:M, :M] - (M - 1) / 2
    r = np.hypot(xx, yy)
    cut = (M - F) // 2
    binned = lambda a: a[cut:cut + F, cut:cut + F].reshape(npx, b, npx, b).sum((1, 3))
    inside = binned((r < F / 2 - 1).astype(float)) == b * b
    outside = binned((r > F / 2 + 1).astype(float)) == b * b
    for k in range(c['steps']):
        for out, s in (('out_i1', 1), ('out_i2', -1)):
            got, fresh = rec[out][k]
            got = np.asarray(got, float)
            E = amps[k] * np.exp(2j * np.pi / c['lam'] * (phis[k] + s * c['defocus'] * z4))
            I = binned(np.abs(W @ E @ W.T) ** 2)
            check(fresh, f'step {k}: {out} is not refreshed')
            close(got.sum(), c['s0'] * (amps[k]).sum() * pitch ** 2, rtol=1e-4, what=f'step {k}: light in {out}')
            if got[outside].size:
                close(got[outside], np.zeros(outside.sum()), atol=1e-6 * got.max(), what=f'step {k}: light of {out} beyond the field of view')
            if inside.any():
                g, w = got[inside], I[inside]
                close(g / g.sum(), w / w.sum(), rtol=RT * 10, atol=(3e-5 if PREC == 1 else 1e-8) * (w / w.sum()).max(), what=f'step {k}: {out}')
    return 'trivial' if c['flat'] or not inside.any() else str(b)
