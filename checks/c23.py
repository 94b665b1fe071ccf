"""C23: photometry, extended sources, laser spots and air refraction."""
from vlib.drive import *
from checks.mathar import TABLES
from specula.base_value import BaseValue
from specula.lib.n_phot import n_phot
from specula.lib.air_refraction import MatharAirRefraction
from specula.lib.fsoc_lib import calc_paa, calc_effective_wind_speed, calc_timing_uplink_downlink
from specula.lib.calc_noise_cov_elong import calc_noise_cov_elong
from specula.data_objects.source import Source
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.convolution_kernel import ConvolutionKernel
from specula.data_objects.gaussian_convolution_kernel import GaussianConvolutionKernel
from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
from specula.processing_objects.extended_source import ExtendedSource
import contextlib, io, os

CHECK = Check('C23', 'Photometry, extended sources and laser spots', scale=3, assumptions=[
    'CPU arrays', 'extended sources: Gaussian and top-hat samplings with at least one point',
    'kernels on square grids of lenslets'])
A2R = np.pi / 180 / 3600
RT = 2e-5 if PREC == 1 else 1e-9

BANDS = {'default': dict(U=(.36, .068, 435., 23.), B=(.44, .098, 720., 22.), V=(.55, .089, 392., 21.), R=(.70, .22, 176., 20.),
                         I=(.90, .24, 83., 19.5), J=(1.25, .30, 34., 14.), H=(1.65, .35, 7., 13.5), K=(2.2, .4, 3.9, 12.5),
                         L=(3.4, .55, .81, 3.), M=(5., .3, .22, 0.), Na=(.589, .01, 392., 23.)),
         'MAORY-1': dict(V=(.54, .09, 368., 21.4), R=(.65, .13, 177., 20.6), I=(.80, .20, 119., 19.7), J=(1.25, .3, 28.6, 16.5),
                         H=(1.65, .35, 10.8, 14.4), K=(2.2, .40, 3.79, 13.))}
HC = 6.626e-34 * 3e8


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def flux0(lam, width, e0):
    """photons/s/m2 of a magnitude 0 star: lam and width in micron, e0 in 1e-10 W/m2/micron"""
    return lam * 1e-6 * width * e0 * 1e-10 / HC


@CHECK.family(st.fixed_dictionaries(dict(model=st.sampled_from(['default', 'MAORY-1']), i=st.integers(0, 10), by=st.sampled_from(['band', 'lambda', 'both']),
              mag=st.floats(-8, 22), surf=st.floats(0.1, 50), dt=st.floats(1e-4, 10), off=st.floats(-0.012, 0.012),
              width=st.one_of(st.none(), st.floats(0.001, 0.5)), e0=st.one_of(st.none(), st.floats(1, 900)),
              back=st.one_of(st.none(), st.floats(0, 25)))), quick=1500, thorough=20000, rule='always')
def photons(c):
    tab = BANDS[c['model']]
    band = list(tab)[c['i'] % len(tab)]
    lam, width, e0, back = tab[band]
    kw = dict(surf=c['surf'], delta_t=c['dt'], model=c['model'])
    if c['by'] != 'lambda':
        kw['band'] = band
    if c['by'] != 'band':
        if band != 'Na':
            lam += c['off'] if band != 'V' or c['off'] < 0 else 0   # the closest band is still this one
        kw['lambda_'] = lam * 1e-6
    if c['width'] is not None:
        width = c['width']
        kw['width'] = width * 1e-6
    if c['e0'] is not None:
        e0 = c['e0']
        kw['e0'] = e0 * 1e-10
    if c['back'] is not None:
        back = kw['back_mag'] = c['back']
    n, b = quiet(lambda: n_phot(c['mag'], **kw))
    f = flux0(lam, width, e0) * c['surf'] * c['dt']
    close(n, f * 10 ** (-c['mag'] / 2.5), rtol=1e-6, what='photons of the star')
    close(b, f * 10 ** (-back / 2.5), rtol=1e-6, what='photons of the background')
    raises(lambda: n_phot(3.0), 'neither band nor wavelength', ValueError)
    raises(lambda: n_phot(3.0, band='Z9'), 'unknown band', Exception)
    raises(lambda: n_phot(3.0, band='V', model='none'), 'unknown model', Exception)
    return c['by']


@CHECK.family(st.fixed_dictionaries(dict(r=st.floats(0, 120), phi=st.floats(-180, 360), mag=st.floats(-6, 18).map(lambda v: round(v, 6)), wl=st.sampled_from([600.0, 750.0, 1650.0, 589.0]),
              h=st.sampled_from([float('inf'), 90e3, 1e4]), zp=st.sampled_from([0, 0, 4e-8]), band=st.sampled_from(['', 'R', 'H']),
              err=st.sampled_from([(0.0, 0.0), (1.5, 0.0), (0.5, 20.0)]))), quick=750, thorough=10000, rule='always')
def star(c):
    def make():
        return Source([c['r'], c['phi']], c['mag'], c['wl'], height=c['h'], zero_point=c['zp'], band=c['band'], error_coord=c['err'])
    s = quiet(make)
    r, phi = c['r'] + c['err'][0], c['phi'] + c['err'][1]
    t = dict(rtol=1e-5 if PREC == 1 else 1e-12, atol=1e-10)
    close(s.r_arcsec, r, **t)
    close(s.phi_deg, phi, rtol=t['rtol'], atol=1e-4 if PREC == 1 else 1e-9)
    close(s.r, r * A2R, **t)
    close(s.phi, np.deg2rad(phi), rtol=t['rtol'], atol=1e-5 if PREC == 1 else 1e-10)
    if np.isfinite(c['h']):
        d = c['h'] * np.sin(r * A2R)
        a = 3e-5 * d + 1e-9 if PREC == 1 else 1e-9
        close(s.x_coord, d * np.cos(np.deg2rad(phi)), rtol=0, atol=a, what='x of the source')
        close(s.y_coord, d * np.sin(np.deg2rad(phi)), rtol=0, atol=a, what='y of the source')
    # photons per second, m2 and nm
    tab = BANDS['default']
    band = c['band'] or ('Na' if c['wl'] == 589.0 else min((b for b in tab if b != 'Na'), key=lambda b: abs(tab[b][0] - c['wl'] * 1e-3)))
    e0 = c['zp'] * 1e10 if c['zp'] > 0 else tab[band][2]
    close(s.phot_density(), flux0(c['wl'] * 1e-3, 1e-3, e0) * 10 ** (-c['mag'] / 2.5), rtol=1e-6, what='photon density')
    with Scratch() as d:
        f = os.path.join(str(d), 's.fits')
        s.save(f)
        q = quiet(lambda: Source.restore(f))
    for k in ('r_arcsec', 'phi_deg', 'magnitude', 'wavelengthInNm', 'height', 'band', 'zero_point'):
        check(getattr(q, k) == getattr(s, k), 'restored', k, getattr(q, k), getattr(s, k))
    close(q.phot_density(), s.phot_density(), rtol=1e-12)
    return 'finite' if np.isfinite(c['h']) else 'infinite'


EXT = dict(npx=st.integers(8, 80), pitch=st.sampled_from([0.05, 0.1, 0.4]), wl=st.sampled_from([500.0, 750.0, 1650.0]),
           samp=st.sampled_from([0.5, 1.0, 2.0, 1.3]), zen=st.sampled_from([0.0, 30.0, 60.0]))


def ext(c, **kw):
    sp = SimulParams(pixel_pupil=c['npx'], pixel_pitch=c['pitch'], zenithAngleInDeg=c['zen'])
    step = c['samp'] * c['wl'] * 1e-9 / (c['npx'] * c['pitch']) / A2R
    return step, lambda: quiet(lambda: ExtendedSource(sp, c['wl'], sampling_lambda_over_d=c['samp'], **kw))


def tip(c, a):
    """coefficient (rad rms) of the tip which moves the source by the angle a (arcsec)"""
    return a * A2R * c['npx'] * c['pitch'] * 2 * np.pi / (c['wl'] * 1e-9) / 4


def read(c, e):
    v = np.asarray(e.outputs['coeff'].value, float)
    if len(v) == 0:
        return np.zeros((4, 0))
    check(v.ndim == 2 and v.shape[1] == 4 and len(v) == e.npoints, 'rows of four coefficients', v.shape, e.npoints)
    rt = 1e-5 if PREC == 1 else 1e-9
    close(v[:, 0], tip(c, np.asarray(e.xx_arcsec, float)), rtol=rt, atol=rt * max(abs(v[:, 0]).max(), 1e-6), what='tip coefficients')
    close(v[:, 1], tip(c, np.asarray(e.yy_arcsec, float)), rtol=rt, atol=rt * max(abs(v[:, 1]).max(), 1e-6), what='tilt coefficients')
    check((v[:, 3] >= 0).all() and np.isfinite(v).all(), 'fluxes')
    return np.asarray(e.xx_arcsec, float), np.asarray(e.yy_arcsec, float), v[:, 2], v[:, 3]


@CHECK.family(st.fixed_dictionaries(dict(kind=st.sampled_from(['TOPHAT', 'GAUSS', 'POINT_SOURCE']), sampling=st.sampled_from(['CARTESIAN', 'POLAR', 'RINGS']),
              size=st.floats(4, 25), rings=st.one_of(st.none(), st.integers(1, 6)), thr=st.sampled_from([0.0, 0.0, 0.3, 1.0]), **EXT)),
              quick=900, thorough=8000, rule='more than one point')
def extended_shape(c):
    # size in steps of the sampling
    step = c['samp'] * c['wl'] * 1e-9 / (c['npx'] * c['pitch']) / A2R
    size = c['size'] * step
    kind, how = c['kind'], c['sampling']
    if kind == 'GAUSS' and how == 'POLAR':
        step, mk = ext(c, source_type=kind, sampling_type=how, size_obj=size)
        raises(mk, 'polar Gaussian', ValueError)
        return 'trivial'
    half = size / 2 if kind == 'TOPHAT' else 3 * size / 2.354820045
    rings = c['rings']
    if how == 'RINGS' and rings is None and half < 3 * 5 * step / c['samp']:
        rings = 2
    step, mk = ext(c, source_type=kind, sampling_type=how, size_obj=size, n_rings=rings, flux_threshold=c['thr'])
    e = mk()
    x, y, foc, f = read(c, e)
    check((foc == 0).all(), 'focus of a two-dimensional source')
    if kind == 'POINT_SOURCE':
        check(len(x) == 1 and x[0] == 0 and y[0] == 0 and f[0] == (1 if c['thr'] < 1 else f[0]), 'point source') if c['thr'] < 1 else None
        raises(ext(c, source_type='TOPHAT', sampling_type=how)[1], 'no size', ValueError)
        raises(ext(c, source_type='DISC', sampling_type=how, size_obj=1.0)[1], 'unknown type', ValueError)
        return 'trivial'
    r = np.hypot(x, y)
    if len(r) == 0:
        return 'trivial'
    check((r <= half * np.sqrt(2) * (1 + 1e-5) + step).all(), 'points outside the source')
    # all the directions are alike
    if c['thr'] == 0:
        close(f.sum(), 1, rtol=1e-5, what='total flux')
        close([(x * f).sum(), (y * f).sum()], [0, 0], rtol=0, atol=1e-3 * step + (step if how != 'CARTESIAN' and len(x) < 12 else 0), what='centroid')
    if kind == 'TOPHAT':
        check((r <= half * (1 + 1e-5)).all(), 'points outside the disc')
        if c['thr'] < 1:
            close(f, np.full(len(f), f[0]), rtol=1e-5, what='uniform flux')
            close(f[0] * len(f), 1, rtol=1e-5, what='total flux')
            # every part of the disc has a point nearby
            rng = rng_of(len(x))
            q, t = half * np.sqrt(rng.random(60)), rng.uniform(0, 2 * np.pi, 60)
            near = np.hypot(q * np.cos(t) - x[:, None], q * np.sin(t) - y[:, None]).min(0).max()
            n = max(int(np.round(size / step / 2)), 1)
            reach = 1.6 * size / (2 * n - 1) if how == 'CARTESIAN' else (max(half / max(n - 1, 1), step) * 1.1 if n > 1 else half)
            if how == 'RINGS':
                n = rings or max(1, int(round(half / (5 * step / c['samp']))))
                reach = half / n / 2 + step * 0.6 if n > 1 else half
            check(near <= reach * 1.05, 'a part of the disc is not sampled', near / step)
    else:
        sig = size / 2.354820045
        w = np.exp(-r**2 / 2 / sig**2)
        close(f / f.max(), w / w.max(), rtol=1e-4, what='Gaussian flux')
        if how == 'CARTESIAN' and c['thr'] == 0:
            # every node of the grid over 10% of the peak is there
            n = int(np.round(3 * sig / step)) * 2
            g = (np.arange(n) - (n - 1) / 2) * step
            W = np.exp(-(g[:, None]**2 + g**2) / 2 / sig**2)
            lo, hi = (W > 0.1 * W.max() * 1.0001).sum(), (W > 0.1 * W.max() * 0.9999).sum()
            if np.round(3 * sig / step + 1e-6) == np.round(3 * sig / step - 1e-6):
                check(lo <= len(x) <= hi, 'number of points', len(x), lo, hi)
    return f'{kind} {how}'


def bilin(p, y, x):
    y, x = np.clip(y, 0, p.shape[0] - 1), np.clip(x, 0, p.shape[1] - 1)
    i, j = np.minimum(y.astype(int), p.shape[0] - 2), np.minimum(x.astype(int), p.shape[1] - 2)
    a, b = y - i, x - j
    return p[i, j] * (1 - a) * (1 - b) + p[i + 1, j] * a * (1 - b) + p[i, j + 1] * (1 - a) * b + p[i + 1, j + 1] * a * b


def check_psf(c, e, p, scale, step, thr):
    x, y, foc, f = read(c, e)
    n = p.shape[0]
    v = bilin(p, y / scale + n / 2, x / scale + n / 2)
    check(len(x) > 0 and abs(x).max() <= n * scale / 2 * 1.001 and abs(y).max() <= n * scale / 2 * 1.001, 'points outside the PSF')
    t = 1e-4 if PREC == 1 else 1e-6
    close(f * v.sum(), v * f.sum(), rtol=t, atol=t * v.max() * f.sum(), what='flux in proportion to the PSF')
    if thr == 0:
        close(f.sum(), 1, rtol=1e-5, what='total flux')
    return len(x)


@CHECK.family(st.fixed_dictionaries(dict(n=st.integers(3, 12), m=st.lists(st.integers(3, 12), min_size=1, max_size=4), crop=st.booleans(),
              sampling=st.sampled_from(['CARTESIAN', 'POLAR']), ratio=st.sampled_from([0.5, 1.0, 0.8, 2.0]), dark=st.integers(0, 4),
              thr=st.sampled_from([0.0, 0.0, 0.5]), connected=st.sampled_from([True, True, True, False]), seed=st.integers(0, 9999), **EXT)), quick=180, thorough=2000,
              rule='the PSF changes')
def extended_psf(c):
    """The output follows the PSF: a history of PSFs, some dark, cropped or padded to the first size."""
    rng = rng_of(c['seed'])
    step = c['samp'] * c['wl'] * 1e-9 / (c['npx'] * c['pitch']) / A2R
    scale = step * c['ratio']
    n = 2 * c['n']
    p0 = np.asarray(rng.uniform(0.1, 1, (n, n)), DT)
    keep = p0.copy()
    step, mk = ext(c, source_type='FROM_PSF', sampling_type=c['sampling'], initial_psf=p0, pixel_scale_psf=scale, crop_psf=c['crop'],
                   flux_threshold=c['thr'])
    e = mk()
    first = np.array(e.outputs['coeff'].value)
    check_psf(c, e, p0.astype(float), scale, step, c['thr'])
    seq = []
    for k, m in enumerate(c['m']):
        m = 2 * m if c['crop'] else n
        q = np.asarray(rng.uniform(0.1, 1, (m, m)), DT)
        if k == c['dark']:
            q[:] = 0
        seq.append(q)
    if not c['connected']:
        rec = drive(e, {}, len(seq), outs=['coeff'])
        check(not any(v[1] for v in rec['coeff']), 'an output without a PSF')
        same(np.asarray(e.outputs['coeff'].value), first)
        return 'trivial'
    cur, want = p0.astype(float), []
    for q in seq:
        m = q.shape[0]
        if q.any():
            if m >= n:
                d = (m - n) // 2
                cur = q[d:d + n, d:d + n].astype(float)
            else:
                cur = np.zeros((n, n))
                d = (n - m) // 2
                cur[d:d + m, d:d + m] = q
        want.append(cur)
    val = BaseValue(value=seq[0].copy())
    e.inputs['psf'].set(val)
    e.setup()
    t = 0
    for k, q in enumerate(seq):
        t += 1000
        val.value = q.copy()
        val.generation_time = t
        e.check_ready(t)
        e.trigger()
        e.post_trigger()
        same(val.value, q, 'the PSF is changed')
        check((e.outputs['coeff'].generation_time == t) == bool(q.any()), 'freshness of the output', k)
        check_psf(c, e, want[k], scale, step, c['thr'])
    same(p0, keep, 'the initial PSF is changed')
    return 'crop' if c['crop'] else 'same size'


@CHECK.family(st.fixed_dictionaries(dict(kind=st.sampled_from(['POINT_SOURCE', 'GAUSS', 'TOPHAT']), nl=st.integers(2, 6), focus=st.sampled_from([None, 85e3, 90e3]),
              tt=st.booleans(), seed=st.integers(0, 9999), size=st.floats(4, 10), **EXT)), quick=360, thorough=4000, rule='always')
def extended_3d(c):
    rng = rng_of(c['seed'])
    step = c['samp'] * c['wl'] * 1e-9 / (c['npx'] * c['pitch']) / A2R
    h = np.sort(rng.uniform(80e3, 100e3, c['nl']))
    w = rng.uniform(0.05, 1, c['nl'])
    tt = [list(v) for v in rng.normal(size=(c['nl'], 2)) * step] if c['tt'] else None
    kw = dict(source_type=c['kind'], sampling_type='CARTESIAN', size_obj=c['size'] * step)
    one = ext(c, **kw)[1]()
    x, y, foc, f = read(c, one)
    hs, ws = list(h), list(w)
    e = ext(c, layer_height=hs, intensity_profile=ws, focus_height=c['focus'], tt_profile=tt, **kw)[1]()
    check(hs == list(h) and ws == list(w), 'the profile of the caller is changed')
    X, Y, F, W = read(c, e)
    am = 1 / np.cos(np.deg2rad(c['zen']))
    D = c['npx'] * c['pitch']
    for i in range(c['nl']):
        s = np.s_[i * len(x):(i + 1) * len(x)]
        dx, dy = tt[i] if tt else (0, 0)
        a = 1e-5 * step * 100
        close(X[s], x + dx, rtol=1e-5, atol=a, what='x of a layer')
        close(Y[s], y + dy, rtol=1e-5, atol=a, what='y of a layer')
        close(W[s], f * w[i], rtol=1e-5, what='flux of a layer')
        # focus coefficient (rad rms), for a small change of the distance
        H = h[i] * am
        curv = (H - c['focus'] * am) / H**2 if c['focus'] else -1 / H
        close(F[s], np.full(len(x), D**2 / 16 / np.sqrt(3) * curv * 2 * np.pi / (c['wl'] * 1e-9)), rtol=1e-4,
              atol=1e-4 * D**2 / 16 / 1.7 / H * 2 * np.pi / (c['wl'] * 1e-9), what='focus of a layer')
    raises(ext(c, layer_height=hs, intensity_profile=ws[1:], focus_height=c['focus'], **kw)[1], 'profile of another length', ValueError)
    return c['kind']


def spots(nsh, diam, rl, zb, dz, prof, fwhm, ps, ssp, overs, theta):
    """float64 images of a layered spot seen by each subaperture, normalised: [y, x, row, col]."""
    s = np.linspace(-diam / 2, diam / 2, nsh)
    a = np.linspace(-ssp * ps / 2, ssp * ps / 2, ssp * overs)[::overs] * A2R
    sig = fwhm * A2R * zb / 2.3548200450309493
    rb = np.array([theta[0] * A2R * zb, theta[1] * A2R * zb])
    el = (rb - np.asarray(rl[:2])) / (zb - rl[2])
    out = np.zeros((nsh, nsh, ssp, ssp))
    for iy in range(nsh):
        for ix in range(nsh):
            for z, p in zip(dz, prof):
                # transverse distance between the line of sight and the beam at this height
                X = a * zb + z * (a - s[ix] / zb) - (rb[0] + z * el[0])
                Y = a * zb + z * (a - s[iy] / zb) - (rb[1] + z * el[1])
                out[iy, ix] += max(p, 0) * np.exp(-(X[None]**2 + Y[:, None]**2) / 2 / sig**2)
            if out[iy, ix].max() < 3e-3 * np.sum(prof):
                out[iy, ix] = np.nan            # the spot is out of sight: the tail of a Gaussian
            out[iy, ix] /= out[iy, ix].sum()
    return out


SPOT = dict(n=st.integers(1, 4), ssp=st.sampled_from([4, 6, 8, 11]), ps=st.sampled_from([0.2, 0.5]), diam=st.sampled_from([4.0, 8.0, 30.0]),
            overs=st.integers(1, 3), pos=st.booleans(), fft=st.booleans(), airmass=st.sampled_from([1.0, 1.3]), seed=st.integers(0, 9999))


def judge(k, want, fft, what):
    n, ssp = want.shape[0], want.shape[-1]
    want = want.reshape(n * n, ssp, ssp)
    got = np.asarray(k.kernels)
    check(got.shape == want.shape, 'shape', got.shape)
    seen = np.isfinite(want[:, 0, 0])
    if not seen.any():
        return
    got, want = got[seen], want[seen]
    if fft:
        want = np.fft.ifft2(want)
        check(np.iscomplexobj(got), 'complex kernels')
    close(got, want, rtol=0, atol=2e-3 * abs(want).max(), what=what)
    if not fft:
        close(got.sum((1, 2)), np.ones(len(got)), rtol=1e-4, what='total of each spot')
        check((got >= 0).all(), 'negative spot')


@CHECK.family(st.fixed_dictionaries(dict(SPOT, steps=st.lists(st.sampled_from(['same', 'heights', 'profile', 'seeing', 'theta', 'focus', 'size', 'launcher', 'back']),
              min_size=1, max_size=5), two=st.booleans())), quick=180, thorough=2500, rule='the kernel changes')
def laser_spots(c):
    """A history of sodium profiles and settings, with the kernels kept on disk: always those of the current settings."""
    rng = rng_of(c['seed'])
    nl = int(rng.integers(1, 5))
    cur = dict(h=rng.uniform(8e4, 1e5, nl), p=rng.uniform(0.1, 1, nl), seeing=1.0, theta=[0.0, 0.0], focus=9e4, size=1.2,
               rl=[float(v) for v in rng.uniform(-c['diam'], c['diam'], 2)] + [float(rng.choice([0.0, 3.0]))])
    hist = [dict(cur)]
    for s in c['steps']:
        cur = dict(cur)
        if s == 'heights':
            cur['h'] = cur['h'] + rng.uniform(100, 3000)
        elif s == 'profile':
            cur['p'] = rng.uniform(0.1, 1, nl)
        elif s == 'seeing':
            cur['seeing'] = float(rng.uniform(1, 2))
        elif s == 'theta':
            cur['theta'] = [float(v) for v in rng.normal(size=2) * 0.3]
        elif s == 'focus':
            cur['focus'] = -1 if rng.random() < 0.3 else float(rng.uniform(8.5e4, 9.5e4))
        elif s == 'size':
            cur['size'] = float(rng.uniform(1, 2))
        elif s == 'launcher':
            cur['rl'] = [cur['rl'][1], cur['rl'][0], cur['rl'][2]]
        elif s == 'back':
            cur = dict(hist[0])
        hist.append(cur)
    with Scratch() as d:
        def make(v):
            return ConvolutionKernel(c['n'], c['n'], c['ps'], c['diam'], c['ssp'], launcher_pos=list(v['rl']), seeing=v['seeing'], launcher_size=v['size'],
                                     zfocus=v['focus'], theta=list(v['theta']), airmass=c['airmass'], oversampling=c['overs'], return_fft=c['fft'],
                                     positive_shift_tt=c['pos'], data_dir=str(d))
        k = make(hist[0])
        for i, v in enumerate(hist):
            if c['two'] and i:
                k = make(v)                     # another object, same directory
            k.seeing, k.launcher_size, k.zfocus = v['seeing'], v['size'], v['focus']
            k.theta, k.launcher_pos = k.to_xp(v['theta']), k.to_xp(v['rl'])
            h, p = v['h'].copy(), v['p'].copy()
            quiet(lambda: k.prepare_for_sh(sodium_altitude=h, sodium_intensity=p, current_time=i + 5))
            check(k.generation_time == i + 5, 'generation time')
            same(h, v['h'], 'the heights are changed')
            same(p, v['p'], 'the profile is changed')
            zf = v['focus'] if v['focus'] != -1 else (v['h'] * v['p']).sum() / v['p'].sum()
            zf *= c['airmass']
            off = (0.5 if c['pos'] else -0.5) * c['ps']
            judge(k, spots(c['n'], c['diam'], v['rl'], zf, v['h'] * c['airmass'] - zf, v['p'], np.hypot(v['seeing'], v['size']), c['ps'], c['ssp'],
                           c['overs'], [t + off for t in v['theta']]), c['fft'], f'spots after {["start", *c["steps"]][i]}')
    return 'trivial' if set(c['steps']) == {'same'} else 'history'


@CHECK.family(st.fixed_dictionaries(dict(SPOT, w=st.floats(0.8, 3), w2=st.floats(0.8, 3))), quick=180, thorough=2000, rule='always')
def gaussian_spots(c):
    def make(w, d):
        return GaussianConvolutionKernel(c['n'], c['n'], c['ps'], c['ssp'], w, pupil_size_m=c['diam'], return_fft=c['fft'],
                                         positive_shift_tt=c['pos'], data_dir=d)
    off = (0.5 if c['pos'] else -0.5) * c['ps']
    with Scratch() as d:
        for w in (c['w'], c['w2'], c['w']):
            k = make(w, str(d))
            quiet(lambda: k.prepare_for_sh())
            judge(k, spots(c['n'], c['diam'], [0, 0, 0], 9e4, [0.], [1.], w, c['ps'], c['ssp'], 1, [off, off]), c['fft'], 'Gaussian spots')
    return f"n={c['n']}"


@CHECK.family(st.fixed_dictionaries(dict(zen=st.sampled_from([0.0, 20.0, 60.0]), h=st.floats(8e4, 1e5), pos=st.booleans(), tt=st.booleans())),
              quick=120, thorough=300, rule='always')
def launch_telescope(c):
    sp = SimulParams(pixel_pupil=8, pixel_pitch=1.0, zenithAngleInDeg=c['zen'])
    pos = [3.0, -1.0, 0.0] if c['pos'] else []
    tt = [0.5, -0.25] if c['tt'] else [0.0, 0.0]
    l = quiet(lambda: LaserLaunchTelescope(sp, spot_size=1.5, tel_position=pos, beacon_focus=c['h'], beacon_tt=tt))
    close(l.beacon_focus, c['h'] / np.cos(np.deg2rad(c['zen'])), rtol=1e-6, what='distance of the beacon')
    check(list(l.tel_pos) == pos and list(l.beacon_tt) == tt and l.spot_size == 1.5, 'parameters')
    if pos:
        raises(lambda: quiet(lambda: LaserLaunchTelescope(None, spot_size=1.5, tel_position=pos)), 'no zenith angle', ValueError)
    return str(c['pos'])


@CHECK.family(st.fixed_dictionaries(dict(wl=st.floats(0.35, 2.45), wl2=st.floats(0.35, 2.45), T=st.floats(0, 25), P=st.floats(60000, 102000),
              H=st.floats(0, 50))), quick=900, thorough=10000, rule='always')
def refraction(c):
    m = MatharAirRefraction()
    n = lambda w, T=c['T'], P=c['P'], H=c['H']: m.get_refractive_index(np.asarray(w) * 1e-6, T, P, H)
    a, b = float(n(c['wl'])), float(n(c['wl2']))
    both = n(np.array([c['wl'], c['wl2'], c['wl']]))
    close(both, [a, b, a], rtol=1e-12, what='several wavelengths at once')
    # dry air at 15 C and 1 atm (Edlen 1966), scaled with the density
    std = lambda w: 1e-8 * (8342.13 + 2406030 / (130 - w**-2) + 15997 / (38.9 - w**-2))
    dens = c['P'] / 101325 * 288.15 / (c['T'] + 273.15)
    close(a, std(c['wl']) * dens, rtol=8e-3, what='refractivity of air')
    if abs(c['wl'] - c['wl2']) > 0.02 and max(c['wl'], c['wl2']) < 2.0 and (c['wl'] < 1.3) == (c['wl2'] < 1.3):
        check((a - b) * (c['wl2'] - c['wl']) > 0, 'more refractive towards the blue', a, b)
        # same amount of dispersion
        close(a - b, (std(c['wl']) - std(c['wl2'])) * dens, rtol=0.1, atol=2e-8, what='dispersion')
    check(float(n(c['wl'], P=c['P'] * 1.02)) > a, 'more refractive at a higher pressure')
    check(float(n(c['wl'], T=c['T'] + 3)) < a, 'less refractive when hot')
    return 'visible' if c['wl'] < 1.3 else 'infrared'


def refractivity(w, T, P, H):
    """Ciddor (1996) with ideal gases below 1.3 um, Mathar (2007) above."""
    K = T + 273.15
    if w < 1.3:
        s2 = w**-2.0
        dry = 1e-8 * (5792105.0 / (238.0185 - s2) + 167917.0 / (57.362 - s2))
        wet = 1e-8 * 1.022 * (295.235 + 2.6422 * s2 - 0.03238 * s2**2 + 0.004028 * s2**3)
        svp = np.exp(1.2378847e-5 * K**2 - 1.9121316e-2 * K + 33.93711047 - 6.3431645e3 / K)
        pw = H / 100 * svp * (1.00062 + 3.14e-8 * P + 5.6e-7 * T**2)
        return dry * (P - pw) / 101325 * 288.15 / K + wet * pw / 1333 * 293.15 / K
    band = next((b for b in TABLES.values() if b[0][0] <= w <= b[0][1]), TABLES['K'])
    a, h, p = 1 / K - 1 / 290.65, H - 10, P - 75000
    x = np.array([1, a, a * a, h, h * h, p, p * p, a * h, a * p, h * p])
    return sum(float(np.dot(row, x)) * (1e4 / w - 1e4 / band[1])**i for i, row in enumerate(band[2]))


@CHECK.family(st.fixed_dictionaries(dict(wl=st.lists(st.one_of(st.floats(0.35, 1.35), st.floats(1.3, 2.6), st.floats(2.7, 4.3), st.floats(4.3, 5.4), st.floats(7.4, 14.2),
              st.floats(15.9, 28.2)), min_size=1, max_size=5), T=st.floats(-20, 40), P=st.floats(50000, 102000), H=st.floats(0, 100))), quick=1200, thorough=20000, rule='always')
def refraction_tables(c):
    """The published fits themselves, in all the bands."""
    got = np.atleast_1d(MatharAirRefraction().get_refractive_index(np.array(c['wl']) * 1e-6, c['T'], c['P'], c['H']))
    check(got.shape == (len(c['wl']),), 'one value per wavelength', got.shape)
    for w, g in zip(c['wl'], got):
        if min(abs(w - e) for b in TABLES.values() for e in b[0]) < 1e-9:
            continue
        close(g, refractivity(w, c['T'], c['P'], c['H']), rtol=1e-7, atol=1e-13, what=f'refractivity at {w} um')
    return 'always'


@CHECK.family(st.fixed_dictionaries(dict(v=st.floats(100, 9000), h=st.floats(3e5, 4e7), n=st.integers(0, 5), od=st.floats(-180, 180), zen=st.floats(0, 70),
              seed=st.integers(0, 9999))), quick=450, thorough=5000, rule='always')
def satellite(c):
    rng = rng_of(c['seed'])
    n = c['n']
    lay = rng.uniform(0, 2e4, n) if n else float(rng.uniform(0, 2e4))
    w = rng.uniform(0, 40, n) if n else 12.0
    d = rng.uniform(-179, 179, n) if n else 77.0
    C = 299792458.0
    close(calc_paa(c['v']), 2 * c['v'] / C / A2R, rtol=1e-12, what='point-ahead angle')
    s, a = calc_effective_wind_speed(lay, w, d, c['h'], c['v'], c['od'])
    # wind and slewing of the line of sight at each height
    slew = np.tan(2 * c['v'] / C) * lay / (c['h'] / C)
    z = w * np.exp(1j * np.deg2rad(d)) + slew * np.exp(1j * np.deg2rad(c['od']))
    close(s, abs(z), rtol=1e-9, atol=1e-9, what='effective wind speed')
    # the direction rebuilds the vector
    close(s * np.exp(1j * np.deg2rad(a)), z, rtol=1e-9, atol=1e-7, what='effective wind direction')
    up, dn = calc_timing_uplink_downlink(c['zen'], c['h'], lay)
    am = 1 / np.cos(np.deg2rad(c['zen']))
    close(dn, lay * am / C, rtol=1e-12, what='time down')
    close(up, (2 * c['h'] - lay) * am / C, rtol=1e-12, what='time up')
    close(up + dn, np.zeros(np.shape(lay)) + 2 * c['h'] * am / C, rtol=1e-12, what='round trip')
    return f'n={n}'


@CHECK.family(st.fixed_dictionaries(dict(n=st.integers(2, 8), D=st.sampled_from([8.0, 30.0]), zen=st.sampled_from([0.0, 40.0]), th=st.floats(5e3, 2e4),
              trunc=st.sampled_from([0, 0, 0.2, 0.5]), diag=st.booleans(), s2=st.floats(0.01, 4), fwhm=st.floats(0.8, 2), seed=st.integers(0, 9999))),
              quick=450, thorough=5000, rule='always')
def elongation_noise(c):
    rng = rng_of(c['seed'])
    n = c['n']
    idx = np.sort(rng.permutation(n * n)[:int(rng.integers(2, n * n + 1))])
    k = len(idx)
    rl = rng.uniform(-c['D'], c['D'], 2) + 1e-3
    f = lambda **kw: quiet(lambda: calc_noise_cov_elong(c['D'], c['zen'], c['th'], rl, idx, n, 4.0, c['fwhm'], kw.pop('s2', c['s2']),
                                                        kw.pop('trunc', c['trunc']), only_diag=c['diag'], **kw))
    M = f()
    check(M.shape == (2 * k, 2 * k) and np.isfinite(M).all(), 'shape', M.shape)
    close(M, M.T, rtol=1e-12, what='symmetric')
    w = np.linalg.eigvalsh(M)
    check(w.min() >= -1e-9 * w.max(), 'not positive', w.min())
    close(f(s2=2 * c['s2']), M / 2, rtol=1e-9, what='inverse of the noise variance')
    # different subapertures are not correlated
    B = np.abs(M) > 0
    allow = np.tile(np.eye(k, dtype=bool), (2, 2)) if not c['diag'] else np.eye(2 * k, dtype=bool)
    check(not (B & ~allow).any(), 'correlation between subapertures')
    # elongation of the spot: angle subtended by the layer from the distance of the launcher
    am = 1 / np.cos(np.deg2rad(c['zen']))
    H, T = 9e4 * am, c['th'] * am
    x = np.array([idx % n, idx // n]) * c['D'] / n - c['D'] / 2 - rl[:, None]
    b = (np.arctan(x / (H - T / 2)) - np.arctan(x / (H + T / 2))) / A2R
    cov = lambda i: c['s2'] * np.array([[1 + b[0, i]**2 / c['fwhm']**2, b[0, i] * b[1, i] / c['fwhm']**2],
                                        [b[0, i] * b[1, i] / c['fwhm']**2, 1 + b[1, i]**2 / c['fwhm']**2]])
    far = np.abs(x) if c['diag'] else np.abs(x).max(0)
    if c['diag']:
        m = int(c['trunc'] * 2 * k)
        d = far.ravel()
        order = np.argsort(d)
        want = np.concatenate([1 / c['s2'] / (1 + b[0]**2 / c['fwhm']**2), 1 / c['s2'] / (1 + b[1]**2 / c['fwhm']**2)])
        if m and d[order[2 * k - m]] - d[order[2 * k - m - 1]] < 1e-9 and m < 2 * k:
            raise Skip()
        if m:
            want[order[2 * k - m:]] *= 0.25
        close(np.diag(M), want, rtol=1e-6, what='weights')
    else:
        m = int(c['trunc'] * k)
        order = np.argsort(far)
        if m and m < k and far[order[k - m]] - far[order[k - m - 1]] < 1e-9:
            raise Skip()
        for q, i in enumerate(order):
            s = np.ix_([i, i + k], [i, i + k])
            if q < k - m:
                close(M[s], np.linalg.inv(cov(i)), rtol=1e-6, atol=1e-9 / c['s2'], what='inverse of the noise covariance')
            else:
                # truncated spots: nothing is measured along the elongation
                e = b[:, i] / np.hypot(*b[:, i])
                close(M[s], np.outer([e[1], -e[0]], [e[1], -e[0]]) / c['s2'], rtol=1e-6, atol=1e-9 / c['s2'], what='truncated spot')
    return 'diagonal' if c['diag'] else 'full'


if __name__ == '__main__':
    CHECK.main()
