"""C18: Shack-Hartmann image formation."""
from vlib.drive import *
import contextlib
import io
from checks.c23 import spots
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.subap_data import SubapData
from specula.processing_objects.sh import SH
from specula.processing_objects.poly_chrom_sh import PolyChromSH
from specula.processing_objects.distributed_sh import DistributedSH
from specula.processing_objects.ideal_derivative_sensor import IdealDerivativeSensor

CHECK = Check('C18', 'Shack-Hartmann images are the diffraction images of the lenslets', scale=2, assumptions=[
    'the pupil is square and has some light',
    'exact images: whole pixels per lenslet, an even number of field pixels, and a field of view inside the turbulence field of view '
    '(no interpolation of the field); the other geometries are checked by invariance',
    'no field stop edge within rounding of the centre of a pixel'])
R2A = 3600 * 180 / np.pi
RT = 3e-4 if PREC == 1 else 1e-9


def pupil(rng, n, kind):
    y, x = np.mgrid[:n, :n] - (n - 1) / 2
    if kind == 'full':
        return np.ones((n, n))
    if kind == 'disc':
        r = np.hypot(x, y) / (n / 2)
        return ((r < 1) & (r > 0.2)).astype(float)
    if kind == 'gray':
        return rng.uniform(0.2, 1.5, (n, n))
    a = (rng.random((n, n)) < 0.6).astype(float)
    a[0, 0] = 1
    return a


def phases(rng, n, k, rough):
    out = []
    y, x = np.mgrid[:n, :n] / n
    for _ in range(k):
        p = rng.normal(size=(n, n)) * (80 if rough else 5)
        for _ in range(3):
            a, b, c = rng.normal(size=3)
            p += 300 * np.sin(3 * (a * x + b * y + c))
        out.append(p)
    return out


def ef_feed(amps, phis, pitch, s0):
    n = amps[0].shape[0]
    o = ElectricField(n, n, pitch, S0=s0)

    def script(k, o):
        o.A = np.asarray(amps[k], dtype=DT)
        o.phaseInNm = np.asarray(phis[k], dtype=DT)
        return True
    return o, script


def area_bin(f, npx):
    """(npx, f) matrix which sums the f input pixels, weighted with their overlap, on npx pixels covering the same length."""
    e = np.arange(npx + 1) * f / npx
    i = np.arange(f)
    return np.clip(np.minimum(e[1:, None], i[None] + 1) - np.maximum(e[:-1, None], i[None]), 0, None)


def sh_image(amp, phi, lam, n, p, N, W, square, F, npx):
    """float64 images of the lenslets, before the normalisation. W: side/diameter of the field stop in FFT pixels."""
    k = np.arange(N) - (N - 1) / 2
    D = np.exp(-2j * np.pi * np.outer(k, np.arange(p)) / N)
    kk = np.abs(k[:, None]), np.abs(k[None, :])
    m = (np.maximum(*kk) <= W / 2) if square else (np.hypot(*kk) < W / 2)
    B = area_bin(F, npx)
    c = (N - F) // 2
    out = np.zeros((n * npx, n * npx))
    E = amp * np.exp(2j * np.pi * phi / lam)
    for i in range(n):
        for j in range(n):
            I = np.abs(D @ E[i * p:(i + 1) * p, j * p:(j + 1) * p] @ D.T)**2 * m
            out[i * npx:(i + 1) * npx, j * npx:(j + 1) * npx] = B @ I[c:c + F, c:c + F] @ B.T
    return out


def stop_clear(N, W, square):
    k = np.arange(N) - (N - 1) / 2
    if square:
        return np.all(np.abs(np.abs(k) - W / 2) > 1e-3)
    return np.all(np.abs(np.hypot(k[:, None], k[None, :]) - W / 2) > 1e-3)


def geometry(c):
    """Configuration with a known internal sampling. Returns n, p, N, m, F, pitch, lam, kwargs."""
    n, lam, npx = c['n'], c['lam'], c['npx']
    half = c['res'] == 'half'
    m = c['m'] + (2 if half else 1)               # pixels of the FFT in a sensor pixel
    npx += (m * npx) % 2
    F = m * npx
    p = 2 * max(c['halfp'], -(-F // (4 if half else 2)))
    if half:
        N, turb = 2 * p, max(c['turb'], 2.2 / m)  # sensor pixel > 1": half the turbulence pixel is used
    else:
        N, turb = p, c['turb']
    fft_px = turb * p / N
    d = lam * 1e-9 / turb * R2A
    W = max(2, round(c['stop'] * N))
    kw = dict(wavelengthInNm=lam, subap_wanted_fov=(W + 0.37) * fft_px, sensor_pxscale=m * fft_px, subap_on_diameter=n, subap_npx=npx,
              squaremask=c['square'], fov_ovs_coeff=c['coeff'], set_fov_res_to_turbpxsc=c['res'] == 'turb')
    if not stop_clear(N, W + 0.37, c['square']):
        raise Skip
    return n, p, N, F, npx, W + 0.37, d / p, lam, kw


geo = dict(n=st.sampled_from([2, 3, 4, 5, 1]), halfp=st.integers(2, 8), lam=st.sampled_from([500., 633., 1650., 2200.]), m=st.integers(1, 4),
           npx=st.integers(1, 12), turb=st.sampled_from([0.3, 0.7, 1.5]), res=st.sampled_from(['half', 'turb']),
           square=st.booleans(), coeff=st.sampled_from([0, 1.0]), stop=st.floats(0.3, 1.2))
field = dict(kind=st.sampled_from(['full', 'disc', 'gray', 'holes']), rough=st.booleans(), s0=st.floats(0.1, 1e4),
             steps=st.integers(1, 3), seed=st.integers(0, 2**31))


def make_fields(c, rng, size):
    amps = [pupil(rng, size, c['kind']) for _ in range(c['steps'])]
    phis = phases(rng, size, c['steps'], c['rough'])
    if c['kind'] in ('disc', 'holes') and c['seed'] % 2:
        phis = [p + 1e4 * (a == 0) * rng.normal(size=a.shape) for a, p in zip(amps, phis)]
    return [np.asarray(a, DT).astype(float) for a in amps], [np.asarray(p, DT).astype(float) for p in phis]


def expected(c, g, a, p):
    n, pp, N, F, npx, W, pitch, lam, kw = g
    im = sh_image(a, p, lam, n, pp, N, W, c['square'], F, npx)
    if not im.sum() > 1e-4 * (a**2).sum() * N**2:
        raise Skip                                # next to nothing passes the field stop
    return im / im.sum() * c['s0'] * a.sum() * pitch**2


@CHECK.family(st.fixed_dictionaries({**geo, **field, 'other': st.sampled_from(['none', 'bigger', 'offset', 'same'])}),
              quick=70, thorough=3000, rule='more than one lenslet, turbulent phase', double=0.4)
def exact_image(c):
    if c['other'] == 'bigger':
        c = dict(c, res='half', steps=max(2, c['steps']))
    g = geometry(c)
    n, p, N, F, npx, W, pitch, lam, kw = g
    rng = rng_of(c['seed'])
    amps, phis = make_fields(c, rng, n * p)
    want = [expected(c, g, a, q) for a, q in zip(amps, phis)]
    sh = SH(**kw)
    extra = []
    if c['other'] != 'none':
        # another sensor in the same simulation, which runs after this one at every step
        kw2 = dict(kw)
        if c['other'] == 'bigger':                # same FFT size, more pixels in the lenslets
            p2, kw2['set_fov_res_to_turbpxsc'] = N, True
        else:
            p2 = p
        size = n * p2
        a2, q2 = pupil(rng, size, 'full'), phases(rng, size, 1, True)[0]
        e2 = ElectricField(size, size, pitch * p / p2, S0=100.)
        e2.A, e2.phaseInNm, e2.generation_time = a2, q2, 0
        other = SH(**kw2, **({} if c['other'] != 'offset' else dict(xShiftPhInPixel=1)))
        other.inputs['in_ef'].set(e2)

        class Late(BaseProcessingObj):
            def check_input_names(self): pass
            def check_output_names(self): pass

            def setup(self):
                super().setup()
                self.ok = True
                try:
                    other.setup()
                except ValueError:
                    self.ok = False               # this other sensor cannot exist

            def trigger_code(self):
                if not self.ok:
                    return
                e2.generation_time = self.current_time
                other.check_ready(self.current_time)
                other.trigger()
                other.post_trigger()
        extra = [Late()]
    out = drive(sh, {'in_ef': ef_feed(amps, phis, pitch, c['s0'])}, c['steps'], extra=extra)['out_i']
    for k, ((v, fresh), w) in enumerate(zip(out, want)):
        check(fresh, 'the image is not refreshed')
        check(v.shape == (n * npx, n * npx), 'image shape', v.shape)
        close(v, w, rtol=RT, atol=RT * w.max(), what=f'image at step {k}')
    return 'trivial' if n == 1 else c['other']


@CHECK.family(st.fixed_dictionaries({**geo, **field, 'launch': st.sampled_from([None, 'axis', 'side']), 'zen': st.sampled_from([0., 40.]),
                                     'beam': st.floats(0.7, 2), 'nl': st.integers(1, 4), 'tt': st.sampled_from([None, (0., 0.), (0.1, -0.2)]),
                                     'change': st.booleans()}), quick=60, thorough=2500,
              rule='more than one lenslet', double=0.3)
def laser_image(c):
    """Each lenslet sees the spot of the laser convolved with its own diffraction image."""
    c = dict(c, m=max(c['m'], 1))
    n, p, N, F, npx, W, pitch, lam, kw = geometry(c)
    rng = rng_of(c['seed'])
    amps, phis = make_fields(c, rng, n * p)
    fft_px = kw['sensor_pxscale'] * npx / F
    diam = pitch * n * p
    beam = c['beam'] * max(1.2, 1.5 * fft_px)
    am = 1 / np.cos(np.deg2rad(c['zen']))
    pos = [] if c['launch'] is None else ([0., 0., 0.] if c['launch'] == 'axis' else [float(diam), float(-0.3 * diam), 1.0])
    heights = [rng.uniform(85e3, 95e3, c['nl']) for _ in range(c['steps'])]
    prof = [rng.uniform(0.2, 1, c['nl']) for _ in range(c['steps'])]
    if not c['change']:
        heights, prof = [heights[0]] * c['steps'], [prof[0]] * c['steps']
    with Scratch() as d, contextlib.redirect_stdout(io.StringIO()):
        sp = SimulParams(pixel_pupil=n * p, pixel_pitch=pitch, zenithAngleInDeg=c['zen'])
        tt = [] if c['tt'] is None else list(c['tt'])
        llt = LaserLaunchTelescope(sp, spot_size=beam, tel_position=pos, beacon_focus=90e3, beacon_tt=tt)
        sh = SH(**kw, laser_launch_tel=llt, data_dir=str(d))
        feeds = {'in_ef': ef_feed(amps, phis, pitch, c['s0'])}
        if pos:
            feeds['in_sodium_altitude'] = value_feed(heights)
            feeds['in_sodium_intensity'] = value_feed(prof)
            feeds = {k.replace('in_sodium', 'sodium'): v for k, v in feeds.items()}
        rec = drive(sh, feeds, c['steps'])['out_i']
    th = np.array(tt or [0., 0.]) if pos else np.zeros(2)
    for k in range(c['steps']):
        if pos:
            zb = 90e3 * am
            K = spots(n, diam, pos, zb, heights[k] * am - zb, prof[k], beam, fft_px, N, 1, th + fft_px / 2)
        else:
            K = spots(n, diam, [0, 0, 0], 9e4, [0.], [1.], beam, fft_px, N, 1, [fft_px / 2] * 2)
        if not np.isfinite(K).all():
            raise Skip                            # a lenslet which does not see the spot
        E = amps[k] * np.exp(2j * np.pi * phis[k] / lam)
        q = np.arange(N) - (N - 1) / 2
        D = np.exp(-2j * np.pi * np.outer(q, np.arange(p)) / N)
        m = (np.maximum(abs(q[:, None]), abs(q)) <= W / 2) if c['square'] else (np.hypot(q[:, None], q) < W / 2)
        B, o = area_bin(F, npx), (N - F) // 2
        im = np.zeros((n * npx, n * npx))
        for i in range(n):
            for j in range(n):
                I = np.abs(D @ E[i * p:(i + 1) * p, j * p:(j + 1) * p] @ D.T)**2
                # the image of the kernel is inverted, as all the images
                I = np.fft.ifft2(np.fft.fft2(I) * np.conj(np.fft.fft2(np.fft.ifftshift(K[i, j])))).real * m
                im[i * npx:(i + 1) * npx, j * npx:(j + 1) * npx] = B @ I[o:o + F, o:o + F] @ B.T
        if not im.sum() > 1e-4 * (amps[k]**2).sum() * N**2:
            raise Skip
        want = im / im.sum() * c['s0'] * amps[k].sum() * pitch**2
        close(rec[k][0], want, rtol=0, atol=5e-3 * want.max(), what='image of the laser spots')
    return 'trivial' if n == 1 else str(c['launch'])


@CHECK.family(st.fixed_dictionaries({**geo, **field, 'rot': st.sampled_from([0., 0., 17., 90., -45.]), 'xs': st.sampled_from([0., 0., 1., -0.6]),
                                     'ys': st.sampled_from([0., 0., 0.8, -1.]), 'two': st.booleans(), 'cls': st.sampled_from(['one', 'one', 'poly', 'slices'])}), quick=60, thorough=2000, rule='the pupil is turned or moved', double=0.4)
def moved_pupil(c):
    """A sensor that turns or moves the pupil gives the image of the field turned or moved beforehand (the interpolation is decided by C22)."""
    import warnings
    from specula.lib.extrapolation_2d import EFInterpolator
    g = geometry(c)
    n, p, N, F, npx, W, pitch, lam, kw = g
    rng = rng_of(c['seed'])
    amps, phis = make_fields(c, rng, n * p)
    amps = [amps[0]] * len(phis)
    o, script = ef_feed(amps, phis, pitch, c['s0'])
    mv = dict(rotAnglePhInDeg=c['rot'], xShiftPhInPixel=c['xs'], yShiftPhInPixel=c['ys'])
    src = ElectricField(n * p, n * p, pitch, S0=c['s0'])
    src.A = np.asarray(amps[0], DT)
    want = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        it = EFInterpolator(src, src.size, **mv, mask_threshold=1e-3)
        for q in phis:
            src.phaseInNm = np.asarray(q, DT)
            it.interpolate()
            e = it.interpolated_ef()
            a = np.array(e.A, float)
            if not a.sum() > 0.05 * amps[0].sum():
                raise Skip
            w = expected(c, g, a, np.array(e.phaseInNm, float))
            want.append(w / w.sum() * c['s0'] * amps[0].sum() * pitch**2)
        extra = []
        if c['two']:
            extra = [SH(**kw, **dict(mv, rotAnglePhInDeg=c['rot'] + 30.))]
            extra[0].inputs['in_ef'].set(o)
        if c['cls'] == 'poly':
            sh = PolyChromSH(**dict(kw, wavelengthInNm=[lam]), **mv, flux_factor=[1.])
        elif c['cls'] == 'slices' and np.all(want[0].reshape(n, npx, n, npx).sum((1, 2, 3)) > 0):
            sh = DistributedSH(**kw, **mv, n_slices=min(2, n))
        else:
            sh = SH(**kw, **mv)
        out = drive(sh, {'in_ef': (o, script)}, c['steps'], extra=extra)['out_i']
    for k, ((v, fresh), w) in enumerate(zip(out, want)):
        close(v, w, rtol=4 * RT, atol=4 * RT * w.max(), what=f'image at step {k}')
    return 'trivial' if not any([c['rot'], c['xs'], c['ys']]) else c['kind']


@CHECK.family(st.fixed_dictionaries({**geo, **field, 'slices': st.integers(1, 7)}), quick=25, thorough=1000,
              rule='more than one lenslet', double=0.3)
def distributed(c):
    g = geometry(c)
    n, p, N, F, npx, W, pitch, lam, kw = g
    rng = rng_of(c['seed'])
    amps, phis = make_fields(c, rng, n * p)
    # some light in every lenslet
    ns = min(c['slices'], n)
    for a in amps:
        a[p // 2::p, p // 2] = 1
    want = [expected(c, g, a, q) for a, q in zip(amps, phis)]
    out = drive(DistributedSH(**kw, n_slices=ns), {'in_ef': ef_feed(amps, phis, pitch, c['s0'])}, c['steps'])['out_i']
    for k in range(c['steps']):
        check(out[k][1], 'the image is not refreshed')
        close(out[k][0], want[k], rtol=RT, atol=RT * want[k].max(), what=f'image at step {k}')
    return 'trivial' if n == 1 else f'{ns} slices'


BAND = dict(n=st.sampled_from([2, 3, 4, 1]), p=st.integers(3, 9), lam=st.sampled_from([500., 750., 1650.]), d=st.sampled_from([0.1, 0.25, 0.5, 1.0]),
            px=st.floats(0.3, 3.0), npx=st.integers(2, 8), stop=st.floats(0.6, 3.0), square=st.booleans(),
            coeff=st.sampled_from([0, 1.0, 1.7, 2.0]), rough=st.booleans(), s0=st.floats(0.1, 1e4), seed=st.integers(0, 2**31))


def general(c, lam=None):
    turb = c['lam'] * 1e-9 / c['d'] * R2A
    px = c['px'] * turb
    if px * c['npx'] * min(1, c['stop']) / (turb / 2) < 4:
        raise Skip
    return dict(wavelengthInNm=c['lam'] if lam is None else lam, subap_wanted_fov=c['stop'] * px * c['npx'], sensor_pxscale=px,
                subap_on_diameter=c['n'], subap_npx=c['npx'], squaremask=c['square'], fov_ovs_coeff=c['coeff'])


def snap(cls, kw, amp, phi, pitch, s0):
    return drive(cls(**kw), {'in_ef': ef_feed(amp, phi, pitch, s0)}, len(amp))['out_i']


@CHECK.family(st.fixed_dictionaries({**BAND, 'kind': st.sampled_from(['full', 'disc', 'gray', 'holes'])}), quick=60, thorough=2500,
              rule='more than one lenslet', double=0.4)
def invariants(c):
    kw = general(c)
    n, size = c['n'], c['n'] * c['p']
    pitch = c['d'] / c['p']
    rng = rng_of(c['seed'])
    a = pupil(rng, size, c['kind'])
    p = phases(rng, size, 1, c['rough'])[0]
    A = [a, a, a.T]
    P = [p, p + c['lam'] * 0.37, p.T]
    out = snap(SH, kw, A, P, pitch, c['s0'])
    flux = c['s0'] * a.sum() * pitch**2
    ref = out[0][0]
    for v, _ in out:
        check(np.all(np.isfinite(v)), 'image not finite')
        check(v.min() >= -1e-6 * v.max(), 'negative intensity', v.min())
        close(v.sum(), flux, rtol=3e-5 if PREC == 1 else 1e-9, what='flux in the image')
    tol = (2e-3 if PREC == 1 else 1e-8) * ref.max()
    if c['kind'] in ('full', 'gray'):
        close(out[1][0], ref, atol=tol, rtol=0, what='image after adding a piston')
        close(out[2][0].T, ref, atol=tol, rtol=0, what='image of the transposed field')
    return 'trivial' if n == 1 else c['kind']


@CHECK.family(st.fixed_dictionaries({**geo, **field, 'pist': st.floats(1, 1000)}), quick=30, thorough=1500, rule='more than one lenslet',
              double=0.4)
def lenslet_locality(c):
    """The spot of a lenslet depends on its own part of the field, and not on its piston."""
    g = geometry(c)
    n, p, N, F, npx, W, pitch, lam, kw = g
    rng = rng_of(c['seed'])
    a = pupil(rng, n * p, c['kind'])
    q = phases(rng, n * p, 1, c['rough'])[0]
    i, j = rng.integers(0, n, 2)
    blk = np.zeros((n, n), bool)
    blk[i, j] = True
    lit = np.kron(blk, np.ones((p, p), bool))
    pist = np.kron(rng.uniform(-1, 1, (n, n)) * c['pist'], np.ones((p, p)))
    a2 = a.copy()
    a2[lit] = 0
    if not a2.any():
        return 'trivial'
    expected(c, g, a, q), expected(c, g, a2, q)
    v = snap(SH, kw, [a, a, a2], [q, q + pist, q], pitch, c['s0'])
    tol = (1e-3 if PREC == 1 else 1e-8) * v[0][0].max()
    close(v[1][0], v[0][0], rtol=0, atol=tol, what='image with another piston in every lenslet')
    sp = np.kron(blk, np.ones((npx, npx), bool))
    check(np.abs(v[2][0][sp]).max() <= 1e-7 * max(v[2][0].max(), 1e-30), 'light in the spot of a dark lenslet', v[2][0][sp].max())
    x, y = v[0][0][~sp], v[2][0][~sp]
    if x.sum() > 0:
        close(y / y.sum(), x / x.sum(), rtol=0, atol=(1e-3 if PREC == 1 else 1e-8) * (x / x.sum()).max(),
              what='the other spots after darkening one lenslet')
    return c['kind']


@CHECK.family(st.fixed_dictionaries({'n': st.integers(1, 4), 'p': st.integers(4, 10), 'lam': st.sampled_from([500., 1000., 1650.]),
                                     'd': st.sampled_from([0.1, 0.3, 1.0]), 'q': st.floats(0.3, 0.7), 'npx': st.integers(8, 12),
                                     'coeff': st.sampled_from([0, 2.0]), 'tx': st.floats(-1, 1), 'ty': st.floats(-1, 1),
                                     'poly': st.booleans()}),
              quick=40, thorough=1500, rule='a tilt of more than 0.2 pixels', double=0.3)
def tilt(c):
    """A tilt of the field moves the spots by its angle over the pixel scale, in its own direction."""
    turb = c['lam'] * 1e-9 / c['d'] * R2A
    px = c['q'] * turb
    n, p, npx = c['n'], c['p'], c['npx']
    size, pitch = n * p, c['d'] / p
    fov = px * npx
    kw = dict(subap_wanted_fov=2 * fov, sensor_pxscale=px, subap_on_diameter=n, subap_npx=npx, squaremask=True, fov_ovs_coeff=c['coeff'])
    one = SH(wavelengthInNm=c['lam'], **kw)
    amp = min(0.7 * turb, 0.12 * fov)
    ax, ay = c['tx'] * amp, c['ty'] * amp
    y, x = (np.mgrid[:size, :size] - (size - 1) / 2) * pitch
    flat, ramp = np.zeros((size, size)), (ax * x + ay * y) / R2A * 1e9
    ones = np.ones((size, size))
    v = drive(one, {'in_ef': ef_feed([ones, ones], [flat, ramp], pitch, 10.)}, 2)['out_i']
    real_px = one._sensor_pxscale * R2A if hasattr(one, '_sensor_pxscale') else px
    if not 0.8 < real_px / px < 1.25:
        raise Skip
    ims = [v[0][0], v[1][0]]
    if c['poly']:
        if size < 12:
            raise Skip
        w = PolyChromSH(wavelengthInNm=[c['lam'], c['lam']], flux_factor=[0., 1.], xy_tilts_in_arcsec=[[0, 0], [ax, ay]], **kw)
        u = drive(w, {'in_ef': ef_feed([ones], [flat], pitch, 10.)}, 1)['out_i'][0][0]
        ims[1] = u

    def cog(im):
        t = im.reshape(n, npx, n, npx).swapaxes(1, 2).reshape(-1, npx, npx)
        k = np.arange(npx)
        s = t.sum((1, 2))
        # windowed on a few pixels around the peak: the side lobes fall outside of the field
        return np.array([(t * k[None, None, :]).sum((1, 2)) / s, (t * k[None, :, None]).sum((1, 2)) / s])
    d = cog(ims[1]) - cog(ims[0])
    want = np.array([ax, ay]) / real_px
    # the truncation of the side lobes makes the centroid gain lower than one
    for i in range(2):
        err = np.abs(d[i] - want[i]).max()
        check(err <= 0.08 + 0.3 * abs(want[i]), 'centroid displacement', (d[i][:4].tolist(), float(want[i])))
    return 'trivial' if np.abs(want).max() < 0.2 else ('poly' if c['poly'] else 'mono')


@CHECK.family(st.fixed_dictionaries({**BAND, 'lams': st.lists(st.sampled_from([1.0, 1.2, 0.8, 1.45]), min_size=1, max_size=3),
                                     'kind': st.sampled_from(['full', 'disc', 'gray']), 'steps': st.integers(1, 2), 'k': st.floats(0.2, 30)}),
              quick=30, thorough=1000, rule='more than one wavelength', double=0.3)
def polychromatic(c):
    """PolyChromSH is the flux weighted sum of the monochromatic sensors."""
    size = c['n'] * c['p']
    pitch = c['d'] / c['p']
    rng = rng_of(c['seed'])
    A = [pupil(rng, size, c['kind']) for _ in range(c['steps'])]
    P = phases(rng, size, c['steps'], c['rough'])
    lams = [c['lam'] * f for f in c['lams']]
    w = rng.uniform(0.1, 1, len(lams))
    if len(lams) > 1 and c['seed'] % 3 == 0:
        w[0] = 0
    kw = general(c)
    del kw['wavelengthInNm']
    monos = [snap(SH, dict(kw, wavelengthInNm=l), A, P, pitch, c['s0']) for l in lams]
    v = snap(PolyChromSH, dict(kw, wavelengthInNm=lams, flux_factor=[float(x) * c['k'] for x in w]), A, P, pitch, c['s0'])
    for k in range(c['steps']):
        ref = sum(x / w.sum() * m[k][0].astype(float) for x, m in zip(w, monos))
        close(v[k][0], ref, rtol=0, atol=(1e-4 if PREC == 1 else 1e-9) * ref.max(), what=f'polychromatic image at step {k}')
        close(v[k][0].sum(), c['s0'] * A[k].sum() * pitch**2, rtol=3e-5 if PREC == 1 else 1e-9, what='flux')
    return 'trivial' if len(lams) == 1 else str(len(lams))


@CHECK.family(st.fixed_dictionaries({'nx': st.integers(1, 6), 'np': st.integers(2, 8), 'pitch': st.floats(0.01, 0.3), 'fov': st.floats(0.2, 8),
                                     'field': st.sampled_from(['full', 'affine']), 'seed': st.integers(0, 2**31), 'npsub': st.integers(2, 9),
                                     'steps': st.integers(1, 2)}),
              quick=60, thorough=2500, rule='more than one subaperture', double=0.4)
def ideal_derivative(c):
    """The mean phase derivative of the lit pixels of every subaperture, in units of half the field of view."""
    nx, n = c['nx'], c['np']
    size = nx * n
    if size < 3:
        raise Skip
    rng = rng_of(c['seed'])
    nsub = rng.integers(1, nx * nx + 1)
    m = np.sort(rng.choice(nx * nx, nsub, replace=False))
    sub = SubapData(idxs=np.tile(np.arange(c['npsub']**2), (nsub, 1)), display_map=m, nx=nx, ny=nx)
    sp = SimulParams(pixel_pupil=size, pixel_pitch=c['pitch'])
    s = IdealDerivativeSensor(sp, sub, c['fov'])
    y, x = np.mgrid[:size, :size].astype(float)
    A, P, W = [], [], []
    if c['field'] == 'full':
        a = np.ones((size, size))
    else:
        a = np.zeros((size, size))
        lo = rng.integers(0, max(1, size // 3), 2)
        hi = size - rng.integers(0, max(1, size // 3), 2)
        if min(hi - lo) < 2:
            raise Skip
        a[lo[0]:hi[0], lo[1]:hi[1]] = 1
    k = 1e-9 * R2A / (c['pitch'] * c['fov'] / 2) * (c['npsub'] - 1) / c['npsub']
    for _ in range(c['steps']):
        if c['field'] == 'full':
            p = phases(rng, size, 1, True)[0]
        else:
            g = rng.normal(size=3) * 100
            if rng.random() < 0.3:
                g[rng.integers(0, 2)] = 0
            p = g[0] * x + g[1] * y + g[2]
        p = np.asarray(p, DT).astype(float)
        A.append(a)
        P.append(p)
        gy, gx = np.gradient(p)
        w = np.zeros((2, nsub))
        for q, mm in enumerate(m):
            i, j = divmod(mm, nx)
            sl = np.s_[i * n:(i + 1) * n, j * n:(j + 1) * n]
            lit = a[sl] > 0.5
            if lit.any():
                w[:, q] = gx[sl][lit].mean() * k, gy[sl][lit].mean() * k
        W.append(w)
    out = drive(s, {'in_ef': ef_feed(A, P, c['pitch'], 1.)}, c['steps'])['out_slopes']
    for kk in range(c['steps']):
        v, fresh = out[kk]
        check(fresh, 'not refreshed')
        w = np.concatenate([W[kk][0], W[kk][1]])
        sc = np.abs(P[kk]).max() * k
        close(v, w, rtol=1e-4 if PREC == 1 else 1e-9, atol=(1e-5 if PREC == 1 else 1e-12) * sc, what='slopes')
    return 'trivial' if nsub == 1 else c['field']
