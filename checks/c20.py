"""C20: focal plane images, Strehl ratio and coronagraphs."""
from vlib.drive import *
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.simul_params import SimulParams
from specula.lib.calc_psf import calc_psf, calc_psf_geometry
from specula.processing_objects.psf import PSF
from specula.processing_objects.psf_coronagraph import PsfCoronagraph
from specula.processing_objects.lyot_coronagraph import LyotCoronagraph
from specula.processing_objects.vortex_coronagraph import VortexCoronagraph
from specula.processing_objects.four_quadrant_coronagraph import FourQuadrantCoronagraph
from specula.processing_objects.apodizer_coronagraph import APPCoronagraph, PAPLCoronagraph
from checks.c19 import pupil, phase, ef_feed

CHECK = Check('C20', 'Focal plane images and coronagraphs', scale=2, assumptions=[
    'square pupil, some light; image at least as large as the pupil',
    'no edge of a mask within rounding of the centre of a pixel',
    'PAPL with a dark hole that the phase retrieval reaches'])
RT = 5e-4 if PREC == 1 else 1e-9
R2M = 3600 * 180 / np.pi * 1000

base = dict(n=st.integers(4, 20), lam=st.sampled_from([500., 750., 1650.]), pitch=st.floats(0.02, 0.3), kind=st.sampled_from(['full', 'disc', 'gray', 'holes']),
            rough=st.booleans(), s0=st.floats(0.1, 1e3), seed=st.integers(0, 2**31), steps=st.sampled_from([1, 2, 3, 4, 5]))


def field(A, P, lam):
    return A * np.exp(2j * np.pi * P / lam)


def fourier(E, m, c):
    """Centred transform, with zero frequency at pixel c"""
    k = np.arange(m) - c
    D = np.exp(-2j * np.pi * np.outer(k, np.arange(len(E))) / m)
    return D @ E @ D.T


def profile(im, m):
    """Mean value, mean distance and count in rings one pixel wide about the centre"""
    rings = {}
    for i in range(m):
        for j in range(m):
            r2 = (i - m // 2)**2 + (j - m // 2)**2
            b = int(np.sqrt(r2) + 1e-9)
            rings.setdefault(b, []).append((im[i, j], np.sqrt(r2)))
    keys = sorted(rings)
    return (np.array([np.mean([v for v, _ in rings[b]]) for b in keys]), np.array([np.mean([r for _, r in rings[b]]) for b in keys]),
            np.array([len(rings[b]) for b in keys]))


def metrics(im, m, nd, radii):
    p, d, cnt = profile(im / im.max(), m)
    d = d / nd
    half = p.max() / 2
    below = [i for i in range(1, len(p)) if p[i] <= half]
    near = np.any(np.abs(p[1:] - half) < 1e-5) or p[0] <= half
    if not below:
        fw = np.nan
    else:
        i = below[0]
        fw = 2 * (d[i - 1] + (half - p[i - 1]) / (p[i] - p[i - 1]) * (d[i] - d[i - 1])) if p[i] != p[i - 1] else 2 * d[i - 1]
    ee = np.cumsum(p * cnt) / np.sum(p * cnt)
    return p, d, (None if near else fw), ee, np.interp(radii, d, ee)


@CHECK.family(st.fixed_dictionaries({**base, 'nd': st.one_of(st.none(), st.sampled_from([1., 1.5, 2., 3., 4.])), 'pix': st.one_of(st.none(), st.floats(0.2, 1.)),
                                     'start': st.integers(0, 3), 'coro': st.sampled_from([None, 'average', 'statistic']), 'prof': st.sampled_from(['no', 'end', 'all']),
                                     'radii': st.lists(st.floats(0., 4.), min_size=1, max_size=3)}),
              quick=400, thorough=12000, rule='a phase error and more than one step', double=0.4)
def images(c):
    """Instantaneous and integrated images, Strehl ratio and profiles."""
    n, lam = c['n'], c['lam']
    full = lam * 1e-9 / (n * c['pitch']) * R2M
    nd = c['nd']
    pix = None if nd is not None or c['pix'] is None else full * min(c['pix'], 0.999999)
    kw = dict(nd=nd, pixel_size_mas=pix)
    geo = calc_psf_geometry(n, c['pitch'], lam, nd, pix)
    if pix is not None:
        check(abs(geo.nd * n - round(geo.nd * n)) < 1e-6 and abs(full / geo.nd - pix) <= min(abs(full * n / k - pix) for k in range(1, 20 * n)) + 1e-9,
              f'sampling {geo.nd} for pixels of {pix}, from at most {full} with {n} pixels')
    else:
        check(geo.nd == (1. if nd is None else nd), 'sampling')
    close(geo.pixel_size_mas * geo.nd, full, rtol=1e-9, what='pixel size')
    m = int(np.around(n * geo.nd / 2) * 2)
    if m < n or abs(n * geo.nd / 2 % 1 - 0.5) < 1e-6:
        raise Skip
    rng = rng_of(c['seed'])
    steps = c['steps']
    A = [pupil(rng, n, c['kind'])] * steps
    P = [phase(rng, n, c['rough']) * rng.uniform(0, 1) for _ in range(steps)]
    if c['seed'] % 5 == 0:
        P[0] = np.zeros((n, n))
    par = dict(simul_params=SimulParams(pixel_pupil=n, pixel_pitch=c['pitch']), wavelengthInNm=lam, start_time=c['start'] * 0.5, verbose=False,
               compute_profile_metrics=c['prof'] != 'no', compute_metrics_in_trigger=c['prof'] == 'all', ee_radius_in_lambda_d=c['radii'], **kw)
    obj = PSF(**par) if c['coro'] is None else PsfCoronagraph(use_average_field=c['coro'] == 'average', **par)
    rec = drive(obj, {'in_ef': ef_feed(A, P, c['pitch'], c['s0'])}, steps, dt=0.5)
    flat = np.abs(fourier(A[0] + 0j, m, m // 2))**2
    peak = flat.max() / flat.sum()
    ims, cims, srs = [], [], []
    T = RT * peak
    for k in range(steps):
        E = field(A[k], P[k], lam)
        im = np.abs(fourier(E, m, m // 2))**2
        tot = im.sum()
        im = im / tot
        ims.append(im)
        srs.append(im[m // 2, m // 2] / peak)
        v = rec['out_psf'][k]
        check(v[1] and rec['out_sr'][k][1], 'not refreshed')
        check(abs(np.sum(v[0], dtype=float) - 1) < 1e-4, 'the image is not normalised')
        close(v[0], im, rtol=RT, atol=T, what=f'image at step {k}')
        close(rec['out_sr'][k][0], srs[-1], rtol=RT, atol=RT, what=f'Strehl ratio at step {k}')
        check(-1e-6 <= rec['out_sr'][k][0] <= 1 + RT, 'Strehl ratio out of bounds')
        if c['coro']:
            lit = A[k] > 0
            if c['coro'] == 'average':
                res = E - E[lit].mean() * lit
            else:
                ph = (2 * np.pi * P[k] / lam)[lit]
                res = E - np.sqrt(np.exp(-ph.var())) * np.exp(1j * ph.mean()) * A[k]
            cim = np.abs(fourier(res, m, m // 2))**2 / tot
            cims.append(cim)
            close(rec['out_coronagraph_psf'][k][0], cim, rtol=RT, atol=10 * T, what=f'coronagraphic image at step {k}')
        if c['prof'] == 'all' and c['coro'] and cims[-1].max() > 1e-3 * peak:
            p, d, _ = profile(cims[-1] / cims[-1].max(), m)
            close(rec['out_coronagraph_psf_profile'][k][0], [d / geo.nd, p], rtol=RT, atol=20 * RT, what='profile of the coronagraphic image')
        if c['prof'] == 'all':
            p, d, fw, ee, at = metrics(im, m, geo.nd, c['radii'])
            close(rec['out_psf_profile'][k][0], [d, p], rtol=RT, atol=RT, what='profile')
            close(rec['out_encircled_energy'][k][0], [d, ee], rtol=RT, atol=RT, what='encircled energy')
            close(rec['out_encircled_energy_at_radius'][k][0], at, rtol=RT, atol=RT, what='encircled energy at radius')
            if fw is not None:
                close(rec['out_psf_fwhm'][k][0], fw, rtol=1e-2 if PREC == 1 else 1e-6, what='FWHM')
    use = [k for k in range(steps) if k * 0.5 >= c['start'] * 0.5]
    if use:
        mean = np.mean([ims[k] for k in use], axis=0)
        close(obj.outputs['out_int_psf'].value, mean, rtol=RT, atol=T, what='integrated image')
        close(obj.outputs['out_int_sr'].value, np.mean([srs[k] for k in use]), rtol=RT, atol=RT, what='mean Strehl ratio')
        close(obj.outputs['out_std_psf'].value, np.std([ims[k] for k in use], axis=0), rtol=RT, atol=2e-3 * peak if PREC == 1 else 1e-7 * peak, what='standard deviation of the image')
        if c['coro']:
            close(obj.outputs['out_int_coronagraph_psf'].value, np.mean([cims[k] for k in use], axis=0), rtol=RT, atol=10 * T, what='integrated coronagraphic image')
            close(obj.outputs['out_std_coronagraph_psf'].value, np.std([cims[k] for k in use], axis=0), rtol=RT, atol=5e-3 * peak if PREC == 1 else 1e-6 * peak,
                  what='standard deviation of the coronagraphic image')
        if c['prof'] != 'no' and c['coro'] and np.mean([cims[k] for k in use], axis=0).max() > 1e-3 * peak:
            cm = np.mean([cims[k] for k in use], axis=0)
            p, d, _ = profile(cm / cm.max(), m)
            close(obj.outputs['out_int_coronagraph_psf_profile'].value, [d / geo.nd, p], rtol=RT, atol=20 * RT, what='profile of the integrated coronagraphic image')
        if c['prof'] != 'no':
            p, d, fw, ee, at = metrics(mean, m, geo.nd, c['radii'])
            close(obj.outputs['out_int_psf_profile'].value, [d, p], rtol=RT, atol=RT, what='integrated profile')
            close(obj.outputs['out_int_encircled_energy'].value, [d, ee], rtol=RT, atol=RT, what='integrated encircled energy')
            close(obj.outputs['out_int_encircled_energy_at_radius'].value, at, rtol=RT, atol=RT, what='integrated encircled energy at radius')
            if fw is not None:
                close(obj.outputs['out_int_psf_fwhm'].value, fw, rtol=1e-2 if PREC == 1 else 1e-6, what='FWHM of the integrated image')
    else:
        check(not np.any(obj.outputs['out_int_psf'].value) and not np.any(obj.outputs['out_int_sr'].value), 'something integrated before the start')
    return 'trivial' if steps == 1 else f"{c['coro']} {c['prof']}"


def away(r, edges):
    for e in edges:
        if np.abs(r - e).min() < 1e-5:
            raise Skip


def stop(n, inner, outer):
    y, x = (np.mgrid[:n, :n] - (n - 1) / 2) / (n / 2)
    r = np.hypot(x, y)
    away(r, [inner, outer])
    return ((r < outer) & (r >= inner)).astype(float)


def through(E, mask, pup, centre):
    N = len(mask)
    F = fourier(E, N, centre) * mask
    k = np.arange(N) - centre
    B = np.exp(2j * np.pi * np.outer(np.arange(len(E)), k) / N) / N
    return B @ F @ B.T * pup


coro = {**base, 'res': st.sampled_from([2., 3., 3.4, 4.]), 'inner': st.sampled_from([0., 0., 0.15, 0.3]), 'outer': st.sampled_from([1., 0.9, 0.7]),
        'iwa': st.floats(0., 3.), 'owa': st.one_of(st.none(), st.floats(0.5, 4.))}


def plane(n, res, centre=None):
    N = int(np.around(n * res / 2) * 2)
    if abs(n * res / 2 % 1 - 0.5) < 1e-6:
        raise Skip
    c = (N - 1) / 2 if centre is None else N // 2
    y, x = np.mgrid[:N, :N] - c
    return N, c, y, x, N / n                  # pixels per lambda/D


def coronagraph(c, obj, mask, pup, centre, apod=1.):
    n = c['n']
    rng = rng_of(c['seed'])
    A = [pupil(rng, n, c['kind']) for _ in range(c['steps'])]
    P = [phase(rng, n, c['rough']) * 0.3 for _ in range(c['steps'])]
    rec = drive(obj, {'in_ef': ef_feed(A, P, c['pitch'], c['s0'])}, c['steps'])['out_ef']
    for k in range(c['steps']):
        E = field(A[k], P[k], c['lam'])
        out = through(E * apod, mask, pup, centre)
        got, fresh = rec[k]
        check(fresh, 'not refreshed')
        gA, gP = got[0], got[1]
        top = np.abs(E).max()
        check(np.all(gA >= 0), 'negative amplitude')
        close(field(gA.astype(float), gP.astype(float), c['lam']), out, rtol=0, atol=(1e-4 if PREC == 1 else 1e-9) * top, what=f'field after the coronagraph at step {k}')
    return A[-1], P[-1], out


def light(c, obj, A, P, out):
    T = (np.abs(out)**2).sum() / (A**2).sum()
    close(obj.outputs['out_ef'].S0, c['s0'] * T, rtol=RT, atol=RT * c['s0'] * 0.1, what='flux after the coronagraph')
    check(T <= 1 + 1e-5, 'more light than came in')


@CHECK.family(st.fixed_dictionaries({**coro, 'edge': st.booleans()}), quick=300, thorough=10000, rule='the mask hides and transmits something', double=0.4)
def lyot(c):
    n = c['n']
    N, cen, y, x, ld = plane(n, c['res'])
    kw = dict(simul_params=SimulParams(pixel_pupil=n, pixel_pitch=c['pitch']), wavelengthInNm=c['lam'], innerStopAsRatioOfPupil=c['inner'],
              outerStopAsRatioOfPupil=c['outer'], fft_res=c['res'], iwaInLambdaOverD=c['iwa'])
    if c['edge']:
        raises(lambda: LyotCoronagraph(knife_edge=True, owaInLambdaOverD=3., **kw), 'outer angle of a knife edge', ValueError)
        away(x, [c['iwa'] * ld])
        mask = (x >= c['iwa'] * ld).astype(float)
        obj = LyotCoronagraph(knife_edge=True, **kw)
    else:
        r = np.hypot(x, y)
        owa = N / 2 if c['owa'] is None else c['owa'] * ld
        away(r, [c['iwa'] * ld, owa])
        mask = ((r >= c['iwa'] * ld) & (r < owa)).astype(float)
        obj = LyotCoronagraph(owaInLambdaOverD=c['owa'], **kw)
    same(np.asarray(obj.fp_mask, float), mask, 'focal plane mask')
    light(c, obj, *coronagraph(c, obj, mask, stop(n, c['inner'], c['outer']), cen))
    return 'trivial' if mask.all() or not mask.any() else ('edge' if c['edge'] else 'disc')


@CHECK.family(st.fixed_dictionaries({**coro, 'delay': st.sampled_from([None, np.pi, np.pi / 2, 1.])}), quick=150, thorough=6000, rule='always', double=0.4)
def four_quadrant(c):
    n = c['n']
    N, cen, y, x, ld = plane(n, c['res'])
    kw = {} if c['delay'] is None else dict(phase_delay=c['delay'])
    obj = FourQuadrantCoronagraph(SimulParams(pixel_pupil=n, pixel_pitch=c['pitch']), c['lam'], innerStopAsRatioOfPupil=c['inner'], outerStopAsRatioOfPupil=c['outer'],
                                  fft_res=c['res'], **kw)
    mask = np.where((x > 0) ^ (y > 0), np.exp(1j * (np.pi if c['delay'] is None else c['delay'])), 1)
    light(c, obj, *coronagraph(c, obj, mask, stop(n, c['inner'], c['outer']), cen))
    return str(c['delay'])


@CHECK.family(st.fixed_dictionaries({**coro, 'charge': st.sampled_from([1, 2, 4, 6]), 'inv': st.sampled_from([None, 0.4, 0.6, 1.3]), 'incharge': st.sampled_from([None, 0, 2]),
                                     'inshift': st.sampled_from([None, 0.5, np.pi])}), quick=200, thorough=8000, rule='always', double=0.4)
def vortex(c):
    n = c['n']
    N, cen, y, x, ld = plane(n, c['res'], 'pixel')
    kw = dict(simul_params=SimulParams(pixel_pupil=n, pixel_pitch=c['pitch']), wavelengthInNm=c['lam'], vortexCharge=c['charge'], innerStopAsRatioOfPupil=c['inner'],
              outerStopAsRatioOfPupil=c['outer'], fft_res=c['res'])
    th = np.arctan2(y, x)
    ph = c['charge'] * th
    if c['inv'] is not None:
        kw.update(addInVortex=True, inVortexRadInLambdaOverD=c['inv'], inVortexCharge=c['incharge'], inVortexShift=c['inshift'])
        r = np.hypot(x, y)
        away(r, [c['inv'] * ld])
        ins = (c['charge'] if c['incharge'] is None else c['incharge']) * th + (np.pi if c['inshift'] is None else c['inshift'])
        ph = np.where(r < c['inv'] * ld, ins, ph)
    obj = VortexCoronagraph(**kw)
    m = np.asarray(obj.fp_mask)
    # the origin of the angles and their direction are free
    best = min((np.abs(m - w).max(), i) for i, w in enumerate([np.exp(1j * ph), np.exp(1j * ph).T]))
    check(best[0] < 1e-4, f'the mask differs from the vortex by {best[0]}')
    mask = np.exp(1j * ph) if best[1] == 0 else np.exp(1j * ph).T
    light(c, obj, *coronagraph(c, obj, mask, stop(n, c['inner'], c['outer']), cen))
    return 'trivial' if False else ('inner' if c['inv'] is not None else 'plain')


@CHECK.family(st.fixed_dictionaries({**coro, 'contrast': st.sampled_from([1e-2, 1e-3]), 'sym': st.booleans(), 'w': st.floats(1., 3.), 'papl': st.sampled_from([None, 'edge', 'disc']),
                                     'beta': st.sampled_from([0., 0.5, 0.9])}), quick=100, thorough=4000, rule='the dark hole is reached', double=0.4)
def apodizer(c):
    """A phase only apodizer that darkens the requested region, then the masks."""
    c = dict(c, n=max(8, c['n']), steps=1)
    n = c['n']
    N, cen, y, x, ld = plane(n, c['res'])
    pup = pupil(rng_of(c['seed']), n, 'full' if c['kind'] == 'full' else 'disc')
    iwa, owa = 1.2 + c['iwa'] / 2, 1.2 + c['iwa'] / 2 + c['w']
    kw = dict(simul_params=SimulParams(pixel_pupil=n, pixel_pitch=c['pitch']), wavelengthInNm=c['lam'], pupil=pup, contrastInDarkHole=c['contrast'], iwaInLambdaOverD=iwa,
              owaInLambdaOverD=owa, fft_res=c['res'], make_symmetric=c['sym'], beta=c['beta'])
    r = np.hypot(x, y)
    away(r, [iwa * ld, owa * ld])
    away(x, [iwa * ld])
    hole = (r >= iwa * ld) & (r < owa * ld) & (c['sym'] | (x >= iwa * ld))
    mask, st_ = np.ones((N, N)), np.ones((n, n))
    try:
        if c['papl'] is None:
            obj = APPCoronagraph(**kw)
        else:
            st_ = stop(n, c['inner'], c['outer'])
            kw.update(innerStopAsRatioOfPupil=c['inner'], outerStopAsRatioOfPupil=c['outer'])
            if c['papl'] == 'edge':
                away(x, [c['iwa'] * ld])
                mask = (x >= c['iwa'] * ld).astype(float)
                obj = PAPLCoronagraph(fpmIWAInLambdaOverD=c['iwa'], **kw)
            else:
                out = N / 2 if c['owa'] is None else c['owa'] * ld
                away(r, [c['iwa'] * ld, out])
                mask = ((r >= c['iwa'] * ld) & (r < out)).astype(float)
                obj = PAPLCoronagraph(fpmIWAInLambdaOverD=c['iwa'], fpmOWAInLambdaOverD=c['owa'], knife_edge=False, **kw)
    except Warning:
        return 'trivial'
    apod = np.broadcast_to(np.asarray(obj.apodizer), (n, n)).astype(complex)
    close(np.abs(apod), np.ones((n, n)), atol=1e-4, what='modulus of the apodizer')
    F = np.abs(fourier(pup * apod, N, cen if False else N // 2))**2
    # the search samples the region on the pixels of the shifted grid
    t = np.asarray(obj.target_contrast)
    same(t < 1, hole, 'dark region')
    worst = (F / F.max())[hole].max() if hole.any() else 0
    check(worst <= c['contrast'] * 1.02, f'contrast {worst} instead of {c["contrast"]} in the dark region')
    light(c, obj, *coronagraph(c, obj, mask, st_, cen, apod))
    return str(c['papl'])


@CHECK.family(st.fixed_dictionaries({**coro, 'fov': st.floats(0.15, 1.), 'obs': st.booleans()}), quick=60, thorough=5000,
              rule='the stop hides and transmits something', double=0.4)
def focal_filter(c):
    """A field stop of a given angular diameter (the unit of the optional obstruction is not documented)."""
    from specula.processing_objects.focal_plane_filter import FocalPlaneFilter
    n = c['n']
    N, cen, y, x, ld = plane(n, c['res'])
    full = c['lam'] * 1e-9 / c['pitch'] * R2M / 1000       # field of the pupil sampling
    R = c['fov'] * N / 2
    r = np.hypot(x, y)
    away(r, [R])
    kw = dict(fp_obs=0.) if c['obs'] else {}
    obj = FocalPlaneFilter(SimulParams(pixel_pupil=n, pixel_pitch=c['pitch']), c['lam'], fov=c['fov'] * full, fft_res=c['res'], **kw)
    mask = (r < R).astype(float)
    same(np.asarray(obj.fp_mask, float), mask, 'focal plane mask')
    light(c, obj, *coronagraph(c, obj, mask, 1., cen))
    return 'trivial' if mask.all() or not mask.any() else 'disc'


@CHECK.family(st.fixed_dictionaries({'h': st.integers(1, 12), 'w': st.integers(1, 12), 'centre': st.sampled_from([None, 'pixel', 'any']), 'how': st.sampled_from(['counts', 'distances', 'default']),
                                     'norm': st.booleans(), 'prof': st.sampled_from(['random', 'peak', 'negative', 'flat']), 'seed': st.integers(0, 2**31)}),
              quick=400, thorough=20000, rule='always')
def radial(c):
    """Radial profiles, widths and encircled energies of any image about any centre, from their definitions."""
    from specula.lib import radial_profile as R
    rng = rng_of(c['seed'])
    h, w = c['h'], c['w']
    im = rng.uniform(0, 1, (h, w))
    cy, cx = {None: (h / 2, w / 2), 'pixel': (int(rng.integers(0, h)), int(rng.integers(0, w))), 'any': tuple(rng.uniform(0, (h, w)))}[c['centre']]
    if c['prof'] == 'peak':
        y, x = np.mgrid[:h, :w]
        im = np.exp(-((y - cy)**2 + (x - cx)**2) / rng.uniform(0.5, 20))
    elif c['prof'] == 'negative':
        im = -im
    elif c['prof'] == 'flat':
        im = np.full((h, w), 3.)
    bins = {}
    for i in range(h):
        for j in range(w):
            r = np.hypot(i - cy, j - cx)
            bins.setdefault(int(r), []).append((r, im[i, j]))
    rad = np.array([np.mean([p[0] for p in bins[b]]) for b in sorted(bins)])
    pro = np.array([np.mean([p[1] for p in bins[b]]) for b in sorted(bins)])
    cnt = np.array([len(bins[b]) for b in sorted(bins)])
    kw = {} if c['centre'] is None else dict(center_in_px_y=cy, center_in_px_x=cx)
    p, r, n = R.compute_radial_profile(im, return_counts=True, **kw)
    close(p, pro, rtol=1e-9, atol=1e-12, what='profile')
    close(r, rad, rtol=1e-9, atol=1e-12, what='mean distances')
    same(np.asarray(n), cnt, 'pixels in each ring')
    p2 = R.compute_radial_profile(im, **kw)
    check(len(p2) == 2 and np.array_equal(p2[0], p), 'profile without counts')
    # width: twice the first radius at which the profile falls to half of its peak
    half, want = pro.max() / 2, np.nan
    if pro.max() <= 0:
        want = 0.
    else:
        for k in range(1, len(pro)):
            if pro[k] <= half:
                f = (half - pro[k - 1]) / (pro[k] - pro[k - 1]) if pro[k] != pro[k - 1] else 0.
                want = 2 * (rad[k - 1] + f * (rad[k] - rad[k - 1]))
                break
    got = float(R.compute_fwhm_from_profile(pro, rad))
    check(np.isnan(got) if np.isnan(want) else abs(got - want) < 1e-9 * (1 + abs(want)), f'width {got}, expected {want}')
    # energy within each ring
    if c['how'] == 'counts':
        e = R.compute_encircled_energy(pro, n_px_in_radial_bin=cnt, normalize=c['norm'])
        ring = pro * cnt
    else:
        d = rad if c['how'] == 'distances' else np.arange(len(pro), dtype=float)
        e = R.compute_encircled_energy(pro, radial_distance=rad if c['how'] == 'distances' else None, normalize=c['norm'])
        if len(d) == 1:
            area = np.array([max(d[0], 0.5)**2])
        else:
            m = (d[1:] + d[:-1]) / 2
            inner, outer = np.append(0, m), np.append(m, 2 * d[-1] - m[-1])
            area = np.maximum(outer**2 - inner**2, 0)
        ring = pro * area
    want = np.array([ring[:k + 1].sum() for k in range(len(ring))])
    if c['norm'] and want[-1] != 0:
        want = want / want[-1]
    close(e, want, rtol=1e-9, atol=1e-12, what='encircled energy')
    q = np.concatenate([rng.uniform(-1, rad[-1] + 2, 5), rad[:3]])
    close(R.get_encircled_energy_at_distance(want, rad, q), np.interp(q, rad, want), rtol=1e-9, atol=1e-12, what='encircled energy at given distances')
    close(float(R.get_encircled_energy_at_distance(want, rad, float(q[0]))), np.interp(q[0], rad, want), rtol=1e-9, atol=1e-12, what='encircled energy at a distance')
    return c['prof']


@CHECK.family(st.fixed_dictionaries({'ny': st.integers(2, 9), 'nx': st.integers(2, 9), 'more': st.one_of(st.none(), st.integers(0, 12)), 'seed': st.integers(0, 2**31),
                                     'norm': st.booleans(), 'nocenter': st.booleans(), 'total': st.booleans()}), 100, 3000,
              rule='the PSF of any field, padded to any width, centred or not, normalised or not, with its total, against the squared modulus of a direct Fourier sum', double=0.4)
def transform(c):
    from specula.lib.calc_psf import calc_psf
    rng = rng_of(c['seed'])
    ny, nx = c['ny'], c['nx']
    amp, ph = rng.random((ny, nx)).astype(DT), rng.uniform(-4, 4, (ny, nx)).astype(DT)
    w = None if c['more'] is None else max(ny, nx) + c['more']
    my, mx = (ny, nx) if w is None else (w, w)
    keep = (amp.copy(), ph.copy())
    got = calc_psf(ph, amp, complex_dtype=CDT, imwidth=w, normalize=c['norm'], nocenter=c['nocenter'], return_total=c['total'])
    check(np.array_equal(amp, keep[0]) and np.array_equal(ph, keep[1]), 'the field was modified')
    z = amp * np.exp(1j * ph.astype(float))
    u, v = np.arange(my), np.arange(mx)
    if not c['nocenter']:       # zero frequency in the middle
        u, v = u - my // 2, v - mx // 2
    f = np.exp(-2j * np.pi * np.outer(u, np.arange(ny)) / my) @ z @ np.exp(-2j * np.pi * np.outer(np.arange(nx), v) / mx)
    want = np.abs(f)**2
    tot = want.sum()
    if c['total']:
        check(isinstance(got, tuple) and len(got) == 2, 'the total was asked')
        close(got[1], tot, 1e-4 if PREC == 1 else 1e-10, what='total of the PSF')
        got = got[0]
    close(got, want / tot if c['norm'] else want, 1e-4 if PREC == 1 else 1e-10, what='PSF', scale=np.max(want) / (tot if c['norm'] else 1))
    return ['padded' if w else 'as is', 'centred' if not c['nocenter'] else 'corner']
