"""C15 - propagation: what each source sees is the sum of the layers along its line of sight."""
from vlib.drive import *
import warnings
from scipy.ndimage import map_coordinates
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.layer import Layer
from specula.data_objects.source import Source
from specula.data_objects.pupilstop import Pupilstop
from specula.processing_objects.atmo_propagation import AtmoPropagation
from specula.processing_objects.electric_field_combinator import ElectricFieldCombinator
from specula.processing_objects.electric_field_reflection import ElectricFieldReflection
from specula.processing_objects.phase_flattening import PhaseFlattening
from specula.lib.air_refraction import MatharAirRefraction

CHECK = Check('C15', 'propagation', scale=4, assumptions=[
    'layers are square and exceed the pupil by an even number of pixels (as the turbulence and mirror components make them); '
    'magnifications are at least 1',
    'where a magnified layer has masked parts only the pixels that do not look at them are compared'])
T = 2e-4 if PREC == 1 else 1e-9
AS = np.pi / 180 / 3600


def field_feed(o, fields):
    """fields[k]: (A, phase) or None."""
    def script(k, o):
        if fields[k] is None:
            return False
        o.A[:] = fields[k][0]
        o.phaseInNm[:] = fields[k][1]
        return True
    return o, script


def smooth(rng, n, amp):
    """Random phase, with structure at all scales, distinct in x and y."""
    y, x = np.mgrid[0:n, 0:n] / n
    p = rng.normal(size=(n, n)) * 0.2
    for _ in range(4):
        a, b = rng.uniform(-6, 6, 2)
        p += rng.normal() * np.cos(a * x + b * y + rng.uniform(0, 6))
    p += rng.normal() * x + 2 * rng.normal() * y
    return (p * amp).astype(DT)


def amplitude(rng, n, kind):
    if kind == 'ones':
        return np.ones((n, n), dtype=DT)
    if kind == 'grey':
        return rng.uniform(0.2, 1.5, (n, n)).astype(DT)
    y, x = np.mgrid[0:n, 0:n] - (n - 1) / 2
    return (x**2 + 1.3 * y**2 <= (n / 2.2)**2).astype(DT)


layer_st = st.fixed_dictionaries({
    'extra': st.integers(0, 12), 'h': st.sampled_from([0, 0, 1, 100, 1234.5, 9000, 16000]),
    'sx': st.sampled_from([0, 0, 0, 1, -0.5, 1.3, -2.25]), 'sy': st.sampled_from([0, 0, 0, 2, 0.5, -0.7]),
    'rot': st.sampled_from([0, 0, 0, 90, 180, 30, -47.5, 359]), 'mag': st.sampled_from([1, 1, 1, 1, 1.5, 2, 1.05]),
    'amp': st.sampled_from(['ones', 'ones', 'grey', 'mask']), 'common': st.booleans()})
source_st = st.fixed_dictionaries({
    'r': st.sampled_from([0, 0, 0.3, 0.7, 0.95, 1.0]), 'phi': st.sampled_from([0, 90, 45, 133.7, 180, 270, -60]),
    'H': st.sampled_from([None, None, 90000, 18000, 4e7]), 'mag': st.floats(-1, 15)})


class Geometry:
    """Where the pupil of a source falls on a layer."""
    def __init__(self, n, pitch, zen, pup_pos):
        self.n, self.pitch, self.air, self.pup = n, pitch, 1 / np.cos(np.radians(zen)), pup_pos

    def offset(self, src, lay, chrom=0.0):
        """pixels, without the layer's own shift"""
        h, H, r = lay['h'], src['H'], src['rad']
        u = np.array([np.cos(np.radians(src['phi'])), np.sin(np.radians(src['phi']))])
        o = u * r * h * self.air / self.pitch
        if self.pup is not None and lay['extra']:
            o = o + np.array(self.pup) / self.pitch * (1 if H is None else 1 - h / H)
        return o + np.array([0, chrom / self.pitch])

    def sample(self, src, lay, a, chrom=0.0):
        N = a.shape[0]
        s = 1.0 if src['H'] is None else (src['H'] - lay['h']) / src['H']
        c = np.arange(self.n) - (self.n - 1) / 2
        ux, uy = np.meshgrid(c, c)
        o = self.offset(src, lay, chrom)
        x = ux * s / lay['mag'] + o[0] - float(DT(lay['sx']))
        y = uy * s / lay['mag'] + o[1] - float(DT(lay['sy']))
        t = np.radians(lay['rot'])
        xr = x * np.cos(t) + y * np.sin(t) + (N - 1) / 2
        yr = y * np.cos(t) - x * np.sin(t) + (N - 1) / 2
        xy = np.array([np.clip(yr, 0, N - 1), np.clip(xr, 0, N - 1)])
        return map_coordinates(a.astype(float), xy, order=1, mode='nearest'), xy


def limit_of(lay, n):
    return lay['extra']     # (N - n)/2 with N = n + 2 extra


@CHECK.family(st.fixed_dictionaries({
    'n': st.integers(4, 16), 'pitch': st.sampled_from([0.05, 0.1, 0.0123]), 'zen': st.sampled_from([0, 0, 30, 60]),
    'layers': st.lists(layer_st, min_size=1, max_size=4), 'srcs': st.lists(source_st, min_size=1, max_size=3),
    'pup': st.sampled_from([None, None, None, [0.05, -0.02], [0, 0.2]]), 'merge': st.sampled_from([True, True, False]), 'up': st.booleans(),
    'steps': st.integers(1, 3), 'upd': st.integers(0, 255), 'seed': st.integers(0, 10**6)}), 260, 8000,
    rule='random layers (size, height, shift, rotation, magnification, amplitude) and sources (direction, height), updated at different times, merged or layer by '
         'layer, against an independent ray geometry with bilinear sampling', double=0.5)
def geometric(c):
    n, pitch = c['n'], c['pitch']
    rng = rng_of(c['seed'])
    g = Geometry(n, pitch, c['zen'], c['pup'])
    lays = [dict(l) for l in c['layers']]
    lays = [l for l in lays if l['common']] + [l for l in lays if not l['common']]
    if not any(l['common'] for l in lays):
        lays[0]['common'] = True
    for l in lays:
        l['N'] = n + 2 * l['extra']
        if l['mag'] != 1 and l['amp'] == 'mask':
            l['amp'] = 'ones'
    srcs = []
    for s in c['srcs']:
        s = dict(s)
        hmax = [l for l in lays if l['h'] > 0]
        if s['H'] is not None and any(l['h'] >= s['H'] for l in lays):
            s['H'] = 90000
        # the widest angle for which every layer contains the pupil of this source
        rmax = min([l['extra'] * pitch / (l['h'] * g.air) for l in hmax], default=5e-5)
        if c['pup'] is not None:
            rmax = min([(l['extra'] * pitch - max(abs(np.array(c['pup'])))) / (l['h'] * g.air) if l['extra'] else 0 for l in hmax], default=5e-5)
        s['as'] = float(np.float32(max(rmax, 0) * s['r'] * 0.999 / AS))
        s['rad'] = s['as'] * AS
        srcs.append(s)
    inside = all(np.all(np.abs(g.offset(s, l)) <= l['extra']) for s in srcs for l in lays)
    p = SimulParams(pixel_pupil=n, pixel_pitch=pitch, zenithAngleInDeg=c['zen'])
    sd = {f's{i}': Source([s['as'], s['phi']], s['mag'], 750, height=float('inf') if s['H'] is None else s['H']) for i, s in enumerate(srcs)}
    prop = AtmoPropagation(p, sd, pupil_position=c['pup'], mergeLayersContrib=c['merge'], upwards=c['up'])
    feeds = {'atmo_layer_list': [], 'common_layer_list': []}
    hist = []
    for i, l in enumerate(lays):
        o = Layer(l['N'], l['N'], pitch, l['h'], (l['sx'], l['sy']), l['rot'], l['mag'])
        f = [(amplitude(rng, l['N'], l['amp']), smooth(rng, l['N'], 300)) for _ in range(c['steps'])]
        f = [f[k] if k == 0 or (c['upd'] >> (k + 2 * i)) & 1 else None for k in range(c['steps'])]
        hist.append(f)
        feeds['common_layer_list' if l['common'] else 'atmo_layer_list'].append(field_feed(o, f))
    if not feeds['atmo_layer_list']:
        del feeds['atmo_layer_list']
    names = [f'out_s{i}_ef' for i in range(len(srcs))]
    if not inside:
        if not any(np.any(np.abs(g.offset(s, l)) > l['extra'] + 0.01) for s in srcs for l in lays if l['h'] > 0):
            raise Skip
        raises(lambda: drive(prop, feeds, c['steps'], outs=names), 'source outside the layer')
        return 'outside'
    rec = drive(prop, feeds, c['steps'], outs=names)
    for i, s in enumerate(srcs):
        o = prop.outputs[names[i]]
        for e in (o if isinstance(o, list) else [o]):
            close(float(e.S0), sd[f's{i}'].phot_density(), 1e-6, what='flux density')
        cur = [None] * len(lays)
        for k in range(c['steps']):
            A, ph = 1.0, 0.0
            seq = []
            changed = False
            for j, l in enumerate(lays):
                if hist[j][k] is not None:
                    cur[j] = hist[j][k]
                    changed = True
                a, _ = g.sample(s, l, cur[j][0])
                q, _ = g.sample(s, l, cur[j][1])
                seq.append((a, q))
            got = rec[names[i]][k]
            if c['merge']:
                check(got[1] == changed, f'source {i} step {k}: fresh={got[1]}, expected {changed}')
                close(got[0][0], np.prod([x[0] for x in seq], axis=0), T, what=f'source {i} step {k}: amplitude')
                close(got[0][1], np.sum([x[1] for x in seq], axis=0), T, scale=2000, what=f'source {i} step {k}: phase')
            else:
                check(len(got) == len(lays), f'{len(got)} fields, expected one per layer ({len(lays)})')
                for j, (x, w) in enumerate(zip(got, seq if c['up'] else seq[::-1])):
                    check(x[1] == changed, f'source {i} step {k} layer {j}: fresh={x[1]}, expected {changed}')
                    close(x[0][0], w[0], T, what=f'source {i} step {k} field {j}: amplitude')
                    close(x[0][1], w[1], T, scale=2000, what=f'source {i} step {k} field {j}: phase')
    return 'one by one' if not c['merge'] else 'merged'


@CHECK.family(st.fixed_dictionaries({
    'n': st.integers(4, 12), 'extra': st.integers(1, 8), 'h': st.sampled_from([500, 8000]), 'phi': st.sampled_from([0, 90, 180, 270]),
    'out': st.booleans(), 'eps': st.sampled_from([0.02, 0.2, 3]), 'H': st.sampled_from([None, 400, 90000])}), 60, 1000,
    rule='sources just inside and just outside the layers, above and below them')
def field_of_view(c):
    n, pitch = c['n'], 0.1
    p = SimulParams(pixel_pupil=n, pixel_pitch=pitch)
    px = c['extra'] + c['eps'] if c['out'] else max(c['extra'] - c['eps'], 0.1)
    s = Source([px * pitch / c['h'] / AS, c['phi']], 5, 750, height=float('inf') if c['H'] is None else c['H'])
    prop = AtmoPropagation(p, {'s': s})
    N = n + 2 * c['extra']
    o = Layer(N, N, pitch, c['h'])
    f = [(np.ones((N, N)), np.zeros((N, N)))]
    go = lambda: drive(prop, {'common_layer_list': [field_feed(o, f)]}, 1, outs=['out_s_ef'])
    if c['H'] is not None and c['H'] <= c['h']:
        raises(go, 'source below the layer')
        return 'below'
    if c['out']:
        raises(go, 'source outside the layer')
        return 'outside'
    go()
    return 'inside'


@CHECK.family(st.fixed_dictionaries({
    'n': st.integers(6, 20), 'layers': st.lists(st.fixed_dictionaries({
        'extra': st.integers(0, 4), 'dh': st.sampled_from([0, 50, 300, 1000, 4000]), 'amp': st.sampled_from(['ones', 'grey', 'mask'])}), min_size=1, max_size=4),
    'pad': st.sampled_from([1, 1, 2, 3]), 'wl': st.sampled_from([500, 1550, 3000]), 'H': st.sampled_from([8000, 20000, 60000]), 'pitch': st.sampled_from([0.05, 0.1]),
    'zen': st.sampled_from([0, 0, 40]), 'up': st.booleans(), 'ncommon': st.integers(1, 4), 'band': st.sampled_from([1.0, 1.0, 0.8, 0.4]), 'seed': st.integers(0, 10**6)}), 160, 3000,
    rule='wave propagation between layers in both directions, odd and even grids, with padding, against the angular spectrum formula in double precision; energy is conserved '
         'without padding', double=0.5)
def fresnel(c):
    n, pitch, wl = c['n'], c['pitch'], c['wl'] * 1e-9
    rng = rng_of(c['seed'])
    air = 1 / np.cos(np.radians(c['zen']))
    h, lays = 0, []
    for l in c['layers']:
        h += l['dh']
        lays.append(dict(l, h=h, sx=0, sy=0, rot=0, mag=1, N=n + 2 * l['extra']))
    c['H'] = max(c['H'], h + 1000)
    src = {'H': c['H'], 'rad': 0.0, 'phi': 0.0}
    g = Geometry(n, pitch, c['zen'], None)
    M = n * c['pad']
    hs = np.array([l['h'] * air for l in lays] + [c['H'] * air])
    d = np.diff(hs)
    L = M * pitch
    used = d if c['up'] else d[:-1]
    f = np.fft.fftfreq(M, pitch)
    fx, fy = f[None, :], f[:, None]

    def kernel(x):
        """Band limited angular spectrum: a distance too long for the wanted band is shortened until the band fits."""
        top, want = 1 / (wl * np.sqrt(1 + 4 * x**2 / L**2)), M // 2 / L * c['band'] if M % 2 == 0 else M / 2 / L * c['band']
        if abs(top / want - 1) < 1e-3:
            raise Skip
        if top < want:
            top = want
            x = np.sqrt(1 / (want * wl)**2 - 1) * L / 2
        k = np.exp(-1j * np.pi * x * wl * (fx**2 + fy**2))
        if c['band'] < 1:
            e = (fx / top)**2 + (fy * wl)**2
            if np.abs(e - 1).min() < 1e-6:
                raise Skip
            k = k * (e <= 1) * (e.T <= 1)
        return k, top
    passed = all(kernel(x)[1] > 0.71 / pitch or (c['band'] == 1) for x in used if x)
    p = SimulParams(pixel_pupil=n, pixel_pitch=pitch, zenithAngleInDeg=c['zen'])
    prop = AtmoPropagation(p, {'s': Source([0, 0], 5, 750, height=c['H'])}, doFresnel=True, wavelengthInNm=c['wl'], upwards=c['up'], padding_factor=c['pad'],
                           band_limit_factor=c['band'])
    feeds = {'common_layer_list': [], 'atmo_layer_list': []}
    vals = []
    for i, l in enumerate(lays):
        v = (amplitude(rng, l['N'], l['amp']), smooth(rng, l['N'], 100))
        vals.append(v)
        feeds['common_layer_list' if i < c['ncommon'] else 'atmo_layer_list'].append(field_feed(Layer(l['N'], l['N'], pitch, l['h']), [v]))
    if not feeds['atmo_layer_list']:
        del feeds['atmo_layer_list']
    got = drive(prop, feeds, 1, outs=['out_s_ef'])['out_s_ef'][0][0]
    U = np.ones((n, n), dtype=complex)
    order = range(len(lays)) if c['up'] else range(len(lays))[::-1]
    o = (M - n + 1) // 2
    for j in order:
        a, _ = g.sample(src, lays[j], vals[j][0])
        q, _ = g.sample(src, lays[j], vals[j][1])
        U = U * a * np.exp(2j * np.pi * q / c['wl'])
        dist = d[j] if c['up'] else (d[j - 1] if j > 0 else 0)
        if dist:
            P = np.zeros((M, M), dtype=complex)
            P[o:o + n, o:o + n] = U
            P = np.fft.ifft2(np.fft.fft2(P) * kernel(dist)[0])
            U = P[o:o + n, o:o + n]
    V = got[0] * np.exp(2j * np.pi * got[1].astype(float) / c['wl'])
    close(V, U, 2e-3 if PREC == 1 else 1e-7, what='field')
    if all(l['amp'] == 'ones' for l in lays) and c['pad'] == 1 and len(used) and passed:
        close(np.sum(got[0].astype(float)**2), n * n, 1e-4, what='energy')
    return 'propagated' if np.any(used) else 'trivial'


@CHECK.family(st.fixed_dictionaries({
    'wl': st.sampled_from([589, 750, 1250, 2200]), 'ref': st.sampled_from([589, 750, 1250, 2200]), 'zen': st.sampled_from([0, 20, 45, 60]),
    'tel': st.sampled_from([0, 2635, 4200]), 'h': st.sampled_from([0, 100, 5000, 12000, 20000]), 'seed': st.integers(0, 10**6)}), 40, 600,
    rule='displacement between colours at the layers, against the formula of the cited paper', double=0.5)
def chromatic(c):
    n, pitch, N = 8, 0.02, 40
    rng = rng_of(c['seed'])
    p = SimulParams(pixel_pupil=n, pixel_pitch=pitch, zenithAngleInDeg=c['zen'])
    s = Source([0.0, 0], 5, c['wl'])
    prop = AtmoPropagation(p, {'s': s}, telescope_altitude_m=c['tel'], enable_chromatic_effect=True, chromatic_reference_wavelengthInNm=c['ref'])
    # an inclined layer, so that the displacement is read with no interpolation error
    gx, gy = rng.uniform(-3, 3, 2)
    x = np.arange(N) - (N - 1) / 2
    ph = gx * x[None, :] + gy * x[:, None]
    lay = Layer(N, N, pitch, c['h'], shiftXYinPixel=(1e-3, 0))
    com = Layer(n, n, pitch, 0)
    got = drive(prop, {'atmo_layer_list': [field_feed(lay, [(np.ones((N, N)), ph)])],
                       'common_layer_list': [field_feed(com, [(np.ones((n, n)), np.zeros((n, n)))])]}, 1, outs=['out_s_ef'])['out_s_ef'][0][0][1]

    def press(h):
        if h < 11000:
            return 1012.9 * ((288.08 - 0.00649 * h) / 288.08)**5.256
        if h < 25000:
            return 226.5 * np.exp(1.73 - 0.000157 * h)
        return 24.88 * ((141.94 + 0.00299 * h) / 216.6)**(-11.388)
    m = MatharAirRefraction()
    dn = float(m.get_refractive_index(c['ref'] * 1e-9)) - float(m.get_refractive_index(c['wl'] * 1e-9))
    z = np.radians(c['zen'])
    sh = dn / np.cos(z) * np.tan(z) * press(c['tel']) * 100 / (9.8 * 1.225) * (1 - press(c['tel'] + c['h']) / press(c['tel']))
    # air is more refractive towards the blue
    if c['ref'] < c['wl'] and c['zen'] and c['h']:
        check(sh > 0, 'the shorter wavelength is refracted less')
    u = np.arange(n) - (n - 1) / 2
    want = gx * (u[None, :] - 1e-3) + gy * (u[:, None] + sh / pitch)
    if abs(sh / pitch) > (N - n) / 2 - 0.1:
        raise Skip
    close(got, want, T, what='phase of the inclined layer')
    return 'shifted' if sh else 'trivial'


@CHECK.family(st.fixed_dictionaries({
    'ny': st.integers(1, 9), 'nx': st.integers(1, 9), 'k': st.integers(2, 4), 'list': st.booleans(), 'steps': st.integers(1, 4), 'upd': st.integers(0, 2**16 - 1),
    'what': st.sampled_from(['combine', 'combine', 'reflect', 'flatten']), 'seed': st.integers(0, 10**6)}), 120, 3000,
    rule='fields combined, reflected and flattened, of any shape, updated at different times', double=0.4)
def algebra(c):
    rng = rng_of(c['seed'])
    ny, nx, steps = c['ny'], c['nx'], c['steps']
    k = 1 if c['what'] != 'combine' else (c['k'] if c['list'] else 2)
    feeds, hist, efs = [], [], []
    for i in range(k):
        e = ElectricField(nx, ny, 0.1, S0=float(rng.uniform(0, 5)))
        A = (rng.uniform(0, 2, (steps, ny, nx)) * (rng.random((steps, ny, nx)) > 0.3)).astype(DT)
        P = rng.normal(size=(steps, ny, nx)).astype(DT) * 200
        f = [(A[t], P[t]) if t == 0 or (c['upd'] >> (t + 4 * i)) & 1 else None for t in range(steps)]
        hist.append(f); efs.append(e); feeds.append(field_feed(e, f))
    if c['what'] == 'combine':
        o = ElectricFieldCombinator()
        fd = {'in_ef_list': feeds} if c['list'] else {'in_ef1': feeds[0], 'in_ef2': feeds[1]}
    else:
        o = ElectricFieldReflection() if c['what'] == 'reflect' else PhaseFlattening()
        fd = {'in_ef': feeds[0]}
    rec = drive(o, fd, steps)['out_ef']
    out = o.outputs['out_ef']
    close(out.pixel_pitch, 0.1, 0, what='pitch')
    close(float(out.S0), sum(e.S0 for e in efs), 1e-6, what='flux')
    cur = [None] * k
    for t in range(steps):
        changed = False
        for i in range(k):
            if hist[i][t] is not None:
                cur[i], changed = hist[i][t], True
        v, fresh = rec[t]
        check(fresh == changed, f'step {t}: fresh={fresh}, expected {changed}')
        A = np.prod([x[0].astype(float) for x in cur], axis=0)
        P = np.sum([x[1].astype(float) for x in cur], axis=0)
        if c['what'] == 'reflect':
            P = -P
        if c['what'] == 'flatten':
            m = A > 0
            if m.any():
                P = np.where(m, P - P[m].mean(), P)
        close(v[0], A, 1e-5, what=f'step {t}: amplitude')
        close(v[1], P, 1e-5, atol=1e-3 if PREC == 1 else 1e-9, what=f'step {t}: phase')
    for i in range(k):
        same(efs[i].A, cur[i][0], f'input {i} amplitude')
        same(efs[i].phaseInNm, cur[i][1], f'input {i} phase')


@CHECK.family(st.fixed_dictionaries({
    'ny': st.integers(2, 12), 'nx': st.integers(2, 12), 'pitch': st.sampled_from([0.05, 1.0, 0.3]), 'wl': st.floats(300, 5000), 'y0': st.integers(0, 5), 'x0': st.integers(0, 5),
    'dy': st.integers(1, 8), 'dx': st.integers(1, 8), 'seed': st.integers(0, 10**6)}), 120, 2000,
    rule='complex amplitude, whole or by slices, areas, products with an offset, and resizing of one field', double=0.4)
def single_field(c):
    rng = rng_of(c['seed'])
    ny, nx = c['ny'], c['nx']
    e = ElectricField(nx, ny, c['pitch'], S0=2.5)
    check(tuple(e.size) == (ny, nx), f'size {e.size}')
    same(e.A, np.ones((ny, nx)), 'initial amplitude'); same(e.phaseInNm, np.zeros((ny, nx)), 'initial phase')
    A = rng.uniform(0, 2, (ny, nx)).astype(DT); P = (rng.normal(size=(ny, nx)) * 300).astype(DT)
    e.set_value(np.array([A, P]))
    same(e.A, A, 'amplitude'); same(e.phaseInNm, P, 'phase')
    r = 1e-4 if PREC == 1 else 1e-10
    U = A * np.exp(2j * np.pi * P.astype(float) / c['wl'])
    close(e.ef_at_lambda(c['wl']), U, r, what='field')
    ys, xs = slice(c['y0'] % ny, c['y0'] % ny + c['dy']), slice(c['x0'] % nx, c['x0'] % nx + c['dx'])
    close(e.ef_at_lambda(c['wl'], slicey=ys, slicex=xs), U[ys, xs], r, what='field in a window')
    buf = np.full((ny, nx), 7, dtype=CDT)
    e.ef_at_lambda(c['wl'], out=buf)
    close(buf, U, r, what='field in a buffer')
    close(e.phi_at_lambda(c['wl'], ys, xs), 2 * np.pi * P.astype(float)[ys, xs] / c['wl'], r, what='phase in radians')
    close(e.square_modulus(c['wl']), np.abs(U)**2, r, what='intensity')
    close(float(e.masked_area()), A.astype(float).sum() * c['pitch']**2, 1e-5, what='masked area')
    close(float(e.area()), ny * nx * c['pitch']**2, 1e-6, what='area')
    b = ElectricField(nx + c['x0'] + 1, ny + c['y0'] + 2, c['pitch'])
    B = rng.uniform(0, 2, b.size).astype(DT); Q = rng.normal(size=b.size).astype(DT)
    b.set_value(np.array([B, Q]))
    e.product(b, subrect=[c['y0'], c['x0']])
    w = np.s_[c['y0']:c['y0'] + ny, c['x0']:c['x0'] + nx]
    close(e.A, A * B[w], 1e-6, what='product: amplitude'); close(e.phaseInNm, P + Q[w], 1e-6, what='product: phase')
    same(b.A, B, 'second factor'); same(b.phaseInNm, Q, 'second factor')
    e.reset()
    same(e.A, np.ones((ny, nx)), 'amplitude after reset'); same(e.phaseInNm, np.zeros((ny, nx)), 'phase after reset')
    e.phaseInNm = P
    e.resize(nx + 1, ny + 2, 3.5)
    check(tuple(e.size) == (ny + 2, nx + 1) and e.pixel_pitch == 3.5, f'resized to {e.size}, pitch {e.pixel_pitch}')
    same(e.A, np.ones((ny + 2, nx + 1)), 'amplitude after resize'); same(e.phaseInNm, np.zeros((ny + 2, nx + 1)), 'phase after resize')


@CHECK.family(st.fixed_dictionaries({
    'n': st.integers(6, 20), 'k': st.integers(1, 3), 'H': st.sampled_from([None, 90000]), 'rot': st.sampled_from([0, 17]), 'a': st.floats(-3, 3), 'b': st.floats(-3, 3),
    'r': st.sampled_from([0.0, 2.0]), 'seed': st.integers(0, 10**6)}), 60, 1500,
    rule='superposition: the phase of a linear combination of layers is the combination of their phases, and a constant layer gives a constant', double=0.4)
def superposition(c):
    n, pitch = c['n'], 0.1
    rng = rng_of(c['seed'])
    p = SimulParams(pixel_pupil=n, pixel_pitch=pitch)
    N = n + 8
    src = {'s': Source([c['r'], 35], 5, 750, height=float('inf') if c['H'] is None else c['H'])}
    hs = [0, 1000, 9000][:c['k']]
    x, y = [smooth(rng, N, 100) for _ in hs], [smooth(rng, N, 100) for _ in hs]

    def run(ph):
        prop = AtmoPropagation(p, src)
        f = [field_feed(Layer(N, N, pitch, h, rotInDeg=c['rot']), [(np.ones((N, N)), q)]) for h, q in zip(hs, ph)]
        return drive(prop, {'common_layer_list': f}, 1, outs=['out_s_ef'])['out_s_ef'][0][0].astype(float)
    gx, gy = run(x), run(y)
    gz = run([(c['a'] * u + c['b'] * v).astype(DT) for u, v in zip(x, y)])
    close(gz[1], c['a'] * gx[1] + c['b'] * gy[1], T, scale=2000, what='combination of layers')
    one = run([np.full((N, N), 10.0 * (i + 1)) for i in range(len(hs))])
    close(one[1], np.full((n, n), sum(10.0 * (i + 1) for i in range(len(hs)))), 1e-5, what='constant layers')
    close(one[0], np.ones((n, n)), 1e-5, what='amplitude')
