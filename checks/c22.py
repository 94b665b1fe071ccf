"""C22: resampling, interpolation and geometric masks."""
from vlib.drive import *
from specula.lib.toccd import toccd
from specula.lib.rebin import rebin2d
from specula.lib.interp2d import Interp2D
from specula.lib.extrapolation_2d import (EFInterpolator, _calculate_extrapolation_indices_coeffs,
                                          _apply_extrapolation)
from specula.lib.make_mask import make_mask
from specula.lib.make_xy import make_xy
from specula.lib.calc_geometry import calc_geometry
from specula.lib.mask import CircularMask, AnnularMask
from specula.lib.utils import local_mean_rebin, make_subpixel_shift_phase, unravel_index_2d, make_orto_modes
from specula.lib.compute_petal_ifunc import compute_petal_ifunc
from specula.data_objects.electric_field import ElectricField
import contextlib, io, warnings

CHECK = Check('C22', 'Resampling, interpolation and masks', scale=3, assumptions=[
    'CPU arrays', 'masks: no pixel within rounding of the edge of the shape',
    'EFInterpolator: the mask of the input field does not change after its first use'])
RT = 2e-5 if PREC == 1 else 1e-10


def overlap(n, m):
    """(m, n) matrix: length of the part of old pixel j inside new pixel i, in old pixels."""
    e = np.arange(m + 1) * n / m
    j = np.arange(n)
    return np.clip(np.minimum(e[1:, None], j[None] + 1) - np.maximum(e[:-1, None], j[None]), 0, None)


def sizes(lo, hi):
    return st.integers(lo, hi)


@CHECK.family(st.fixed_dictionaries(dict(
    n0=sizes(1, 24), n1=sizes(1, 24), m0=sizes(1, 24), m1=sizes(1, 24), total=st.sampled_from([None, 1.0, 250.0]),
    dt=st.sampled_from(["float32", "float64"]), seed=st.integers(0, 9999))), quick=1400, thorough=40000,
    rule='the shape changes')
def rebin_ccd(c):
    rng = rng_of(c['seed'])
    a = rng.uniform(0.1, 5, (c['n0'], c['n1'])).astype(c['dt'])
    a[rng.random(a.shape) < 0.2] = 0
    if a.sum() == 0:
        a[:] = 1
    keep = a.copy()
    out = toccd(a, (c['m0'], c['m1']), set_total=c['total'], xp=np)
    same(a, keep, 'the input image is changed')
    rt = 1e-4 if c['dt'] == 'float32' else 1e-10
    if (c['n0'], c['n1']) == (c['m0'], c['m1']):
        same(np.asarray(out), keep)
        return 'trivial'
    want = overlap(c['n0'], c['m0']) @ a.astype(float) @ overlap(c['n1'], c['m1']).T
    if c['total'] is not None:
        want *= c['total'] / want.sum()
    close(out, want, rtol=rt, atol=rt * want.max(), what='image rebinned over pixels')
    return ('row-up' if c['m0'] > c['n0'] else 'row-down') + (' col-up' if c['m1'] > c['n1'] else ' col-down')


@CHECK.family(st.fixed_dictionaries(dict(
    n0=sizes(1, 9), n1=sizes(1, 9), k0=sizes(1, 4), k1=sizes(1, 4), how=st.sampled_from(['mean', 'sample-down', 'sample-up', 'bad', 'sample-any']),
    extra=sizes(1, 5), seed=st.integers(0, 9999))), quick=1000, thorough=20000, rule='the shape changes')
def rebin(c):
    rng = rng_of(c['seed'])
    small, big = (c['n0'], c['n1']), (c['n0'] * c['k0'], c['n1'] * c['k1'])
    if c['how'] == 'mean':
        a = rng.normal(size=big)
        want = np.array([[a[i * c['k0']:(i + 1) * c['k0'], j * c['k1']:(j + 1) * c['k1']].mean()
                          for j in range(small[1])] for i in range(small[0])])
        close(rebin2d(a, small, xp=np), want, rtol=1e-12, atol=1e-12)
    elif c['how'] == 'sample-down':
        a = rng.normal(size=big)
        same(rebin2d(a, small, sample=True, xp=np), a[::c['k0'], ::c['k1']])
    elif c['how'] == 'sample-up':
        a = rng.normal(size=small)
        same(rebin2d(a, big, sample=True, xp=np), np.repeat(np.repeat(a, c['k0'], 0), c['k1'], 1))
    elif c['how'] == 'sample-any':
        a = rng.normal(size=small)
        new = (c['k0'] + c['extra'], c['k1'] + 2 * c['extra'])
        got = rebin2d(a, new, sample=True, xp=np)
        check(got.shape == new, 'shape', got.shape)
        for i in range(new[0]):
            for j in range(new[1]):
                check(got[i, j] == a[i * small[0] // new[0], j * small[1] // new[1]], 'sampled element', i, j)
    else:
        a = rng.normal(size=small)
        up = (small[0] + c['extra'], small[1] + c['k1'] - 1)
        raises(lambda: rebin2d(a, up, xp=np), 'averaging to a larger shape', ValueError)
        if small[0] > 1:
            raises(lambda: rebin2d(np.zeros((2 * small[0] + 1, small[1])), (2, small[1]), xp=np), 'non integer factor', ValueError)
    return 'trivial' if c['k0'] == c['k1'] == 1 and c['how'] not in ('bad', 'sample-any') else c['how']


def coords(nin, nout, rot, rs, cs, mag):
    y, x = np.mgrid[:nout[0], :nout[1]].astype(float)
    y *= (nin[0] - 1) / nout[0]
    x *= (nin[1] - 1) / nout[1]
    yc, xc = (nin[0] - 1) / 2, (nin[1] - 1) / 2
    x, y = (x - xc) / mag, (y - yc) / mag
    a = np.deg2rad(rot)
    x, y = x * np.cos(a) - y * np.sin(a) + xc, x * np.sin(a) + y * np.cos(a) + yc
    return np.clip(y + rs, 0, nin[0] - 1), np.clip(x + cs, 0, nin[1] - 1)


def bilinear(v, y, x):
    i = np.minimum(np.floor(y).astype(int), max(v.shape[0] - 2, 0))
    j = np.minimum(np.floor(x).astype(int), max(v.shape[1] - 2, 0))
    f, g = y - i, x - j
    return (v[i, j] * (1 - f) * (1 - g) + v[i + 1, j] * f * (1 - g) + v[i, j + 1] * (1 - f) * g
            + v[i + 1, j + 1] * f * g)


TRANS = dict(rot=st.one_of(st.just(0), st.sampled_from([90, 180, 270, -30.0, 17.5]), st.integers(-180, 180)),
             rs=st.one_of(st.just(0), st.integers(-3, 3), st.floats(-4, 4).map(lambda v: round(v, 2))),
             cs=st.one_of(st.just(0), st.integers(-3, 3), st.floats(-4, 4).map(lambda v: round(v, 2))),
             mag=st.sampled_from([1.0, 1.0, 0.5, 0.9, 1.3, 2.0]))


@CHECK.family(st.fixed_dictionaries(dict(
    n0=sizes(2, 20), n1=sizes(2, 20), m0=sizes(1, 24), m1=sizes(1, 24), eq=st.booleans(),
    kind=st.sampled_from(['trans', 'trans', 'given']), out=st.booleans(), dt=st.sampled_from(["float32", "float64"]),
    seed=st.integers(0, 9999), **TRANS)), quick=1000, thorough=25000, rule='an interpolation is made')
def interp(c):
    rng = rng_of(c['seed'])
    nin = (c['n0'], c['n1'])
    nout = nin if c['eq'] else (c['m0'], c['m1'])
    v = rng.normal(size=nin).astype(c['dt'])
    if c['kind'] == 'given':
        yy = rng.uniform(-1, nin[0], nout)
        xx = rng.uniform(-1, nin[1], nout)
        k2 = (yy.copy(), xx.copy())
        it = Interp2D(nin, nout, yy=yy, xx=xx, dtype=np.dtype(c['dt']).type, xp=np)
        same(yy, k2[0], 'row coordinates changed')
        same(xx, k2[1], 'column coordinates changed')
        y, x = np.clip(yy, 0, nin[0] - 1), np.clip(xx, 0, nin[1] - 1)
    else:
        it = Interp2D(nin, nout, c['rot'], c['rs'], c['cs'], magnification=c['mag'], dtype=np.dtype(c['dt']).type, xp=np)
        y, x = coords(nin, nout, c['rot'], c['rs'], c['cs'], c['mag'])
    noop = (c['kind'] == 'trans' and nin == nout and c['rot'] == 0 and c['rs'] == 0 and c['cs'] == 0 and c['mag'] == 1)
    keep = v.copy()
    for _ in range(2):
        out = np.full(nout, 77, c['dt']) if c['out'] else None
        got = it.interpolate(v, out=out)
        if c['out']:
            check(got is out, 'the result is not in the array given')
        same(v, keep, 'the input is changed')
        rt = 1e-4 if c['dt'] == 'float32' else 1e-10
        close(got, v if noop else bilinear(v.astype(float), y, x), rtol=rt, atol=rt, what='interpolated array')
        v[:] = rng.normal(size=nin)
        keep = v.copy()
    raises(lambda: it.interpolate(np.zeros((nin[0] + 1, nin[1]), c['dt'])), 'another input shape', ValueError)
    return 'trivial' if noop else c['kind']


def in_mask(rng, n, kind):
    y, x = np.mgrid[:n, :n] - (n - 1) / 2
    r = np.hypot(x, y) / (n / 2)
    if kind == 'disc':
        return (r < 1.001).astype(float)
    if kind == 'annulus':
        return ((r < 1.001) & (r > 0.35)).astype(float)
    if kind == 'full':
        return np.ones((n, n))
    if kind == 'gray':
        return np.where(r < 1.001, rng.uniform(0.1, 1.5, (n, n)), 0)
    m = (rng.random((n, n)) < 0.8).astype(float)
    m[n // 2, n // 2] = 1
    return m


def edges(m):
    b = np.pad(m, 2).astype(bool)
    near = np.zeros_like(b)
    good = np.ones_like(b)
    for d in ((1, 0), (-1, 0), (0, 1), (0, -1)):
        one = np.roll(b, d, (0, 1))
        two = np.roll(b, (2 * d[0], 2 * d[1]), (0, 1))
        near |= one
        good &= ~one | two
    s = (slice(2, -2),) * 2
    return (near & ~b)[s], good[s]


@CHECK.family(st.fixed_dictionaries(dict(n=sizes(3, 24), kind=st.sampled_from(['disc', 'annulus', 'full', 'gray', 'holes']),
              seed=st.integers(0, 9999), thr=st.sampled_from([1e-3, 0.5]))), quick=500, thorough=12000,
              rule='some pixel is extrapolated')
def extrapolation(c):
    rng = rng_of(c['seed'])
    m = in_mask(rng, c['n'], c['kind'])
    b = m >= c['thr']
    edge, good = edges(b)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        arg = _calculate_extrapolation_indices_coeffs(m, threshold=c['thr'])
    y, x = np.mgrid[:c['n'], :c['n']]
    g = rng.normal(size=3) * 50
    for what, f in (('constant', 0 * y + g[0]), ('plane', g[0] + g[1] * y + g[2] * x), ('any', rng.normal(size=b.shape))):
        data = np.where(b, f, 1e6)
        keep = data.copy()
        out = _apply_extrapolation(data, *arg, out=np.where(b, f, -5.), xp=np)
        same(data, keep, 'the data are changed')
        close(out[b], f[b], rtol=0, atol=0, what='valid pixels')
        check((out[~b & ~edge] == -5).all(), 'a pixel away from the edge is changed')
        if what == 'constant':
            close(out[edge], f[edge], rtol=1e-5, atol=1e-4, what='extrapolation of a constant')
        elif what == 'plane':
            close(out[edge & good], f[edge & good], rtol=1e-5, atol=1e-2, what='extrapolation of a plane')
    # two references in a single direction: the straight line through them
    if edge.any():
        lin = np.where(b, rng.normal(size=b.shape), 1e6)
        out = _apply_extrapolation(lin, *arg, out=lin.copy(), xp=np)
        P = np.pad(b, 2)
        L = np.pad(lin, 2)
        for i, j in zip(*np.where(edge & good)):
            vals = [2 * L[i + 2 + a, j + 2 + q] - L[i + 2 + 2 * a, j + 2 + 2 * q]
                    for a, q in ((1, 0), (-1, 0), (0, 1), (0, -1)) if P[i + 2 + a, j + 2 + q]]
            close(out[i, j], np.mean(vals), rtol=1e-5, atol=1e-4, what='extrapolated value')
    return c['kind'] if edge.any() else 'trivial'


@CHECK.family(st.fixed_dictionaries(dict(n=sizes(4, 24), over=st.sampled_from([1, 1, 2, 3, 0.5]),
              kind=st.sampled_from(['disc', 'annulus', 'full', 'gray', 'holes']), force=st.booleans(),
              cache=st.booleans(), update=st.booleans(), upd=st.lists(st.sampled_from(['rot', 'rs', 'cs', 'mag']), unique=True, min_size=1),
              seed=st.integers(0, 9999), rot2=st.integers(-90, 90), rs2=st.integers(-2, 2), cs2=st.floats(-2, 2), mag2=st.sampled_from([1.0, 1.2]),
              **TRANS)), quick=600, thorough=15000, rule='an interpolation is made')
def field_interpolator(c):
    rng = rng_of(c['seed'])
    n = c['n'] if c['over'] != 0.5 else c['n'] // 2 * 2
    m = int(n * c['over'])
    amp = np.asarray(in_mask(rng, n, c['kind']), DT)
    ef = ElectricField(n, n, 0.1, S0=rng.uniform(1, 5))
    ef.A = amp
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        it = EFInterpolator(ef, (m, m), rotAnglePhInDeg=c['rot'], xShiftPhInPixel=c['rs'], yShiftPhInPixel=c['cs'],
                            magnification=c['mag'], force_extrapolation=c['force'], use_out_ef_cache=c['cache'])
        rot, rs, cs, mag = c['rot'], c['rs'], c['cs'], c['mag']
        noop = m == n and rot == 0 and rs == 0 and cs == 0 and mag == 1 and not c['force']
        steps = 2
        for k in range(steps):
            ph = np.asarray(rng.normal(size=(n, n)) * 30, DT)
            g = rng.normal(size=3) * 20
            y, x = np.mgrid[:n, :n]
            if k == 1:
                ph = np.asarray(g[0] + g[1] * y + g[2] * x, DT)
                ef.S0 = ef.S0 * 2
                if c['update'] and not noop:
                    # the parameters not named keep their value
                    if 'rot' in c['upd']:
                        rot = c['rot2']
                    if 'rs' in c['upd']:
                        rs = c['rs2']
                    if 'cs' in c['upd']:
                        cs = c['cs2']
                    if 'mag' in c['upd']:
                        mag = c['mag2']
                    it.update_parameters(**{{'rot': 'rotAnglePhInDeg', 'rs': 'xShiftPhInPixel', 'cs': 'yShiftPhInPixel',
                                             'mag': 'magnification'}[u]: {'rot': rot, 'rs': rs, 'cs': cs, 'mag': mag}[u] for u in c['upd']})
            ef.phaseInNm = ph.copy()
            it.interpolate()
            out = it.interpolated_ef()
            same(ef.phaseInNm, ph, 'the input phase is changed')
            same(ef.A, amp, 'the input amplitude is changed')
            if noop:
                same(out.A, amp)
                same(out.phaseInNm, ph)
                continue
            check(out.size == (m, m), 'size', out.size)
            close(out.pixel_pitch, 0.1 * n / m, rtol=1e-6, what='pixel pitch')
            close(out.S0, ef.S0, rtol=1e-6, what='S0')
            Y, X = coords((n, n), (m, m), -rot, rs, cs, mag)
            still_noop = m == n and rot == 0 and rs == 0 and cs == 0 and mag == 1
            if still_noop:      # the same field without any resampling
                X, Y = np.meshgrid(np.arange(m) * 1.0, np.arange(m) * 1.0)
            a = bilinear(amp.astype(float), Y, X)
            if set(np.unique(amp)) <= {0, 1}:
                sure = abs(a - 0.5) > 1e-3
                same(np.asarray(out.A)[sure], (a > 0.5)[sure].astype(DT), 'amplitude')
            else:
                close(out.A, a, rtol=10 * RT, atol=20 * RT, what='amplitude')
            b = amp >= 1e-3
            edge, good = edges(b)
            ok = b | (edge & good if k == 1 else False)
            i, j = np.minimum(np.floor(Y).astype(int), n - 2), np.minimum(np.floor(X).astype(int), n - 2)
            ok4 = ok[i, j] & ok[i + 1, j] & ok[i, j + 1] & ok[i + 1, j + 1]
            want = bilinear(ph.astype(float), Y, X)
            t = 1e-3 if PREC == 1 else 1e-5
            close(np.asarray(out.phaseInNm)[ok4], want[ok4], rtol=t, atol=t * max(abs(ph).max(), 1), what='phase')
            check(np.isfinite(out.phaseInNm).all(), 'phase not finite')
    return 'trivial' if noop else ('updated' if c['update'] else 'fixed')


def shape_model(n, c):
    x = (np.arange(n) - (n - 1) / 2) / (n / 2)
    xc, yc = c['xc'], c['yc']
    if c['onpix']:
        g = (np.arange(n + 1) - n / 2) / (n / 2)         # corners between pixels

        def snap(v):
            d = np.sort(abs(g - v))
            e = np.sort(abs(x - v))
            if d[1] - d[0] < 1e-6 or e[1] - e[0] < 1e-6 or abs(v) > x[-1] - 1 / n:
                raise Skip()
            return g[abs(g - v).argmin()]
        xc, yc = snap(xc), snap(yc)
    X, Y = np.meshgrid(x - xc, x - yc)
    d, o = c['dia'], c['dia'] * c['obs']
    r = np.maximum(abs(X), abs(Y)) if c['square'] else np.hypot(X, Y)
    unsure = (abs(r - d) < 1e-9) | ((abs(r - o) < 1e-9) & (o > 0))
    return (r < d) & (r >= o), unsure


@CHECK.family(st.fixed_dictionaries(dict(n=sizes(2, 40), dia=st.sampled_from([1.0, 1.0, 0.8, 0.5, 1.3]),
              obs=st.sampled_from([0.0, 0.0, 0.2, 0.5]), xc=st.one_of(st.just(0.0), st.floats(-0.9, 0.9)),
              yc=st.one_of(st.just(0.0), st.floats(-0.9, 0.9)), square=st.booleans(), inverse=st.booleans(),
              onpix=st.booleans(), idx=st.booleans(), petals=st.sampled_from([0, 0, 3, 4, 6]), width=st.floats(0.5, 4),
              off=st.sampled_from([0, 10.0, 45.0, 90]))), quick=1000, thorough=25000, rule='always')
def mask_shape(c):
    n = c['n']
    want, unsure = shape_model(n, c)
    spider = c['petals'] > 0
    r = make_mask(n, obsratio=c['obs'], diaratio=c['dia'], xc=c['xc'], yc=c['yc'], square=c['square'], inverse=c['inverse'],
                  centeronpixel=c['onpix'], get_idx=c['idx'], xp=np, spider=spider, spider_width=c['width'],
                  n_petals=c['petals'], angle_offset=c['off'])
    m = r[0] if c['idx'] else r
    check(m.shape == (n, n) and set(np.unique(m)) <= {0, 1}, 'mask of zeros and ones', m.shape)
    if c['idx']:
        got = np.zeros((n, n))
        got[r[1]] = 1
        same(got, m.astype(float), 'indices of the mask')
    m = m.astype(bool) != c['inverse']
    may = np.zeros((n, n), bool)
    if spider:
        must = np.zeros((n, n), bool)
        y, x = np.mgrid[:n, :n] + 0.5 - n / 2
        h = c['width'] * 1.2 / 2
        for k in range(c['petals']):
            a = 2 * np.pi * k / c['petals'] + np.deg2rad(c['off'])
            along, across = x * np.cos(a) + y * np.sin(a), abs(-x * np.sin(a) + y * np.cos(a))
            must |= (across < h - 0.36) & (along > 0.36) & (along < int(np.sqrt(2) * n / 2) - 0.9) & \
                (np.maximum(abs(x), abs(y)) < n / 2 - h - 1)
            may |= (across < h + 1.25) & (along > -1.25)
        check(not (m & must).any(), 'light on a spider arm')
        want = want & ~must
    sure = ~unsure & ~may
    same(m[sure], want[sure], 'pixels of the shape')
    check(not (m & ~want & ~unsure).any(), 'light outside the shape')
    return ('square' if c['square'] else 'round') + (' spider' if spider else '')


@CHECK.family(st.fixed_dictionaries(dict(n=st.one_of(sizes(2, 30), sizes(31, 90)), ratio=st.sampled_from([1.0, 0.5, 7.0]), polar=st.booleans(),
              vector=st.booleans(), zero=st.booleans(), quarter=st.booleans(), fft=st.booleans())), quick=600, thorough=2000,
              rule='always')
def grid(c):
    n = c['n']
    r = make_xy(n, c['ratio'], np, polar=c['polar'], vector=c['vector'], zero_sampled=c['zero'], quarter=c['quarter'], fft=c['fft'])
    pos = (np.arange(n) - (n - 1) / 2) / (n / 2) * c['ratio']
    if c['zero'] and n % 2 == 0:
        pos -= c['ratio'] / n
    if c['quarter']:
        pos = pos[pos > -1e-9]
    elif c['fft']:
        # the smallest non negative coordinate first
        k = np.where(pos > -1e-9)[0][0]
        pos = np.roll(pos, -k)
    if c['vector']:
        close(r, pos, rtol=1e-12, atol=1e-12, what='coordinates')
        return 'vector'
    X, Y = np.meshgrid(pos, pos)
    if c['polar']:
        close(r[0], np.hypot(X, Y), rtol=1e-9, atol=1e-12, what='radius')
        # compare the directions, away from the origin
        ok = np.hypot(X, Y) > 1e-6
        close(np.cos(r[1])[ok] * np.hypot(X, Y)[ok], X[ok], rtol=1e-9, atol=1e-9, what='angle')
        close(np.sin(r[1])[ok] * np.hypot(X, Y)[ok], Y[ok], rtol=1e-9, atol=1e-9, what='angle')
    else:
        close(r[0], X, rtol=1e-12, atol=1e-12, what='x')
        close(r[1], Y, rtol=1e-12, atol=1e-12, what='y')
    raises(lambda: make_xy(1, 1.0, np), 'a single sample', ValueError)
    return 'polar' if c['polar'] else 'cartesian'


@CHECK.family(st.fixed_dictionaries(dict(n0=sizes(2, 30), n1=sizes(2, 30), r=st.one_of(st.none(), st.floats(0.5, 16)),
              center=st.booleans(), inner=st.sampled_from([0, 0.4, 0.8]), seed=st.integers(0, 9999))), quick=500, thorough=10000,
              rule='always')
def disc_mask(c):
    rng = rng_of(c['seed'])
    shape = (c['n0'], c['n1'])
    center = rng.uniform(0, 1, 2) * shape if c['center'] or c['inner'] else None
    R = c['r'] if c['r'] is not None else min(shape) / 2
    rin = R * c['inner']
    if c['inner']:
        m = AnnularMask(shape, c['r'], center, inRadius=rin, xp=np)
        check(m.inRadius() == rin, 'inner radius', m.inRadius())
    else:
        m = CircularMask(shape, c['r'], center, xp=np)
    cy, cx = center if center is not None else (shape[0] / 2, shape[1] / 2)
    y, x = np.mgrid[:shape[0], :shape[1]] + 0.5
    d = np.hypot(y - cy, x - cx)
    unsure = (abs(d - R) < 1e-9) | (abs(d - rin) < 1e-9)
    inside = (d <= R) & ((d > rin) | (c['inner'] == 0))
    same(np.asarray(m.mask())[~unsure], ~inside[~unsure], 'True outside the shape')
    same(np.asarray(m.asTransmissionValue()).astype(bool), ~np.asarray(m.mask()), 'transmission')
    same(np.asarray(m.in_mask_indices()), np.where(~np.asarray(m.mask()).ravel())[0], 'indices inside')
    close(m.radius(), R, rtol=1e-12, what='radius')
    close(np.asarray(m.center()), [cy, cx], rtol=1e-12, what='centre')
    check(tuple(m.shape()) == shape, 'shape')
    return 'annulus' if c['inner'] else 'disc'


@CHECK.family(st.fixed_dictionaries(dict(pix=sizes(8, 200), pitch=st.floats(0.01, 0.5), wl=st.floats(400, 2500),
              ratio=st.floats(0.3, 6), inf=st.sampled_from([0.0, 0.1, 0.3]), sup=st.sampled_from([0.0, 0.5, 2.0]),
              res=st.sampled_from([2.0, 3.0, 4.0, 2.5]))), quick=1000, thorough=20000, rule='the geometry is possible')
def focal_geometry(c):
    fint = c['wl'] * 1e-9 / c['pitch'] * 3600 * 180 / np.pi
    fov = fint * c['ratio']
    edge = min(abs(fint - fov * (1 + c['sup'])), abs(fint - fov * (1 - c['inf']))) / fint
    k = c['ratio'] * (1 - c['inf'])
    if edge < 1e-6 or abs(k - round(k)) < 1e-6:
        raise Skip()

    def run():
        with contextlib.redirect_stdout(io.StringIO()):
            return calc_geometry(c['pix'], c['pitch'], c['wl'], fov, fov_errinf=c['inf'], fov_errsup=c['sup'], fft_res=c['res'])
    if fint > fov * (1 + c['sup']):
        raises(run, 'field of view too large', ValueError)
        return 'trivial'
    g = run()
    k = g['fov_res']
    check(k >= 1 and k == int(k), 'integer oversampling', k)
    eff = fint * k
    check(eff >= fov * (1 - c['inf']) * (1 - 1e-9), 'field of view smaller than asked', eff, fov)
    check(k == 1 or fint * (k - 1) < fov * (1 - c['inf']), 'oversampling larger than needed', k)
    close(g['fp_masking'], min(1, fov / eff), rtol=1e-9, what='focal plane masking')
    n = c['pix'] * k
    check(g['fft_sampling'] == n, 'sampling', g['fft_sampling'])
    check(g['fft_totsize'] % 2 == 0 and abs(g['fft_totsize'] - n * c['res']) <= 1 + 1e-9, 'size of the FFT', g)
    close(g['fft_res'], g['fft_totsize'] / n, rtol=1e-9, what='FFT resolution')
    return f'k={min(k, 4)}'


@CHECK.family(st.fixed_dictionaries(dict(b0=sizes(1, 5), b1=sizes(1, 5), bs=sizes(1, 5), fill=st.sampled_from([0.1, 0.5, 0.9, 1.0]),
              r0=sizes(0, 4), r1=sizes(0, 4), seed=st.integers(0, 9999))), quick=500, thorough=8000, rule='some pixel is not valid')
def local_mean(c):
    rng = rng_of(c['seed'])
    h, w = c['b0'] * c['bs'], c['b1'] * c['bs']
    shape = (h + c['r0'] % c['bs'], w + c['r1'] % c['bs'])
    a = rng.normal(size=shape)
    m = rng.random(shape) < c['fill']
    m[0, 0] = True
    keep = a.copy()
    got = local_mean_rebin(a, m, np, block_size=c['bs'])
    same(a, keep, 'the input is changed')
    for i in range(c['b0']):
        for j in range(c['b1']):
            s = np.s_[i * c['bs']:(i + 1) * c['bs'], j * c['bs']:(j + 1) * c['bs']]
            v = a[s][m[s]].mean() if m[s].any() else a[m].mean()
            close(got[s], np.full((c['bs'],) * 2, v), rtol=1e-9, atol=1e-9, what='mean of the valid pixels of the block')
    return 'trivial' if m.all() else 'holes'


@CHECK.family(st.fixed_dictionaries(dict(n=sizes(4, 24), sx=sizes(-5, 5), sy=sizes(-5, 5), fx=st.floats(-1, 1), fy=st.floats(-1, 1),
              seed=st.integers(0, 9999))), quick=400, thorough=5000, rule='always')
def subpixel_shift(c):
    rng = rng_of(c['seed'])
    n = c['n']
    a = rng.normal(size=(n, n))
    p = make_subpixel_shift_phase((n, n), np, np.complex128, shift_x=c['sx'], shift_y=c['sy'])
    got = np.fft.ifft2(np.fft.fft2(a) * p)
    close(got.real, np.roll(a, (c['sy'], c['sx']), (0, 1)), rtol=1e-9, atol=1e-9, what='image shifted by whole pixels')
    # a wave that the grid resolves is shifted by any amount
    ky, kx = [int(v) for v in rng.integers(0, (n - 1) // 2 + 1, 2)]
    y, x = np.mgrid[:n, :n]
    w = lambda dy, dx: np.cos(2 * np.pi * (ky * (y - dy) + kx * (x - dx)) / n + 1)
    q = make_subpixel_shift_phase(n, np, np.complex128, shift_x=c['fx'], shift_y=c['fy'])
    got = np.fft.ifft2(np.fft.fft2(w(0, 0)) * q).real
    close(got, w(c['fy'], c['fx']), rtol=1e-9, atol=1e-8, what='wave shifted by a fraction of pixel')
    same(p.shape, (n, n))
    return 'shift'


@CHECK.family(st.fixed_dictionaries(dict(n=sizes(8, 40), petals=sizes(2, 7), off=st.sampled_from([0, 15.0, 30.0, 77.0]),
              obs=st.sampled_from([0.0, 0.3]), tilts=st.booleans(), own=st.booleans(), spider=st.booleans(), seed=st.integers(0, 9999))),
              quick=400, thorough=6000, rule='always')
def petals(c):
    rng = rng_of(c['seed'])
    n, P = c['n'], c['petals']
    own = None
    if c['own']:
        own = (rng.random((n, n)) < 0.8).astype(float)
        own[n // 2, n // 2] = 1
    ifs, mask, xy = compute_petal_ifunc(n, P, angle_offset=c['off'], obsratio=c['obs'], mask=own, add_tilts=c['tilts'],
                                        spider=c['spider'] and own is None, spider_width=1.5, dtype=np.float64)
    m = np.asarray(mask).astype(bool)
    if own is not None:
        same(m, own.astype(bool), 'the mask given')
    elif not c['spider']:
        same(m, make_mask(n, c['obs'], xp=np).astype(bool), 'mask')
    check(ifs.shape == (P * (3 if c['tilts'] else 1), m.sum()), 'shape', ifs.shape)
    check(set(np.unique(ifs[:P])) <= {0, 1}, 'pistons of 0 and 1')
    close(ifs[:P].sum(0), np.ones(m.sum()), rtol=1e-12, what='every pixel belongs to one petal')
    y, x = (v[m] for v in np.mgrid[:n, :n])
    th = (np.arctan2(y - n / 2, x - n / 2) - np.deg2rad(c['off'])) / (2 * np.pi / P)
    far = (abs(th - np.round(th)) > 1e-6) & (np.hypot(x - n / 2, y - n / 2) > 0)
    want = np.floor(th).astype(int) % P
    same(ifs[:P].argmax(0)[far], want[far], 'petal of each pixel')
    for k in range(P):
        w = ifs[k] > 0
        if w.sum() == 0:
            continue
        close(xy[:, k], [x[w].mean(), y[w].mean()], rtol=1e-9, what='centre of the petal')
        if c['tilts']:
            for row, v in ((P + k, x), (2 * P + k, y)):
                s = v[w].std()
                close(ifs[row][w], (v[w] - v[w].mean()) / (s or 1), rtol=1e-9, atol=1e-9, what='tilt of a petal')
                check((ifs[row][~w] == 0).all(), 'tilt outside its petal')
    return 'own' if c['own'] else 'annulus'


@CHECK.family(st.fixed_dictionaries(dict(n=sizes(1, 12), m=sizes(1, 12), seed=st.integers(0, 9999))), quick=300, thorough=4000,
              rule='more than one vector')
def linear_helpers(c):
    rng = rng_of(c['seed'])
    n, m = c['n'], c['m']
    a = rng.normal(size=(n, m))
    q = make_orto_modes(a, np, np.float64)
    # orthonormal along the long axis, and the same span
    rows = m > n
    B, A = (q, a) if rows else (q.T, a.T)
    close(B @ B.T, np.eye(len(B)), rtol=1e-8, atol=1e-8, what='orthonormal modes')
    close(A @ B.T @ B, A, rtol=1e-7, atol=1e-7, what='span of the modes')
    raises(lambda: make_orto_modes(np.zeros((2, 2, 2)), np, np.float64), 'a cube', ValueError)
    idx = rng.integers(0, n * m, 10)
    r, k = unravel_index_2d(idx, (n, m), np)
    same(np.asarray(r) * m + np.asarray(k), idx)
    check((np.asarray(k) < m).all() and (np.asarray(r) < n).all(), 'indices outside the array')
    return 'trivial' if min(n, m) == 1 else 'modes'


if __name__ == '__main__':
    CHECK.main()
