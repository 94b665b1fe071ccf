"""C07 - operations on data objects touch exactly the elements they name, and copies are independent."""
from vlib.drive import *
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.layer import Layer
from specula.data_objects.pupilstop import Pupilstop
from specula.data_objects.intensity import Intensity
from specula.data_objects.pixels import Pixels
from specula.data_objects.slopes import Slopes
from specula.data_objects.intmat import Intmat
from specula.data_objects.recmat import Recmat
from specula.data_objects.ifunc import IFunc
from specula.data_objects.m2c import M2C
from specula.data_objects.pupdata import PupData
from specula.data_objects.subap_data import SubapData
from specula.data_objects.spatio_temp_array import SpatioTempArray
from specula.data_objects.time_history import TimeHistory

CHECK = Check('C07', 'data objects', scale=3, assumptions=['slope vectors have an even number of elements', 'sub-apertures of a pyramid are listed in raster order, as the calibrators do', 'CPU only'])
T = 2e-5 if PREC == 1 else 1e-12
SEED = st.integers(0, 10**6)


# ------------------------------------------------------------------ interaction and reconstruction matrices
ops_st = st.lists(st.tuples(st.sampled_from(['nmodes', 'nslopes', 'less_modes', 'less_slopes', 'start', 'set_modes', 'set_slopes', 'value', 'bad']), st.integers(0, 9), st.integers(1, 9)), max_size=6)


@CHECK.family(st.fixed_dictionaries({'ns': st.integers(1, 8), 'nm': st.integers(1, 8), 'ops': ops_st, 'seed': SEED, 'zero': st.booleans()}), 400, 6000,
    rule='sequences of resizes, selections and assignments on interaction matrices, against array slicing', double=0.3)
def matrices(c):
    rng = rng_of(c['seed'])
    A = np.zeros((c['ns'], c['nm'])) if c['zero'] else rng.normal(size=(c['ns'], c['nm'])).astype(DT)
    im = Intmat(nmodes=c['nm'], nslopes=c['ns']) if c['zero'] else Intmat(A.copy())
    rm = Recmat(A.copy().T)
    R = A.T.copy()
    for op, a, b in c['ops']:
        ns, nm = A.shape
        if op == 'nmodes':
            im.set_nmodes(b)
            A = np.hstack([A[:, :b], np.zeros((ns, max(0, b - nm)))])
        elif op == 'nslopes':
            im.set_nslopes(b)
            A = np.vstack([A[:b], np.zeros((max(0, b - ns), nm))])
        elif op == 'less_modes':
            if a < nm:
                im.reduce_size(a)
                A = A[:, :nm - a]
            else:
                raises(lambda: im.reduce_size(a), 'discarding all the modes')
            if a < rm.nmodes:
                rm.reduce_size(a)
                R = R[:R.shape[0] - a]
            else:
                raises(lambda: rm.reduce_size(a), 'discarding all the modes of a reconstructor')
        elif op == 'less_slopes':
            if a < ns:
                im.reduce_slopes(a)
                A = A[:ns - a]
            else:
                raises(lambda: im.reduce_slopes(a), 'discarding all the slopes')
        elif op == 'start':
            if a < nm:
                im.set_start_mode(a)
                A = A[:, a:]
            else:
                raises(lambda: im.set_start_mode(a), 'start mode out of range')
        elif op == 'set_modes':
            i = a % nm
            v = rng.normal(size=ns).astype(DT)
            im.modes[i] = v
            A = A.copy()
            A[:, i] = v
            same(im.modes[i], v, 'mode read back')
        elif op == 'set_slopes':
            i = a % ns
            v = rng.normal(size=nm).astype(DT)
            im.slopes[i] = v
            A = A.copy()
            A[i] = v
            same(im.slopes[i], v, 'slope read back')
        elif op == 'value':
            v = rng.normal(size=A.shape).astype(DT)
            im.set_value(v)
            A = v.copy()
            v[:] = 0
        else:
            raises(lambda: im.set_value(np.zeros((ns + 1, nm))), 'value of another shape')
        check((im.nslopes, im.nmodes) == A.shape, f'after {op}: {im.nslopes} slopes, {im.nmodes} modes, expected {A.shape}')
        same(im.intmat, A, f'matrix after {op}')
        same(rm.recmat, R, f'reconstructor after {op}')
        check(rm.nmodes == R.shape[0], 'number of modes of the reconstructor')
    if np.linalg.matrix_rank(A) == min(A.shape) and np.linalg.cond(A) < 1e3:
        n = 1 + c['seed'] % A.shape[1]
        close(im.generate_rec(n).recmat, np.linalg.pinv(np.asarray(A[:, :n], dtype=float)), 1e3 * T, what='reconstructor of the first modes')
        same(im.intmat, A, 'matrix after inversion')
    return f"ops{len(c['ops'])}"


@CHECK.family(st.fixed_dictionaries({'ns': st.integers(1, 6), 'nm': st.integers(1, 5), 'rep': st.integers(1, 4), 'seed': SEED}), 100, 2000,
    rule='interaction matrices built from slopes and disturbances (any order, signs and repetitions of the modes) recover the linear response', double=0.3)
def from_slopes(c):
    rng = rng_of(c['seed'])
    A = rng.normal(size=(c['ns'], c['nm']))
    seq = [int(i) for i in rng.integers(0, c['nm'], c['rep'] * c['nm'])]
    sl, di = {}, {}
    for k, m in enumerate(seq):
        d = np.zeros(c['nm'])
        d[m] = rng.choice([-1, 1]) * rng.uniform(1, 50)
        di[k * 1000], sl[k * 1000] = d.astype(DT), (A @ d).astype(DT)
    im = Intmat.build_from_slopes(sl, di)
    want = A.copy()
    want[:, [m for m in range(c['nm']) if m not in seq]] = 0
    close(im.intmat, want, T, what='response of each mode')
    return ''


# ------------------------------------------------------------------ slopes
@CHECK.family(st.fixed_dictionaries({'n': st.integers(1, 12), 'inter': st.booleans(), 'seed': SEED, 'from_values': st.booleans(),
                                     'ops': st.lists(st.sampled_from(['x', 'y', 'sum', 'sub', 'subv', 'rot', 'resize', 'set', 'remap']), max_size=6)}), 400, 6000,
    rule='sequences of operations on slope vectors (interleaved or not): components, arithmetic, rotations, resizes, maps on a frame', double=0.3)
def slopes(c):
    rng = rng_of(c['seed'])
    n = c['n']
    S = rng.normal(size=2 * n).astype(DT)
    if c['from_values']:
        o = Slopes(slopes=S.copy(), interleave=c['inter'])
    else:
        o = Slopes(2 * n, interleave=c['inter'])
        same(o.slopes, np.zeros(2 * n), 'new slopes')
        o.set_value(S.copy())
    X = lambda: S[0::2] if c['inter'] else S[:len(S) // 2]      # views
    Y = lambda: S[1::2] if c['inter'] else S[len(S) // 2:]
    for op in c['ops']:
        n = len(S) // 2
        v = rng.normal(size=n).astype(DT)
        w = rng.normal(size=2 * n).astype(DT)
        S = S.copy()
        if op == 'x':
            o.xslopes = v
            X()[:] = v
        elif op == 'y':
            o.yslopes = v
            Y()[:] = v
        elif op == 'sum':
            f = float(rng.choice([-1, 0.5, 2]))
            s2 = Slopes(slopes=w.copy())
            o.sum(s2, f)
            S = S + w * DT(f)
            same(s2.slopes, w, 'other operand of sum')
        elif op == 'sub':
            s2 = Slopes(slopes=w.copy())
            o.subtract(s2)
            S = S - w
            same(s2.slopes, w, 'other operand of subtract')
        elif op == 'subv':
            o.subtract(BaseValue(value=w.copy()))
            S = S - w
        elif op == 'rot':
            ang, fx, fy = float(rng.uniform(-180, 180)), bool(rng.random() < 0.5), bool(rng.random() < 0.5)
            o.rotate(ang, fx, fy)
            a = np.radians(ang)
            x, y = X().astype(float), Y().astype(float)
            X()[:] = (np.cos(a) * x - np.sin(a) * y) * (-1 if fx else 1)
            Y()[:] = (np.sin(a) * x + np.cos(a) * y) * (-1 if fy else 1)
        elif op == 'resize':
            m = int(rng.integers(1, 9))
            o.resize(2 * m)
            S = np.zeros(2 * m, dtype=DT)
        elif op == 'set':
            o.set_value(w.copy())
            S = w
        else:
            d = int(np.ceil(np.sqrt(2 * n))) + 1
            idx = np.sort(rng.choice(d * (d + 1), n, replace=False))
            o.single_mask = np.zeros((d, d + 1), dtype=DT)
            o.display_map = idx
            got = arr(o.get2d())
            want = np.zeros((2, d * (d + 1)))
            want[0, idx], want[1, idx] = X(), Y()
            close(got, want.reshape(2, d, d + 1), T, T, what='map of the slopes')
            fx = np.zeros((d, d + 1))
            o.x_remap2d(fx, np.array(np.unravel_index(idx, (d, d + 1))))
            close(fx, want[0].reshape(d, d + 1), T, T, what='map of the x slopes')
            o.y_remap2d(fx, np.array(np.unravel_index(idx, (d, d + 1))))
            close(fx, want[1].reshape(d, d + 1), T, T, what='map of the y slopes')
        check(o.size == len(S), f'size {o.size} after {op}')
        close(o.slopes, S, T, T, what=f'slopes after {op}')
        close(o.xslopes, X(), T, T, what=f'x slopes after {op}')
        close(o.yslopes, Y(), T, T, what=f'y slopes after {op}')
        S = arr(o.slopes).copy()
    return f"ops{len(c['ops'])}"


# ------------------------------------------------------------------ electric fields
@CHECK.family(st.fixed_dictionaries({'nx': st.integers(1, 9), 'ny': st.integers(1, 9), 'seed': SEED, 'pitch': st.sampled_from([0.05, 0.1, 1.0]), 'wl': st.floats(300, 5000),
                                     'ops': st.lists(st.sampled_from(['A', 'phase', 'set', 'product', 'reset', 'resize', 'lambda', 'slice', 'compare', 'other', 'part', 'bad']), max_size=6)}), 400, 6000,
    rule='sequences of operations on fields: amplitudes and phases, products with an offset, complex amplitude at a wavelength, areas, comparisons', double=0.4)
def fields(c):
    rng = rng_of(c['seed'])
    nx, ny, wl = c['nx'], c['ny'], c['wl']
    e = ElectricField(nx, ny, c['pitch'])
    A, P = np.ones((ny, nx)), np.zeros((ny, nx))
    for op in c['ops']:
        a, p = rng.random((ny, nx)).astype(DT), (rng.normal(size=(ny, nx)) * 200).astype(DT)
        if op == 'A':
            e.A = a.copy()
            A = a
        elif op == 'phase':
            e.phaseInNm = p.copy()
            P = p
        elif op == 'set':
            v = np.stack([a, p])
            e.set_value(v)
            v[:] = -1
            A, P = a, p
        elif op == 'product':
            oy, ox = int(rng.integers(0, 4)), int(rng.integers(0, 4))
            big = ElectricField(nx + ox + 1, ny + oy + 2, c['pitch'])
            b, q = rng.random(big.size).astype(DT), (rng.normal(size=big.size) * 200).astype(DT)
            big.A, big.phaseInNm = b, q
            e.product(big, subrect=[oy, ox])
            A, P = A * b[oy:oy + ny, ox:ox + nx], P + q[oy:oy + ny, ox:ox + nx]
            same(big.field, np.stack([b, q]), 'second operand of the product')
        elif op == 'reset':
            e.reset()
            A, P = np.ones((ny, nx)), np.zeros((ny, nx))
        elif op == 'resize':
            nx, ny = int(rng.integers(1, 9)), int(rng.integers(1, 9))
            pitch = None if rng.random() < 0.5 else 0.7
            e.resize(nx, ny, pitch)
            check(e.pixel_pitch == (c['pitch'] if pitch is None else pitch) or pitch is None, 'pixel pitch after resize')
            A, P = np.ones((ny, nx)), np.zeros((ny, nx))
        elif op in ('lambda', 'slice'):
            sy, sx = (slice(None), slice(None)) if op == 'lambda' else (slice(int(rng.integers(0, ny)), None), slice(None, int(rng.integers(1, nx + 1))))
            kw = {} if op == 'lambda' else {'slicey': sy, 'slicex': sx}
            t = T * (1 + np.abs(P).max() / 300)
            w = A[sy, sx] * np.exp(2j * np.pi * P[sy, sx].astype(float) / wl)
            close(e.phi_at_lambda(wl, **kw), 2 * np.pi * P[sy, sx] / wl, T, T, what='phase in radians')
            z = e.ef_at_lambda(wl, **kw)
            close(z, w, 4 * t, 4 * t, what='complex amplitude', scale=1)
            check(arr(z).dtype == CDT, f'complex amplitude of type {arr(z).dtype}')
            out = np.zeros(w.shape, dtype=CDT)
            e.ef_at_lambda(wl, out=out, **kw)
            close(out, w, 4 * t, 4 * t, what='complex amplitude in a given array', scale=1)
            if op == 'lambda':
                close(e.square_modulus(wl), A**2, T, T, what='square modulus')
        elif op == 'compare':
            other = ElectricField(nx, ny, 0.3)
            other.field[:] = e.field
            check(not e.compare(other), 'two equal fields compare as different')
            other.field[int(rng.integers(0, 2)), int(rng.integers(0, ny)), int(rng.integers(0, nx))] += 1
            check(e.compare(other), 'two different fields compare as equal')
        elif op == 'part':
            i, j = sorted(int(v) for v in rng.choice(ny + 1, 2, replace=False))     # 'x' is the first index here
            k, m = sorted(int(v) for v in rng.choice(nx + 1, 2, replace=False))
            e.S0 = float(rng.uniform(1, 9))
            part = e.sub_ef(xfrom=i, xto=j, yfrom=k, yto=m)
            close(part.A, A[i:j, k:m], T, T, what='amplitude of a part')
            close(part.phaseInNm, P[i:j, k:m], T, T, what='phase of a part', scale=1e3)
            check(part.pixel_pitch == e.pixel_pitch and part.S0 == e.S0, 'pitch or flux of a part')
            part.A[:] = 7
        elif op == 'other':
            oy, ox = int(rng.integers(0, ny)), int(rng.integers(0, nx))
            check(list(e.checkOther(ElectricField(nx - ox, ny - oy, 0.1), [oy, ox])) == [oy, ox], 'subrect')
            raises(lambda: e.checkOther(ElectricField(nx - ox + 1, ny - oy, 0.1), [oy, ox]), 'a field of another size')
            raises(lambda: e.checkOther(ElectricField(nx - ox, ny - oy + 1, 0.1), [oy, ox]), 'a field of another size')
        else:
            raises(lambda: e.set_value(np.zeros((2, ny + 1, nx))), 'value of another shape')
        close(e.A, A, T, T, what=f'amplitude after {op}', scale=1)
        close(e.phaseInNm, P, T, T, what=f'phase after {op}', scale=1e3)
        same(e.field, np.stack([arr(e.A), arr(e.phaseInNm)]), 'field')
        check(e.size == (ny, nx), f'size {e.size}')
        close(e.area(), nx * ny * e.pixel_pitch**2, T, what='area')
        close(e.masked_area(), A.astype(float).sum() * e.pixel_pitch**2, T, what='masked area', scale=nx * ny)
    return f"ops{len(c['ops'])}"


# ------------------------------------------------------------------ copies
def some_object(kind, rng, n, m):
    f = lambda *s: rng.normal(size=s).astype(DT)
    if kind in ('ef', 'layer', 'stop'):
        o = {'ef': lambda: ElectricField(n, m, 0.1), 'layer': lambda: Layer(n, m, 0.1, 100.0), 'stop': lambda: Pupilstop(SimulParams(n, 0.1), input_mask=np.ones((n, n)))}[kind]()
        o.field[:] = f(*o.field.shape)
        return o
    if kind == 'int':
        o = Intensity(n, m)
    elif kind == 'pix':
        o = Pixels(n, m)
    elif kind == 'slopes':
        o = Slopes(2 * n)
    elif kind == 'im':
        return Intmat(f(n, m))
    elif kind == 'rec':
        return Recmat(f(n, m))
    elif kind == 'm2c':
        return M2C(f(n, m))
    elif kind == 'ifunc':
        return IFunc(f(n, m * m), mask=np.ones((m, m), dtype=DT))
    elif kind == 'th':
        return TimeHistory(f(n, m))
    elif kind == 'sta':
        return SpatioTempArray(f(n, m), np.arange(n).astype(DT), time_axis=0)
    else:
        return BaseValue(value=f(n))
    o.set_value(f(*o.get_value().shape))
    return o


KINDS = ['ef', 'layer', 'stop', 'int', 'pix', 'slopes', 'im', 'rec', 'm2c', 'ifunc', 'th', 'sta', 'value']


@CHECK.family(st.fixed_dictionaries({'kind': st.sampled_from(KINDS), 'n': st.integers(1, 6), 'm': st.integers(1, 6), 'force': st.booleans(), 'seed': SEED}), 300, 4000,
    rule='transfers between objects of each type: equal afterwards (times too), and independent; set_value copies', double=0.3)
def copies(c):
    rng = rng_of(c['seed'])
    a, b = (some_object(c['kind'], rng, c['n'], c['m']) for _ in range(2))
    a.generation_time = int(rng.integers(0, 10**12))
    hold = b.get_value()
    va = np.array(a.get_value())
    a.transferDataTo(b, force_reallocation=c['force'])
    same(b.get_value(), va, 'value transferred')
    check(b.generation_time == a.generation_time, 'generation time transferred')
    if not c['force']:
        same(hold, va, 'array of the destination, which must not be reallocated')
    b.get_value()[...] = 5
    same(a.get_value(), va, 'source after changing the copy')
    a.get_value()[...] = 7
    check(np.all(arr(b.get_value()) == 5), 'the copy changed with the source')
    v = rng.normal(size=va.shape).astype(DT)
    w = v.copy()
    (a.set_value if c['kind'] != 'value' or rng.random() < 0.5 else BaseValue.set_value.__get__(a))(w)
    w[...] = 3
    same(a.get_value(), v, 'value after changing the array it was set from')
    check(a.copyTo(-1) is a, 'copy on the same device')
    if c['kind'] not in ('value',):
        raises(lambda: a.set_value(np.zeros(tuple(s + 2 for s in va.shape))), 'a value of another shape')
    return c['kind']


# ------------------------------------------------------------------ sub-aperture descriptions
@CHECK.family(st.fixed_dictionaries({'h': st.integers(1, 7), 'w': st.integers(1, 7), 'nx': st.integers(1, 6), 'np': st.integers(1, 4), 'ints': st.booleans(), 'seed': SEED}), 150, 2500,
    rule='pyramid and Shack-Hartmann sub-aperture descriptions: masks, maps and indices agree, and slopes drawn on the maps land in their own place', double=0.2)
def subapertures(c):
    rng = rng_of(c['seed'])
    h, w = c['h'], c['w']
    m = rng.random((h, w)) < 0.6
    assume(m.any())
    y, x = np.nonzero(m)
    W = 2 * w
    quad = [(0, w), (0, 0), (h, 0), (h, w)]                 # the first pupil is in the quadrant of single_mask
    ind = np.stack([(y + oy) * W + x + ox for oy, ox in quad], axis=1)
    pd = PupData(ind_pup=ind.copy(), framesize=[2 * h, W])
    check(pd.n_subap == len(y) and pd.n_pupils == 4, f'{pd.n_subap} sub-apertures, {pd.n_pupils} pupils')
    same(pd.single_mask(), m.astype(DT), 'mask of one pupil')
    full = np.zeros((2 * h, W))
    for oy, ox in quad:
        full[oy:oy + h, ox:ox + w] = m
    same(pd.complete_mask(), full, 'mask of the pupils')
    for k in range(4):
        same(pd.pupil_idx(k), ind[:, k], 'indices of a pupil')
    z = arr(pd.zcorrection(pd.ind_pup))
    same(z, ind[:, [0, 1, 3, 2]], 'indices with the last two pupils exchanged')
    same(pd.ind_pup, ind, 'indices after zcorrection')
    v = rng.normal(size=2 * len(y)).astype(DT)
    s = Slopes(slopes=v.copy())
    s.single_mask, s.display_map = pd.single_mask(), pd.display_map
    want = np.zeros((2, h, w))
    want[0][m], want[1][m] = v[:len(y)], v[len(y):]
    same(s.get2d(), want, 'slopes on the pupil')
    pd.set_slopes_from_intensity()
    same(pd.display_map, np.concatenate([ind[:, k] for k in range(4)]), 'map of all the pixels')
    n, p = c['nx'], c['np']
    sel = np.sort(rng.choice(n * n, int(rng.integers(1, n * n + 1)), replace=False))
    base = (np.arange(p)[:, None] * n * p + np.arange(p)).ravel()
    idxs = np.array([(i // n) * p * n * p + (i % n) * p + base for i in sel])
    sa = SubapData(idxs.copy(), sel.copy(), n, n)
    check(sa.n_subaps == len(sel) and sa.np_sub == p, f'{sa.n_subaps} sub-apertures of {sa.np_sub} pixels')
    mk = np.zeros(n * n)
    mk[sel] = 1
    same(sa.single_mask(), mk.reshape(n, n), 'mask of the sub-apertures')
    k = int(rng.integers(0, len(sel)))
    same(sa.subap_idx(k), idxs[k], 'pixels of a sub-aperture')
    check(int(sa.display_map_idx(k)) == sel[k], 'position of a sub-aperture')
    return ''


@CHECK.family(st.fixed_dictionaries({'kind': st.sampled_from(['none', 'scalar', 'array']), 'seed': SEED, 'n': st.integers(1, 5), 'reps': st.integers(1, 4)}), 60, 600,
    rule='generic values: constructor and set_value copy, keep type and precision, whatever the initial value', double=0.3)
def values(c):
    rng = rng_of(c['seed'])
    v0 = {'none': None, 'scalar': 2.5, 'array': rng.normal(size=c['n'])}[c['kind']]
    b = BaseValue(value=v0)
    if c['kind'] == 'array':
        check(arr(b.value).dtype == DT, f'value of type {arr(b.value).dtype}')
        w = v0.copy()
        v0[:] = 0
        close(b.value, w, T, what='value after changing the array given')
    for _ in range(c['reps']):
        v = float(rng.normal()) if c['kind'] == 'scalar' else rng.normal(size=c['n'])
        w = np.array(v)
        b.set_value(v)
        if np.ndim(v):
            v[:] = 0
        close(b.get_value(), w, T, what='value set')
        check(arr(b.value).dtype == DT, f'value of type {arr(b.value).dtype}')
    return c['kind']
