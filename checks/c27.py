"""C27: displays and monitors show the data of each step."""
import contextlib, io, re, warnings
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from vlib.drive import *
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.intensity import Intensity
from specula.data_objects.pixels import Pixels
from specula.data_objects.pupdata import PupData
from specula.data_objects.simul_params import SimulParams
from specula.data_objects.slopes import Slopes
from specula.data_objects.subap_data import SubapData
from specula.display.data_plotter import DataPlotter
from specula.display.double_phase_display import DoublePhaseDisplay
from specula.display.modes_display import ModesDisplay
from specula.display.phase_display import PhaseDisplay
from specula.display.pixels_display import PixelsDisplay
from specula.display.pixels_pup_display import PixelsPupDisplay
from specula.display.plot_display import PlotDisplay
from specula.display.plot_vector_display import PlotVectorDisplay
from specula.display.psf_display import PsfDisplay
from specula.display.slopec_display import SlopecDisplay
from specula.processing_objects.data_print import DataPrint
from specula.processing_objects.power_loss import PowerLoss
from specula.processing_objects.spot_monitor import SpotMonitor
from checks.c19 import pupil, phase, ef_feed
from checks.c17 import subaps

CHECK = Check('C27', 'Displays and monitors show the data of each step', assumptions=[
    'Matplotlib with the Agg backend: what the figure holds is checked, not the pixels of the window',
    'finite data; no display server (it needs a browser)'])
warnings.filterwarnings('ignore', category=UserWarning)
hseed = st.integers(0, 2**31)
RT = 2e-5 if PREC == 1 else 1e-9


def show(disp, feeds, steps, look, dt=0.001, first=0):
    """Run a display and look(k, axes of the figure) after each step from the first on."""
    try:
        def after(k, t):
            if k < first:
                return
            ax = disp.fig.axes[0]
            for tx in ax.texts:
                check('rror' not in tx.get_text() and 'No ' not in tx.get_text(), f'step {k}: the display shows "{tx.get_text()}"')
            look(k, ax)
        loop = LoopControl()
        for name, f in feeds.items():
            for o, s in (f if isinstance(f, list) else [f]):
                loop.add(Feed(o, s), 0)
            disp.inputs[name].set([o for o, _ in f] if isinstance(f, list) else f[0])
        loop.add(disp, 1)
        loop.add(Look(after), 2)
        loop.run(run_time=steps * dt, dt=dt)
    finally:
        plt.close('all')


def shown(k, ax, want, what, rt=RT, clim=True):
    check(len(ax.images) == 1, f'step {k}: {len(ax.images)} images in the axes')
    got = np.ma.filled(np.ma.asarray(ax.images[0].get_array(), float), np.nan)
    close(got, want, rtol=rt, atol=rt * np.abs(want).max(), what=f'step {k}: {what}')
    if clim and np.ptp(want) > 0:    # matplotlib widens the scale of a constant image
        lo, hi = ax.images[0].get_clim()
        close([lo, hi], [want.min(), want.max()], rtol=rt, atol=2 * rt * np.abs(want).max(), what=f'step {k}: colour scale of the {what}')


@CHECK.family(st.fixed_dictionaries({'n': st.integers(3, 16), 'kind': st.sampled_from(['full', 'disc', 'gray', 'holes']), 'steps': st.integers(1, 4), 'seed': hseed}),
              quick=40, thorough=1500, rule='always', double=0.3)
def phases(c):
    rng = rng_of(c['seed'])
    A = [pupil(rng, c['n'], c['kind']) for _ in range(c['steps'])]
    P = [phase(rng, c['n'], True) + rng.normal() * 300 for _ in range(c['steps'])]

    def look(k, ax):
        m = A[k] > 0
        shown(k, ax, np.where(m, P[k] - P[k][m].mean(), 0), 'phase', rt=max(RT, 1e-5))
    show(PhaseDisplay(), {'phase': ef_feed(A, P, 0.1, 1.)}, c['steps'], look)
    return c['kind']


@CHECK.family(st.fixed_dictionaries({'n': st.integers(2, 20), 'log': st.booleans(), 'p2v': st.sampled_from([0., 10., 1e4]), 'steps': st.integers(1, 4), 'seed': hseed}),
              quick=40, thorough=1500, rule='always', double=0.3)
def psfs(c):
    rng = rng_of(c['seed'])
    X = [np.asarray(10 ** rng.uniform(-7, 3, (c['n'], c['n'])), DT).astype(float) for _ in range(c['steps'])]

    def look(k, ax):
        w = X[k]
        if c['p2v']:
            w = np.maximum(w, w.max() / c['p2v'])
        if c['log']:
            lo, hi = ax.images[0].norm.vmin, ax.images[0].norm.vmax
            check(0 < lo < hi and abs(hi / w.max() - 1) < 1e-4, f'step {k}: limits {lo}, {hi} of the logarithmic scale')
            w = np.clip(w, lo, hi)
        shown(k, ax, w, 'PSF', clim=not c['log'])
    show(PsfDisplay(log_scale=c['log'], image_p2v=c['p2v']), {'psf': value_feed(X)}, c['steps'], look)
    return f"{c['log']} {c['p2v']}"


def pix_feed(X, cls=Pixels):
    o = Pixels(X[0].shape[1], X[0].shape[0])

    def script(k, o):
        o.pixels = np.asarray(X[k], dtype=o.dtype)
        return True
    return o, script


def cropping(rng, mode, h, w):
    """A crop of an h x w frame and the slices it stands for."""
    if mode == 'slice':
        x0, y0 = int(rng.integers(0, w - 1)), int(rng.integers(0, h - 1))
        x1, y1 = int(rng.integers(x0 + 1, w + 1)), int(rng.integers(y0 + 1, h + 1))
        neg = lambda v, n: v - n if 0 < v < n and rng.random() < 0.4 else v
        return (neg(x0, w), neg(x1, w), neg(y0, h), neg(y1, h)), np.s_[y0:y1, x0:x1]
    if mode == 'center':
        cx, cy = int(rng.integers(0, w)), int(rng.integers(0, h))
        a, b = int(rng.integers(1, w)), int(rng.integers(1, h))
        return (cx, cy, a, b), np.s_[max(0, cy - b):cy + b, max(0, cx - a):cx + a]
    return None, np.s_[:, :]


@CHECK.family(st.fixed_dictionaries({'h': st.integers(4, 16), 'w': st.integers(4, 16), 'log': st.booleans(), 'crop': st.sampled_from([None, 'slice', 'center']),
                                     'steps': st.integers(1, 4), 'pup': st.booleans(), 'npup': st.integers(1, 4), 'seed': hseed}),
              quick=80, thorough=3000, rule='always', double=0.3)
def frames(c):
    """Detector frames, whole or cropped, alone or with the pupils drawn over them."""
    rng = rng_of(c['seed'])
    h, w = c['h'], c['w']
    X = [np.floor(rng.uniform(1, 1000, (h, w)) * 10 ** rng.uniform(-1, 1)) for _ in range(c['steps'])]
    crop, sl = cropping(rng, c['crop'], h, w)
    kw = dict(log_scale=c['log'], crop=crop, crop_mode=c['crop'] or 'slice')
    org = [sl[1].start or 0, sl[0].start or 0]
    feeds = {}
    if c['pup']:
        ox, oy, r = rng.uniform(0, w, (c['steps'], c['npup'])), rng.uniform(0, h, (c['steps'], c['npup'])), rng.uniform(1, 5, (c['steps'], c['npup']))
        pd = PupData(np.zeros((1, c['npup']), int), radius=r[0].copy(), cx=ox[0].copy(), cy=oy[0].copy(), framesize=[h, w])

        def script(k, o):
            o.radius[:], o.cx[:], o.cy[:] = r[k], ox[k], oy[k]
            return True
        feeds = {'in_pupdata': (pd, script), 'in_pixels': pix_feed(X)}
        d = PixelsPupDisplay(**kw)
    else:
        feeds = {'pixels': pix_feed(X)}
        d = PixelsDisplay(**kw)

    def look(k, ax):
        want = X[k][sl]
        if c['log']:
            lo, hi = ax.images[0].norm.vmin, ax.images[0].norm.vmax
            check(0 < lo < hi and abs(hi / want.max() - 1) < 1e-4, f'step {k}: limits {lo}, {hi} of the logarithmic scale')
            want = np.clip(want, lo, hi)
        shown(k, ax, want, 'frame', clim=not c['log'])
        if c['pup']:
            cs = [p for p in ax.patches if isinstance(p, plt.Circle)]
            check(len(cs) == c['npup'], f'step {k}: {len(cs)} circles for {c["npup"]} pupils')
            for i, p in enumerate(cs):
                close([*p.center, p.radius], [ox[k, i] - org[0], oy[k, i] - org[1], r[k, i]], rtol=1e-5, atol=1e-5, what=f'step {k}: circle of pupil {i}')
    show(d, feeds, c['steps'], look)
    return ('pup ' if c['pup'] else '') + str(c['crop'])


@CHECK.family(st.fixed_dictionaries({'h': st.integers(4, 16), 'w': st.integers(4, 16), 'log': st.booleans(),
                                     'ops': st.lists(st.sampled_from([None, 'slice', 'center', 'keep', 'clear']), min_size=1, max_size=5), 'seed': hseed}),
              quick=40, thorough=1500, rule='the crop changes', double=0.3)
def moved_crop(c):
    """set_crop and clear_crop between the steps: each step shows the region asked for last."""
    rng = rng_of(c['seed'])
    h, w = c['h'], c['w']
    X = [np.floor(rng.uniform(1, 1000, (h, w))) for _ in range(len(c['ops']) + 1)]
    d = PixelsDisplay(log_scale=c['log'])
    sl = np.s_[:, :]

    def look(k, ax):
        nonlocal sl
        want = X[k][sl]
        if c['log']:
            lo, hi = ax.images[0].norm.vmin, ax.images[0].norm.vmax
            want = np.clip(want, lo, hi)
        shown(k, ax, want, 'frame', clim=not c['log'])
        if k < len(c['ops']):
            op = c['ops'][k]
            if op == 'clear':
                d.clear_crop()
                sl = np.s_[:, :]
            elif op != 'keep':
                crop, sl = cropping(rng, op, h, w)
                d.set_crop(crop, op or 'slice')
    show(d, {'pixels': pix_feed(X)}, len(X), look)
    return 'trivial' if not {'slice', 'center'} & set(c['ops']) else 'changed'


@CHECK.family(st.fixed_dictionaries({'ny': st.integers(1, 4), 'nx': st.integers(1, 4), 'half': st.integers(1, 3), 'steps': st.integers(1, 3), 'seed': hseed}),
              quick=30, thorough=1000, rule='more than one subaperture', double=0.3)
def as_pyramid(c):
    """A Shack-Hartmann frame shown as the four quadrants of its subapertures."""
    rng = rng_of(c['seed'])
    ny = nx = c['ny']
    npx = 2 * c['half']
    n = int(rng.integers(1, ny * nx + 1))
    ids, m = subaps(rng, npx, ny, nx, n, True)[1:]
    sd = SubapData(ids, m, ny, nx)
    X = [np.floor(rng.uniform(1, 1000, (ny * npx, nx * npx))) for _ in range(c['steps'])]
    hs = c['half']

    def look(k, ax):
        q = [np.zeros((ny, nx)) for _ in range(4)]
        for i in range(n):
            s = X[k].flat[np.asarray(ids[i])].reshape(npx, npx)
            for j, part in enumerate((s[:hs, :hs], s[:hs, hs:], s[hs:, :hs], s[hs:, hs:])):
                q[j].flat[m[i]] = part.sum()
        shown(k, ax, np.block([[q[0], q[1]], [q[2], q[3]]]), 'frame as a pyramid', clim=False)
    show(PixelsDisplay(sh_as_pyr=True, subapdata=sd), {'pixels': pix_feed(X)}, c['steps'], look)
    return 'trivial' if n == 1 else 'many'


@CHECK.family(st.fixed_dictionaries({'n': st.integers(2, 8), 'inter': st.booleans(), 'steps': st.integers(1, 4), 'seed': hseed}),
              quick=40, thorough=1500, rule='always', double=0.3)
def slopes(c):
    rng = rng_of(c['seed'])
    n = c['n']
    m = np.sort(rng.choice(n * n, int(rng.integers(1, n * n + 1)), replace=False))
    X = [rng.normal(size=2 * len(m)) for _ in range(c['steps'])]
    s = Slopes(2 * len(m), interleave=c['inter'])
    s.display_map = m
    s.single_mask = np.zeros((n, n), DT)

    def script(k, o):
        o.slopes = np.asarray(X[k], DT)
        return True

    def look(k, ax):
        x, y = (X[k][::2], X[k][1::2]) if c['inter'] else np.split(X[k], 2)
        w = np.zeros((n, 2 * n))
        w[m // n, m % n], w[m // n, n + m % n] = x, y
        shown(k, ax, w, 'slopes')
    show(SlopecDisplay(), {'slopes': (s, script)}, c['steps'], look)
    return str(c['inter'])


def lines(ax, n):
    ls = [l for l in ax.lines if l.get_marker() == '.']
    check(len(ls) == n, f'{len(ls)} lines in the plot, expected {n}')
    return ls


@CHECK.family(st.fixed_dictionaries({'n': st.integers(2, 12), 'xr': st.booleans(), 'yr': st.sampled_from(['default', 'auto', 'given']), 'steps': st.integers(1, 4), 'seed': hseed}),
              quick=40, thorough=1500, rule='always', double=0.3)
def modes(c):
    rng = rng_of(c['seed'])
    X = [rng.normal(size=c['n']) * 100 for _ in range(c['steps'])]
    kw = dict(xrange=(1, 5)) if c['xr'] else {}
    kw.update({'auto': dict(yrange=(0, 0)), 'given': dict(yrange=(-3., 7.))}.get(c['yr'], {}))

    def look(k, ax):
        l, = lines(ax, 1)
        close(l.get_xdata(), np.arange(c['n']), what=f'step {k}: mode index')
        close(l.get_ydata(), X[k], rtol=RT, what=f'step {k}: mode values')
        if c['xr']:
            close(ax.get_xlim(), [1, 5], what=f'step {k}: requested x range')
        else:
            check(ax.get_xlim()[0] <= 0 and ax.get_xlim()[1] >= c['n'] - 1, f'step {k}: modes beyond the x range')
        if c['yr'] == 'given':
            close(ax.get_ylim(), [-3, 7], what=f'step {k}: requested y range')
    show(ModesDisplay(**kw), {'modes': value_feed(X)}, c['steps'], look)
    return c['yr']


@CHECK.family(st.fixed_dictionaries({'n': st.integers(1, 4), 'hist': st.integers(2, 6), 'steps': st.integers(1, 14), 'axis': st.sampled_from(['time', 'iteration']),
                                     'aslist': st.booleans(), 'shape': st.sampled_from(['scalar', 'one']), 'labels': st.integers(0, 3), 'yr': st.booleans(),
                                     'late': st.booleans(), 'seed': hseed}),
              quick=80, thorough=3000, rule='the history is longer than the plot', double=0.3)
def histories(c):
    rng = rng_of(c['seed'])
    n = c['n'] if c['aslist'] else 1
    S = c['steps']
    X = [[(rng.normal() if c['shape'] == 'scalar' else rng.normal(size=1)) for _ in range(S)] for _ in range(n)]
    first = 2 if c['late'] and S > 3 else 0
    feeds = [value_feed([None] * first + x[first:]) for x in X]
    kw = {}
    if c['labels']:
        kw['labels'] = [f'signal {i}' for i in range(c['labels'])]
    if c['yr']:
        kw['yrange'] = (-2., 5.)

    def look(k, ax):
        ks = np.arange(max(first, k - c['hist'] + 1), k + 1)
        ls = lines(ax, n)
        for i, l in enumerate(ls):
            t = ks * 0.001 if c['axis'] == 'time' else ks - first + 1
            close(l.get_xdata(), t, rtol=1e-6, atol=1e-9, what=f'step {k}: abscissa of line {i}')
            close(l.get_ydata(), [float(np.ravel(X[i][j])[0]) for j in ks], rtol=RT, what=f'step {k}: history of value {i}')
            if n > 1 and kw.get('labels') and i < c['labels']:
                same(l.get_label(), f'signal {i}', f'label of line {i}')
        if c['yr']:
            close(ax.get_ylim(), [-2, 5], what=f'step {k}: requested y range')
    d = PlotDisplay(histlen=c['hist'], x_axis=c['axis'], **kw)
    show(d, {'value_list': feeds} if c['aslist'] else {'value': feeds[0]}, S, look, first=first)
    return 'trivial' if S <= c['hist'] else ('list' if c['aslist'] else 'one')


@CHECK.family(st.fixed_dictionaries({'n': st.integers(1, 9), 'hist': st.integers(2, 6), 'steps': st.integers(1, 12), 'axis': st.sampled_from(['time', 'iteration']),
                                     'sel': st.sampled_from(['all', 'indices', 'slice', 'one']), 'maxel': st.sampled_from([None, 2, 20]), 'labels': st.booleans(),
                                     'yr': st.booleans(), 'seed': hseed}),
              quick=80, thorough=3000, rule='the history is longer than the plot', double=0.3)
def vectors(c):
    rng = rng_of(c['seed'])
    n, S = c['n'], c['steps']
    X = [rng.normal(size=n) for _ in range(S)]
    kw, idx = {}, list(range(n))
    if c['sel'] == 'indices':
        idx = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
        kw['indices'] = idx
    elif c['sel'] == 'one':
        idx = [n - 1]
        kw['indices'] = n - 1
    elif c['sel'] == 'slice':
        a, b, s = int(rng.integers(0, n)), int(rng.integers(1, n + 3)), int(rng.integers(1, 3))
        idx = list(range(n))[a:a + b:s]
        kw['slice_args'] = (a, a + b, s)
    if c['maxel'] is not None:
        idx = idx[:c['maxel']]
    if c['labels']:
        kw['legend_labels'] = [f'signal {i}' for i in range(len(idx))]
    if c['yr']:
        kw['yrange'] = (-2., 5.)

    def look(k, ax):
        ks = np.arange(max(0, k - c['hist'] + 1), k + 1)
        for l, i, p in zip(lines(ax, len(idx)), idx, range(n)):
            close(l.get_xdata(), ks * 0.001 if c['axis'] == 'time' else ks + 1, rtol=1e-6, atol=1e-9, what=f'step {k}: abscissa of element {i}')
            close(l.get_ydata(), [X[j][i] for j in ks], rtol=RT, what=f'step {k}: history of element {i}')
            same(l.get_label(), f'signal {p}' if c['labels'] else f'Elem. {i}', 'label')
        if c['yr']:
            close(ax.get_ylim(), [-2, 5], what=f'step {k}: requested y range')
    show(PlotVectorDisplay(histlen=c['hist'], x_axis=c['axis'], max_elements=c['maxel'], **kw), {'vector': value_feed(X)}, S, look)
    return 'trivial' if S <= c['hist'] else c['sel']


@CHECK.family(st.fixed_dictionaries({'what': st.sampled_from(['scalar', 'one', 'vector', 'image', 'images', 'field', 'slopes', 'pixels', 'none']), 'n': st.integers(2, 6),
                                     'calls': st.integers(1, 5), 'ragged': st.booleans(), 'seed': hseed}),
              quick=60, thorough=2000, rule='more than one call', double=0.3)
def plotter(c):
    """The plots of the display server: the figure holds the object it was asked for, at each request."""
    rng = rng_of(c['seed'])
    p = DataPlotter(histlen=3)
    hist = []
    for k in range(c['calls']):
        n, w = c['n'] + (k if c['ragged'] and c['what'] == 'vector' else 0), c['what']
        if w in ('scalar', 'one'):
            v = np.asarray(rng.normal(size=() if w == 'scalar' else 1), DT)
            objs, hist = [BaseValue(value=v)], (hist + [float(v.ravel()[0])])[-3:]
        elif w == 'vector':
            v = np.asarray(rng.normal(size=n), DT)
            objs = [BaseValue(value=v)]
        elif w in ('image', 'images'):
            v = [np.asarray(rng.normal(size=(n, n + 1)), DT) for _ in range(1 if w == 'image' else 3)]
            objs = [BaseValue(value=x) for x in v]
        elif w == 'field':
            o = ElectricField(n, n, 0.1)
            o.A, o.phaseInNm = np.asarray(pupil(rng, n, 'disc'), DT), np.asarray(rng.normal(size=(n, n)), DT)
            m = o.A > 0
            if not m.any():
                raise Skip
            v, objs = [np.where(m, o.phaseInNm - o.phaseInNm[m].mean(), 0)], [o]
        elif w == 'slopes':
            o = Slopes(2 * n * n)
            o.slopes, o.display_map, o.single_mask = np.asarray(rng.normal(size=2 * n * n), DT), np.arange(n * n), np.ones((n, n), DT)
            v, objs = [np.hstack([o.slopes[:n * n].reshape(n, n), o.slopes[n * n:].reshape(n, n)])], [o]
        elif w == 'pixels':
            o = Pixels(n, n)
            o.pixels = np.asarray(rng.integers(0, 99, (n, n)), o.dtype)
            v, objs = [np.array(o.pixels, float)], [o]
        else:
            objs = [BaseValue()]
        fig = p.multi_plot(objs)
        axs = fig.axes
        if w in ('scalar', 'one'):
            l, = lines(axs[0], 1)
            close(l.get_ydata(), hist, rtol=RT, what=f'call {k}: history')
        elif w == 'vector':
            l, = lines(axs[0], 1)
            close(l.get_ydata(), v, rtol=RT, what=f'call {k}: vector')
            same(len(l.get_xdata()), len(v), f'call {k}: abscissa')
            lo, hi = axs[0].get_ylim()
            check(lo <= v.min() + 1e-6 and hi >= v.max() - 1e-6, f'call {k}: values {v.min()}..{v.max()} beyond the limits {lo}..{hi} of the plot')
        elif w == 'none':
            check(len(axs[0].texts) == 1, f'call {k}: {len(axs[0].texts)} messages drawn over each other')
        else:
            for ax, x in zip(axs, v, strict=True):
                shown(k, ax, x, w, rt=max(RT, 1e-5))
        fig.canvas.draw()
    return 'trivial' if c['calls'] == 1 else c['what']


# ------------------------------------------------------------------ monitors
@CHECK.family(st.fixed_dictionaries({'dt': st.sampled_from([0.001, 0.0005, 0.003]), 'every': st.integers(1, 5), 'frac': st.sampled_from([0., 0.3]), 'steps': st.integers(1, 20),
                                     'shape': st.sampled_from(['scalar', 'one', 'vector', 'matrix', 'gaps']), 'sl': st.sampled_from([None, (1, 4), (0, 6, 2)]),
                                     'fmt': st.sampled_from(['.4f', '.2e', '.1f']), 'prefix': st.sampled_from(['', 'tip']), 'seed': hseed}),
              quick=80, thorough=3000, rule='more than one line printed')
def printed(c):
    rng = rng_of(c['seed'])
    S, dt = c['steps'], c['dt']
    shp = {'scalar': (), 'one': 1, 'matrix': (2, 3)}.get(c['shape'], 7)
    X = [None if c['shape'] == 'gaps' and rng.random() < 0.4 else np.asarray(rng.normal(size=shp) * 100, DT) for _ in range(S)]
    pdt = (c['every'] + c['frac']) * dt
    kw = dict(range_slice=c['sl']) if c['sl'] and c['shape'] != 'matrix' else {}
    d = DataPrint(print_dt=pdt, prefix=c['prefix'], format_str=c['fmt'], **kw)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        loop = LoopControl()
        f = value_feed(X)
        loop.add(Feed(*f), 0)
        d.inputs['in_value'].set(f[0])
        loop.add(d, 1)
        loop.run(run_time=S * dt, dt=dt)
    got = [l for l in buf.getvalue().splitlines() if l.startswith('t=')]
    want, last = [], None
    for k in range(S):
        if X[k] is None or (last is not None and round(k * dt * 1e9) - last < round(pdt * 1e9)):
            continue
        last = round(k * dt * 1e9)
        v = X[k]
        head = f't={k * dt:.4f}s' + (f' {c["prefix"]}' if c['prefix'] else '') + ': '
        if v.ndim == 0:
            want.append(head + format(float(v), c['fmt']))
        elif v.ndim == 1:
            s = v[slice(*c['sl'])] if 'range_slice' in kw else v
            want.append(head + '[' + ', '.join(format(float(x), c['fmt']) for x in s) + ']')
        else:
            want.append(head + f'shape={v.shape}, [' + ', '.join(format(float(x), c['fmt']) for x in v.ravel()) + ']')
    same(got, want, 'lines printed')
    return 'trivial' if len(want) < 2 else c['shape']


@CHECK.family(st.fixed_dictionaries({'lam': st.floats(400, 2000), 'n': st.integers(4, 60), 'pitch': st.floats(0.005, 0.2), 'nd': st.integers(1, 4), 'dist': st.floats(1e3, 1e7),
                                     'diam': st.floats(0.01, 2), 'steps': st.integers(1, 5), 'seed': hseed}), quick=40, thorough=2000, rule='always')
def power(c):
    """dB are differences of logarithms: twice the light is 3.01 dB more, in any geometry, at every step."""
    rng = rng_of(c['seed'])
    X = [np.asarray(rng.uniform(0.01, 1), DT) for _ in range(c['steps'])]
    p = PowerLoss(SimulParams(pixel_pupil=c['n'], pixel_pitch=c['pitch']), c['lam'], c['nd'], c['dist'], c['diam'])
    rec = drive(p, {'se_sr': value_feed(X)}, c['steps'])['out_power_loss']
    scale = c['lam'] * 1e-9 * c['dist'] / (c['n'] * c['nd'] * c['pitch'])
    for k, (v, fresh) in enumerate(rec):
        check(fresh, f'step {k}: not refreshed')
        close(v, 10 * np.log10(float(X[k]) * c['diam'] / scale), rtol=1e-5, atol=1e-4, what=f'step {k}: power')
    for a in ('lam', 'nd', 'dist', 'diam'):
        k = dict(wavelengthInNm=c['lam'], nd=c['nd'], prop_distance=c['dist'], receiver_diam=c['diam'])
        k[{'lam': 'wavelengthInNm', 'nd': 'nd', 'dist': 'prop_distance', 'diam': 'receiver_diam'}[a]] = 0
        raises(lambda: PowerLoss(SimulParams(pixel_pupil=c['n'], pixel_pitch=c['pitch']), **k), f'{a}=0', ValueError)
    return 'always'


@CHECK.family(st.fixed_dictionaries({'ny': st.integers(1, 4), 'npx': st.integers(10, 14), 'alpha': st.floats(1.5, 4), 'gamma': st.floats(1.8, 2.5), 'dx': st.floats(-1, 1), 'dy': st.floats(-1, 1),
                                     'sky': st.sampled_from([100., 1000.]), 'noise': st.sampled_from([0., 0., 0.3]), 'steps': st.integers(1, 2), 'seed': hseed}),
              quick=40, thorough=2000, rule='always', double=0.3)
def spots(c):
    """The mean spot of the subapertures, its Moffat fit and the residual."""
    rng = rng_of(c['seed'])
    ny, npx = c['ny'], c['npx']
    n = int(rng.integers(1, ny * ny + 1))
    ids, m = subaps(rng, npx, ny, ny, n, True)[1:]
    y, x = np.mgrid[:npx, :npx].astype(float)
    x0, y0 = (npx - 1) / 2 + c['dx'], (npx - 1) / 2 + c['dy']
    flux = [rng.uniform(100, 1000, n) for _ in range(c['steps'])]
    X = []
    for f in flux:
        im = rng.uniform(0, 1e4, (ny * npx, ny * npx))     # what is not a subaperture does not matter
        for i in range(n):
            s = f[i] * (1 + ((x - x0)**2 + (y - y0)**2) / c['gamma']**2)**-c['alpha'] + c['sky'] / n + c['noise'] * rng.normal(size=x.shape)
            im.flat[np.asarray(ids[i])] = s.ravel()
        X.append(np.asarray(im, DT).astype(float))
    mon = SpotMonitor(SubapData(ids, m, ny, ny), initial_alpha=2., initial_gamma=2.)
    rec = drive(mon, {'in_pixels': pix_feed(X)}, c['steps'])
    for k in range(c['steps']):
        tot = sum(X[k].flat[np.asarray(ids[i])].reshape(npx, npx) for i in range(n))
        g = {o: np.asarray(rec[o][k][0], float) for o in rec}
        for o in rec:
            check(rec[o][k][1], f'step {k}: {o} is not refreshed')
        top = np.abs(tot).max()
        close(g['out_sum_pixels'], tot, rtol=RT, atol=RT * top, what=f'step {k}: sum of the subapertures')
        amp, xf, yf, gam, alp, sky, fwhm, chi2, ok = g['out_params']
        check(ok == 1, f'step {k}: no fit')
        mod = amp * (1 + ((x - xf)**2 + (y - yf)**2) / gam**2)**-alp + sky
        close(g['out_model_pixels'], mod, rtol=1e-3, atol=1e-4 * top, what=f'step {k}: model of the fitted parameters')
        close(g['out_residual_pixels'], tot - g['out_model_pixels'], rtol=1e-3, atol=max(2e-6, RT) * top, what=f'step {k}: residual')
        close(fwhm, 2 * gam * np.sqrt(2**(1 / alp) - 1), rtol=1e-4, what=f'step {k}: width')
        close(chi2, (g['out_residual_pixels']**2).mean(), rtol=1e-2, atol=1e-9 * top**2, what=f'step {k}: mean square of the residual')
        close([xf, yf], [x0, y0], atol=0.02 + c['noise'] * 0.2, what=f'step {k}: position of the spot')
        close(fwhm, 2 * c['gamma'] * np.sqrt(2**(1 / c['alpha']) - 1), rtol=0.02 + c['noise'] * 0.6, what=f'step {k}: width of the spot')
        if not c['noise']:
            close(amp, flux[k].sum(), rtol=0.03, what=f'step {k}: amplitude of the spot')
            close(sky, c['sky'], rtol=0.05, atol=0.005 * top, what=f'step {k}: sky')
        check(np.allclose([mon.amplitude, *mon.centroid, mon.fwhm, mon.sky_level, mon.fit_quality['chi2']], [amp, xf, yf, fwhm, sky, chi2]) if k == c['steps'] - 1 else True,
              'properties of the monitor')
    return 'noise' if c['noise'] else 'clean'


@CHECK.family(st.fixed_dictionaries({'n': st.integers(4, 16), 'kind': st.sampled_from(['full', 'disc', 'holes']), 'steps': st.integers(1, 4), 'seed': hseed}),
              quick=20, thorough=600, rule='always', double=0.3)
def two_phases(c):
    rng = rng_of(c['seed'])
    A = [[pupil(rng, c['n'], c['kind']) for _ in range(c['steps'])] for _ in range(2)]
    P = [[phase(rng, c['n'], True) + rng.normal() * 300 for _ in range(c['steps'])] for _ in range(2)]

    def look(k, ax):
        ims = [a.images[0] for a in ax.figure.axes if a.images]
        check(len(ims) == 2, f'step {k}: {len(ims)} images')
        for i in range(2):
            m = A[i][k] > 0
            w = np.where(m, P[i][k] - P[i][k][m].mean(), 0)
            close(np.asarray(ims[i].get_array(), float), w, rtol=1e-5, atol=1e-5 * np.abs(w).max(), what=f'step {k}: phase {i + 1}')
            close(ims[i].get_clim(), [w.min(), w.max()], rtol=1e-5, atol=2e-5 * np.abs(w).max(), what=f'step {k}: colour scale of phase {i + 1}')
    show(DoublePhaseDisplay(), {'phase1': ef_feed(A[0], P[0], 0.1, 1.), 'phase2': ef_feed(A[1], P[1], 0.1, 1.)}, c['steps'], look)
    return c['kind']
