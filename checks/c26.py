"""C26 - components only read what they are given, share nothing, and always do the same."""
import contextlib, copy, importlib, io
from vlib.drive import *
import vlib.drive as drive_module
from specula.base_data_obj import BaseDataObj

CHECK = Check('C26', 'isolation of the components', assumptions=['the inputs and settings of the other checks'])

# families whose cases run components through the loop
FAMILIES = {
    'generators': 'c10:waves schedules push_pull histories randoms vibrations',
    'operations': 'c11:operations slices insertions combinations products buffers',
    'detectors': 'c12:noiseless noise_moments additive dark_frames',
    'control': 'c13:open_loop polc multirate complementary closed_loop',
    'mirrors': 'c14:dm analysis unwrap',
    'propagation': 'c15:geometric field_of_view fresnel chromatic algebra superposition',
    'atmosphere': 'c16:frozen_flow random_phase large_enough cube',
    'slopes': 'c17:sh_slopes sh_radius_schedule sh_pixel_weights pyr_slopes cur_zwfs ciao',
    'sensors': 'c18:exact_image laser_image distributed invariants tilt polychromatic ideal_derivative',
    'pyramids': 'c19:pyramid pyramid_symmetry polychromatic zernike double_roof extended_source interferometer',
    'cameras': 'c20:images lyot four_quadrant vortex apodizer',
    'calibrators': 'c24:push_pull multi slope_null sh_subaps pyr_pupils',
}


def state(o, depth=0):
    """Everything inside a data object, a list or an array (not the time stamps)."""
    if isinstance(o, BaseDataObj):
        return {k: state(v, depth + 1) for k, v in vars(o).items() if k not in ('generation_time', 'tag')} if depth < 4 else None
    if isinstance(o, np.ndarray):
        return None if o.dtype == object else o.copy()
    if isinstance(o, (list, tuple)):
        return [state(v, depth + 1) for v in o]
    if isinstance(o, dict):
        return {k: state(v, depth + 1) for k, v in o.items()} if depth < 4 else None
    if isinstance(o, (int, float, complex, str, bool, type(None), np.generic)):
        return o
    return None


def where(a, b, path=''):
    """First place where two states differ."""
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return path
        for k in a:
            r = where(a[k], b.get(k), f'{path}.{k}') if k in b else f'{path}.{k} gone'
            if r:
                return r
    elif isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return path + ' (length)'
        for i, (x, y) in enumerate(zip(a, b)):
            r = where(x, y, f'{path}[{i}]')
            if r:
                return r
    elif isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'):
            return path
    elif a is not None or b is not None:
        if type(a) is not type(b) or not (a == b or a != a and b != b):
            return f'{path} ({a} -> {b})'
    return None


def first_difference(a, b):
    """Between two records {output: [(value, fresh) ...]}."""
    for n in a:
        if n not in b or len(a[n]) != len(b[n]):
            return f'{n}: number of steps'
        for k, (x, y) in enumerate(zip(a[n], b[n])):
            for (v, f), (w, g) in zip(*((x, y) if isinstance(x, list) else ([x], [y]))):
                if f != g:
                    return f'{n} at step {k}: refreshed {f}, {g}'
                if (v is None) != (w is None) or v is not None and (v.shape != w.shape or v.dtype != w.dtype):
                    return f'{n} at step {k}: shape or type'
                if v is None or v.dtype == object:
                    continue
                if v.dtype.kind in 'fc':
                    ok = np.isfinite(v)
                    if not np.array_equal(ok, np.isfinite(w)):
                        return f'{n} at step {k}: infinite values'
                    top = np.abs(v[ok]).max() if ok.any() else 0
                    if ok.any() and np.abs(v[ok] - w[ok]).max() > (1e-4 if v.dtype.itemsize in (4,) or v.dtype == np.complex64 else 1e-9) * top:
                        return f'{n} at step {k}: {np.abs(v[ok] - w[ok]).max()} of {top}'
                elif not np.array_equal(v, w):
                    return f'{n} at step {k}'
    return None


def corner_rows(a, b):
    """The known finding: four points are added to the list of the source, or the flux of these four changes."""
    return listed('C26-extended-points') and len(b) - len(a) in (0, 4) and np.array_equal(a[:len(b) - 4], b[:len(b) - 4]) \
        and (len(a) < len(b) or np.array_equal(a[:, :3], b[:, :3]))


class Monitor:
    def __init__(self, twin, strict=False):
        self.strict = strict
        self.twin, self.problems, self.records, self.made, self.n = twin, [], [], {}, 0

    def built(self, o, args):
        """Called before the constructor of every component."""
        named = [(f'argument {k}', v) for k, v in args if isinstance(v, (BaseDataObj, np.ndarray, list, dict))]
        self.made[id(o)] = (o, [(k, v, state(v)) for k, v in named])

    def problem(self, *text):
        if len(self.problems) < 3:
            self.problems.append(' '.join(map(str, text)))

    def drive(self, obj, feeds, steps, dt=0.001, t0=0, outs=None, before=None, extra=()):
        self.n += 1
        name = type(obj).__name__
        objs = [(n, o) for n, f in feeds.items() for o, _ in (f if isinstance(f, list) else [f])]
        own = {id(o) for o in obj.outputs.values()}
        objs = [(n, o) for n, o in objs if id(o) not in own]
        kept = []
        twin = None
        if self.twin and name != 'ExtSourcePyramid':        # the known finding: the twin would see the points added by the first
            try:
                twin = copy.deepcopy(obj)
            except Exception:
                twin = None
        loop = LoopControl()
        for n, f in feeds.items():
            fs = f if isinstance(f, list) else [f]
            for p in fs:
                loop.add(drive_module.Feed(*p), 0)
            for target in ([obj] if twin is None else [obj, twin]):
                target.inputs[n].set([o for o, _ in fs] if isinstance(f, list) else f[0])
        names = list(obj.outputs) if outs is None else outs
        rec, rec2 = {n: [] for n in names}, {n: [] for n in names}

        def look(target, out):
            def fn(k, t):
                for n in names:
                    o = target.outputs[n]
                    if isinstance(o, list):
                        out[n].append([(snapshot(x), x.generation_time == t) for x in o])
                    else:
                        out[n].append((snapshot(o), o.generation_time == t))
            return fn

        def pre(k, t):
            kept[:] = [state(o) for _, o in objs]

        def post(k, t):
            for (n, o), s in zip(objs, kept):
                w = where(s, state(o))
                if w == '.value' and not self.strict and name == 'ExtSourcePyramid' and n == 'ext_source_coeff' and corner_rows(s['value'], o.value):
                    continue
                if w:
                    self.problem(f'{name} changed its input {n}: {w}, at step {k}')
        if before is not None:
            loop.add(Look(before), 1)
        loop.add(Look(pre), 2)
        loop.add(obj, 3)
        loop.add(Look(post), 4)
        if twin is not None:
            loop.add(twin, 5)
            loop.add(Look(look(twin, rec2)), 98)
        for i, e in enumerate(extra):
            loop.add(e, 6 + i)
        loop.add(Look(look(obj, rec)), 99)
        loop.run(run_time=steps * dt, dt=dt, t0=t0)
        post('the end', None)
        for o, args in [self.made[i] for i in [id(obj)] if i in self.made and self.made[i][0] is obj]:
            for k, v, s in args:
                w = where(s, state(v))
                if w:
                    self.problem(f'{name} changed its {k}: {w}')
        if twin is not None:
            w = first_difference(rec, rec2)
            if w:
                self.problem(f'two {name} with the same inputs differ: {w}')
        for n in names:
            for k, x in enumerate(rec[n]):
                for v, _ in (x if isinstance(x, list) else [x]):
                    if v is not None and (v.dtype.kind == 'f' and v.dtype != DT or v.dtype.kind == 'c' and v.dtype != CDT):
                        self.problem(f'{name}: {n} is {v.dtype} at step {k}, in a simulation in {np.dtype(DT)}')
        self.records.append((name, rec))
        return rec


@contextlib.contextmanager
def watching(module, monitor):
    import inspect
    plain, new = module.drive, BaseProcessingObj.__new__

    def build(cls, *a, **k):
        o = object.__new__(cls)
        try:
            names = list(inspect.signature(cls.__init__).parameters)[1:]
            monitor.built(o, list(zip(names, a)) + list(k.items()))
        except (TypeError, ValueError):
            pass
        return o
    users = [m for m in sys.modules.values() if getattr(m, '__name__', '').startswith('checks.') and getattr(m, 'drive', None) is plain]
    for m in users:
        m.drive = monitor.drive
    BaseProcessingObj.__new__ = staticmethod(build)
    try:
        yield
    finally:
        for m in users:
            m.drive = plain
        del BaseProcessingObj.__new__


def run_one(module, fam, case, monitor):
    """What the other check thinks of the result is its own business."""
    with watching(module, monitor), contextlib.redirect_stdout(io.StringIO()):
        try:
            fam.fn(case)
        except (Violation, Skip):
            pass
        except Exception as e:
            if type(e).__module__.startswith('hypothesis'):
                return


def isolated(module_name, names):
    module = importlib.import_module('checks.' + module_name)
    fams = {f.name: f for f in module.CHECK.families if f.name in names}

    def fn(c):
        name, case, other, seed = c
        fam = fams[name]
        # harmless noise in the state of the whole process
        np.random.seed(seed)
        first = Monitor(True)
        run_one(module, fam, copy.deepcopy(case), first)
        check(not first.problems, '; '.join(first.problems))
        if other is not None:
            run_one(module, fam, copy.deepcopy(other), Monitor(False))
        np.random.seed(seed + 1)
        again = Monitor(False)
        run_one(module, fam, copy.deepcopy(case), again)
        check(len(first.records) == len(again.records), 'number of runs')
        for (n, a), (_, b) in zip(first.records, again.records):
            w = first_difference(a, b)
            check(w is None, f'{n} is not repeatable: {w}')
        return name if first.n else 'trivial'
    one = st.sampled_from(sorted(fams)).flatmap(lambda n: st.tuples(st.just(n), fams[n].strategy, st.one_of(st.none(), fams[n].strategy), st.integers(0, 1000)))
    return one, fn


for _name, _text in FAMILIES.items():
    _mod, _list = _text.split(':')
    _one, _fn = isolated(_mod, _list.split())
    CHECK.family(_one, quick=150, thorough=3000, name=_name, rule='a component ran', double=0.4)(_fn)


@CHECK.finding
def extended_points(c):
    module = importlib.import_module('checks.c19')
    fam = next(f for f in module.CHECK.families if f.name == 'extended_source')
    m = Monitor(False, strict=True)
    run_one(module, fam, {'halfn': 3, 'lam': 500.0, 'pitch': 0.25, 'fovr': 0.5, 'diam': 4, 'margin': 0, 'dist': 0, 'res': 2.0, 'pad': 0, 'kind': 'full', 'rough': False, 's0': 1.0,
                          'steps': 1, 'seed': 0, 'npts': [1, 1, 1], 'batch': 1, 'stream': False, 'weak': False}, m)
    check(not m.problems, '; '.join(m.problems))


from checks import c25  # noqa: E402
import os, yaml  # noqa: E402
from specula.simul import Simul  # noqa: E402

LOOP = dict(n=st.integers(8, 12), D=st.sampled_from([1.0, 8.0]), steps=st.integers(3, 6), dt=st.sampled_from([0.001, 0.002]), zen=st.sampled_from([0.0, 30.0]), obs=st.sampled_from([0.0, 0.2]),
            h=st.sampled_from([2000.0, 8000.0]), modes=st.integers(2, 6), delay=st.sampled_from([0, 1, 2]), gain=st.floats(0.2, 0.6), high=st.sampled_from([None, 'stored', 'computed']),
            more=st.just(True), fmt=st.just('fits'), seed=st.integers(0, 9999))


@CHECK.family(st.tuples(st.fixed_dictionaries(LOOP), st.fixed_dictionaries(LOOP), st.floats(0, 10), st.integers(0, 1000)), quick=25, thorough=400, rule='always', double=0.4)
def whole_runs(c):
    """The same file gives the same history, whatever ran before and with the phase screens made or found on disk."""
    from astropy.io import fits
    with Scratch() as d, contextlib.redirect_stdout(io.StringIO()):
        cwd = os.getcwd()
        os.chdir(d)
        try:
            def history(case, name, fresh):
                p = c25.loop(case, d, [(c[2], 0.0)])
                p['ccd'] = {'class': 'CCD', 'simul_params_ref': 'main', 'size': [case['n'] * 2] * 2, 'dt': case['dt'], 'bandw': 100, 'photon_noise': True, 'readout_noise': True,
                            'readout_level': 2.0, 'photon_seed': 3, 'readout_seed': 5, 'inputs': {'in_i': 'sh.out_i'}, 'outputs': ['out_pixels']}
                p['sh'] = {'class': 'SH', 'wavelengthInNm': 600, 'subap_wanted_fov': 2.0, 'sensor_pxscale': 2.0 / case['n'] if case['D'] == 8.0 else 0.5, 'subap_npx': case['n'],
                           'subap_on_diameter': 2, 'inputs': {'in_ef': 'prop.out_on_axis_ef'}, 'outputs': ['out_i']}
                p['sh'].update(subap_wanted_fov=p['sh']['sensor_pxscale'] * case['n'])
                p['store'].update(store_dir=os.path.join(d, name), create_tn=False)
                p['store']['inputs']['input_list'].append('pix-ccd.out_pixels')
                if fresh:
                    p['main']['root_dir'] = os.path.join(d, 'other')
                c25.run(p, d, name)
                return {f: fits.getdata(os.path.join(d, name, f)) for f in sorted(os.listdir(os.path.join(d, name))) if f.endswith('.fits')}
            a = history(c[0], 'a', False)
            check(len(a) >= 4 and any(np.any(v) for v in a.values()), 'nothing stored', list(a))
            history(c[1], 'b', False)
            np.random.seed(c[3])
            for name, fresh in (('c', False), ('d', True)):
                b = history(c[0], name, fresh)
                check(sorted(a) == sorted(b), 'files', sorted(a), sorted(b))
                for f in a:
                    same(b[f], a[f], f'{f} of the {"first" if fresh else "second"} run')
        finally:
            os.chdir(cwd)
    return 'always'
