"""C05 - what is stored on disk is the history of the simulation, and replaying it reproduces it."""
import copy
import os
import pickle
from vlib.core import *
specula_init()
import yaml
from astropy.io import fits
from specula.simul import Simul
from specula.loop_control import LoopControl
from specula.base_processing_obj import BaseProcessingObj
from specula.base_value import BaseValue
from specula.connections import InputValue
from specula.data_objects.electric_field import ElectricField
from specula.data_objects.intensity import Intensity
from specula.data_objects.pixels import Pixels
from specula.data_objects.slopes import Slopes
from specula.data_objects.layer import Layer
from specula.processing_objects.data_store import DataStore
from specula.processing_objects.data_source import DataSource
from checks.c01 import wirings, params_of
from checks.wiring_model import interpret, refs

CHECK = Check('C05', 'store and replay', scale=3, assumptions=[
    'stored outputs are refreshed before the storing component runs in the same step (not through a delayed link)',
    'one storing component per simulation when a full replay is generated; stored outputs are not read with a delay'])

KINDS = ['value', 'vector', 'slopes', 'ef', 'layer', 'intensity', 'pixels']


def make(kind, n):
    if kind == 'value':
        return BaseValue(value=np.zeros(1)), (1,)
    if kind == 'vector':
        return BaseValue(value=np.zeros(n)), (n,)
    if kind == 'slopes':
        s = Slopes(2 * n, interleave=n % 2 == 0)
        s.pupdata_tag = 'ptag'
        return s, (2 * n,)
    if kind == 'ef':
        return ElectricField(n, n + 1, 0.25, S0=3.5), (2, n + 1, n)
    if kind == 'layer':
        return Layer(n, n + 1, 0.25, height=100.0, rotInDeg=4.0), (2, n + 1, n)
    if kind == 'intensity':
        return Intensity(n, n + 1), (n + 1, n)
    return Pixels(n, n + 1, bits=12), (n + 1, n)


class Feed(BaseProcessingObj):
    def __init__(self, obj, data, mask):
        super().__init__()
        self.o, self.data, self.mask, self.k = obj, data, mask, 0
        self.outputs['out'] = obj

    def check_input_names(self): pass
    def check_output_names(self): pass

    def trigger_code(self):
        if self.mask[self.k]:
            self.o.set_value(self.data[self.k])
            self.o.generation_time = self.current_time
        self.k += 1


class Reader(BaseProcessingObj):
    def __init__(self, src):
        super().__init__()
        self.src, self.seen = src, {}
        for k, o in src.outputs.items():
            self.inputs[k] = InputValue(type=type(o))
            self.inputs[k].set(o)
            self.seen[k] = []

    def check_input_names(self): pass
    def check_output_names(self): pass

    def trigger_code(self):
        for k, o in self.local_inputs.items():
            if o.generation_time == self.current_time:
                self.seen[k].append((self.current_time, np.array(o.get_value())))


def read_file(d, name, fmt):
    if fmt == 'fits':
        with fits.open(os.path.join(d, name + '.fits')) as h:
            return [int(t) for t in h[1].data], np.array(h[0].data), dict(h[0].header)
    with open(os.path.join(d, name + '.pickle'), 'rb') as f:
        x = pickle.load(f)
    return [int(t) for t in x['times']], np.array(x['data']), dict(x['hdr'])


@CHECK.family(st.fixed_dictionaries({
    'objs': st.lists(st.fixed_dictionaries({'kind': st.sampled_from(KINDS), 'n': st.integers(1, 4), 'mask': st.integers(1, 2**32 - 1),
                                            'down': st.integers(1, 4)}), min_size=1, max_size=3),
    'steps': st.integers(1, 14), 'dt_ns': st.sampled_from([1000000, 500000, 123000, 100000000, 7, 333333333]),
    'fmt': st.sampled_from(['fits', 'pickle']), 'down': st.sampled_from(['none', 'all', 'each']), 'factor': st.integers(1, 5),
    'split': st.sampled_from([0, 0, 1, 2, 3, 5]), 'suffix': st.integers(0, 3), 'start': st.integers(0, 6), 'tn': st.booleans(),
    't0': st.sampled_from([0, 0, 10**9, 86400 * 10**9]), 'seed': st.integers(0, 2**31), 'steps2': st.integers(0, 3)}), 600, 8000,
    rule='histories of 1..3 objects of different types with missing samples, stored in either format with down-sampling, '
         'splitting, start time, then read from the files and through a DataSource; non-trivial = something stored', double=0.4)
def history(c):
    dt, n = c['dt_ns'], c['steps']
    rng = rng_of(c['seed'])
    with Scratch() as d:
        feeds, want = [], {}
        per = {}
        names = [f'x{i}' for i in range(len(c['objs']))]
        kw = {}
        if c['down'] == 'all':
            kw['downsample_factor'] = c['factor']
        elif c['down'] == 'each':
            kw['downsample_factor_by_input'] = {m: o['down'] for m, o in zip(names, c['objs'])}
        store = DataStore(store_dir=d, split_size=c['split'], first_suffix=c['suffix'], data_format=c['fmt'],
                          start_time=(c['t0'] + c['start'] * dt) / 1e9, create_tn=c['tn'], **kw)
        store.setParams({'main': {'class': 'SimulParams'}})
        times = [c['t0'] + k * dt for k in range(n)]
        for m, o in zip(names, c['objs']):
            obj, shape = make(o['kind'], o['n'])
            mask = [(o['mask'] >> k) & 1 for k in range(n)]
            data = rng.normal(size=(n,) + shape).astype(DT)
            feeds.append(Feed(obj, data, mask))
            store.inputs[m] = InputValue(type=type(obj))
            store.inputs[m].set(obj)
            every = {'none': 1, 'all': c['factor'], 'each': o['down']}[c['down']]
            kept = [k for k in range(c['start'], n) if mask[k]][::every]
            want[m] = [(times[k], data[k]) for k in kept]
            per[m] = every
        # the storing component runs when at least one of its inputs is fresh (like every component)
        fresh = [any((o['mask'] >> k) & 1 for o in c['objs']) for k in range(n)]
        active = [k for k in range(c['start'], n) if fresh[k]]
        loop = LoopControl()
        for f in feeds:
            loop.add(f, 0)
        loop.add(store, 1)
        loop.run(run_time=n * dt / 1e9, dt=dt / 1e9, t0=c['t0'] / 1e9)
        # where the samples are
        if c['split'] == 0:
            dirs = [d] if not c['tn'] else [os.path.join(d, x) for x in os.listdir(d)]
            check(len(dirs) == 1, f'{len(dirs)} folders written')
            chunks = [(dirs[0], times)]
        else:
            chunks = []
            for j in range(0, len(active), c['split']):
                span = [times[k] for k in active[j:j + c['split']]]
                sub = [x for x in os.listdir(d) if x.endswith(f'_{j + c["suffix"]}')]
                if not sub and not any(t in span for m in names for t, _ in want[m]):
                    continue      # nothing to store in this chunk
                check(len(sub) == 1, f'folder of the samples from {j} on: {sub} among {sorted(os.listdir(d))}')
                chunks.append((os.path.join(d, sub[0]), span))
            # finalize() looks at the last step once more: a repeated copy of its samples is the only extra allowed
            known = {os.path.basename(x) for x, _ in chunks}
            for x in set(os.listdir(d)) - known:
                for m in names:
                    if os.path.exists(os.path.join(d, x, m + '.' + c['fmt'])):
                        t, data, _ = read_file(os.path.join(d, x), m, c['fmt'])
                        check(want[m] and t == [want[m][-1][0]] and t[0] == times[-1], f'extra folder {x} holds {m} at {t}')
                        same(data[0], want[m][-1][1], f'{m}: repeated sample')
        total = 0
        for folder, span in chunks:
            present = []
            for m, o in zip(names, c['objs']):
                w = [x for x in want[m] if x[0] in span]
                f = os.path.join(folder, m + '.' + c['fmt'])
                if not w:
                    check(not os.path.exists(f), f'{m} was never stored, yet there is a file for it')
                    continue
                t, data, hdr = read_file(folder, m, c['fmt'])
                check(t == [x[0] for x in w], f'{m}: stored times {t}, expected {[x[0] for x in w]}')
                same(data, np.array([x[1] for x in w]), f'{m}: stored samples')
                check(int(hdr['DOWNSAMP']) == per[m], f'{m}: DOWNSAMP {hdr["DOWNSAMP"]}, expected {per[m]}')
                present.append(m)
                total += len(w)
            if not present:
                continue
            src = DataSource(outputs=present, store_dir=folder, data_format=c['fmt'])
            check(set(src.outputs) == set(present), 'outputs of the source')
            rd = Reader(src)
            lp = LoopControl()
            lp.add(src, 0)
            lp.add(rd, 1)
            lp.run(run_time=(n + c['steps2']) * dt / 1e9, dt=dt / 1e9, t0=c['t0'] / 1e9)
            for m, o in zip(names, c['objs']):
                if m not in present:
                    continue
                w = [x for x in want[m] if x[0] in span]
                check([t for t, _ in rd.seen[m]] == [x[0] for x in w],
                      f'{m} replayed at {[t for t, _ in rd.seen[m]]}, stored at {[x[0] for x in w]}')
                for (_, g), (_, x) in zip(rd.seen[m], w):
                    same(g, x, f'{m} replayed')
                ref, _ = make(o['kind'], o['n'])
                check(type(src.outputs[m]) is type(ref), f'{m} replayed as a {type(src.outputs[m]).__name__}')
                for a in {'slopes': ['interleave', 'pupdata_tag'], 'ef': ['pixel_pitch', 'S0'], 'pixels': ['bpp', 'signed'],
                          'layer': ['height', 'rotInDeg', 'pixel_pitch']}.get(o['kind'], []):
                    equal_attr(getattr(ref, a), getattr(src.outputs[m], a), f'{m}.{a} replayed')
    return total > 0 and ['split' if c['split'] else 'whole', c['fmt'], 'down_' + c['down']]


def storable(p, full):
    """Outputs whose consumers do not read them with a delay (nor, for a full replay, in a list): known findings."""
    delays, lists = listed('C05-replay-delay'), listed('C05-replay-lists')
    objs = sorted((k for k, v in p.items() if v['class'] in ('ProbeSource', 'ProbeNode')), key=lambda k: int(k[3:]))
    bad = set()
    for v in p.values():
        for key, x in v.get('inputs', {}).items():
            for name, delayed in refs(x):
                if (delayed and delays) or (full and isinstance(x, list) and lists):
                    bad.add(name)
    return [k for k in objs if k not in bad]


@CHECK.family(st.tuples(wirings(), st.integers(1, 2**12), st.sampled_from(['fits', 'pickle']), st.booleans(), st.integers(0, 50)),
              200, 3000, rule='random wirings with a DataStore on a random subset of outputs: stored files compared with the '
              'interpreter, then the generated replay (full or targeted at one component) is run and the components left are '
              'compared with the original run; non-trivial = something stored and something replayed')
def replay(c):
    case, pick, fmt, full, tgt = c
    p = params_of(case)
    can = storable(p, full)
    stored = [k for i, k in enumerate(can) if (pick >> i) & 1]
    if not stored:
        raise Skip()
    # some components refer to data objects, one by one, in a list or in a dictionary
    rng, held, referred = rng_of(pick * 64 + tgt), {}, {}
    nodes = [k for k in p if p[k].get('class') == 'ProbeNode']
    for i in range(int(rng.integers(0, 6))):
        p[f'star{i}'] = {'class': 'Source', 'polar_coordinates': [1.0 * i, 0.0], 'magnitude': 5 + i, 'wavelengthInNm': 500}
    stars = [k for k in p if k.startswith('star')]
    for k in nodes if stars else []:
        one = str(rng.choice(stars)) if rng.random() < 0.3 else None
        some, more = ([str(x) for x in rng.permutation(stars)[:int(rng.integers(1, 6))]] if rng.random() < 0.3 else None for _ in range(2))
        p[k].update({a: b for a, b in [('one_ref', one), ('some_list_ref', some), ('more_dict_ref', more)] if b})
        mag = lambda x: p[x]['magnitude']
        held[k] = [one and mag(one), some and [mag(x) for x in some], more and {x: mag(x) for x in more}]
        referred[k] = {x for x in [one, *(some or []), *(more or [])] if x}
    with Scratch() as d:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            p['store'] = {'class': 'DataStore', 'store_dir': os.path.join(d, 'out'), 'data_format': fmt,
                          'inputs': {'input_list': [f'n_{k}-{k}.out' for k in stored]}}
            with open('par.yml', 'w') as f:
                yaml.safe_dump(p, f, sort_keys=False)
            s = Simul('par.yml')
            s.run()
            traces, final, outs = interpret({k: v for k, v in p.items() if k not in stars}, case['steps'], case['dt_ns'])
            for k in held:
                check(s.objs[k].held == held[k], f'objects {k} refers to: {s.objs[k].held}, expected {held[k]}')
            tn = os.path.join(d, 'out', os.listdir(os.path.join(d, 'out'))[0])
            for k in stored:
                f = os.path.join(tn, f'n_{k}.{fmt}')
                if not outs[k]:
                    check(not os.path.exists(f), f'{k} produced nothing, yet there is a file for it')
                    continue
                t, data, _ = read_file(tn, f'n_{k}', fmt)
                check(t == [x[0] for x in outs[k]], f'{k}: stored times {t}, produced at {[x[0] for x in outs[k]]}')
                same(np.ravel(data), np.array([x[1] for x in outs[k]]), f'{k}: stored values')
            if any(not outs[k] for k in stored):
                return 'stored only'
            saved = yaml.safe_load(open(os.path.join(tn, 'params.yml')))
            for k, v in saved.items():
                if k != 'store':
                    check(v == p[k], f'saved parameters of {k}: {v}, run with {p[k]}')
            if full:
                rp = yaml.safe_load(open(os.path.join(tn, 'replay_params.yml')))
                for k in stored:
                    check(k not in rp, f'{k} is stored, and the replay computes it again')
                expected = [k for k in traces if k not in stored]
            else:
                nodes = [k for k in traces if p[k]['class'] == 'ProbeNode' and k not in stored]
                if not nodes:
                    return 'stored only'
                target = nodes[tgt % len(nodes)]
                keep = copy.deepcopy(saved)
                rp = Simul('par.yml').build_targeted_replay(saved, target, set_store_dir=tn)
                check(saved == keep, 'building a replay changed the parameters it was given')
                # exactly what the target needs, upstream of the stored outputs
                need, todo = set(), [target]
                while todo:
                    k = todo.pop()
                    if k in need:
                        continue
                    need.add(k)
                    for x in p[k].get('inputs', {}).values():
                        todo += [nm for nm, _ in refs(x) if nm not in stored]
                got = set(rp) - {'main', 'data_source'}
                expected = [k for k in traces if k in need]
                for k in expected:
                    need |= referred.get(k, set())
                check(got == need, f'replay of {target} contains {sorted(got)}, expected {sorted(need)}')
            with open('replay.yml', 'w') as f:
                yaml.safe_dump(rp, f, sort_keys=False)
            s2 = Simul('replay.yml')
            s2.run()
            for k in expected:
                check(k in s2.objs, f'{k} is missing from the replay')
                if k in held:
                    check(s2.objs[k].held == held[k], f'objects {k} refers to in the replay: {s2.objs[k].held}, expected {held[k]}')
                if p[k]['class'] == 'ProbeNode':
                    a = [(int(t), v) for t, v in s2.objs[k].trace]
                    b = [(t, v) for t, v in traces[k]]
                    check(a == b, f'{k} in the replay: {a[:4]}, in the run: {b[:4]}')
                check(float(np.ravel(s2.objs[k].out.value)[0]) == final[k], f'{k}: final value in the replay')
        finally:
            os.chdir(cwd)
    return ['full' if full else 'targeted', fmt]

def two_components(node):
    """A source stored at every step and a component which reads it: trace in the run and in its full and targeted replays."""
    with Scratch() as d:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            case = {'nodes': [{'kind': 'src', 'period': 1, 'phase': 0, 'write': 'trigger'}, node], 'decl': [0, 1], 'steps': 4, 'dt_ns': 1000000, 'main_pos': 0}
            p = params_of(case)
            a, b = sorted((k for k, v in p.items() if v['class'] in ('ProbeSource', 'ProbeNode')), key=lambda k: int(k[3:]))
            p['store'] = {'class': 'DataStore', 'store_dir': os.path.join(d, 'out'), 'data_format': 'fits', 'inputs': {'input_list': [f'n_{a}-{a}.out']}}
            out = []
            for what in ('run', 'full', 'targeted'):
                if what == 'run':
                    q = p
                else:
                    tn = os.path.join(d, 'out', os.listdir(os.path.join(d, 'out'))[0])
                    q = (yaml.safe_load(open(os.path.join(tn, 'replay_params.yml'))) if what == 'full' else
                         Simul('run.yml').build_targeted_replay(yaml.safe_load(open(os.path.join(tn, 'params.yml'))), b, set_store_dir=tn))
                with open(what + '.yml', 'w') as f:
                    yaml.safe_dump(q, f, sort_keys=False)
                try:
                    s = Simul(what + '.yml')
                    s.run()
                    out.append([(int(t), v) for t, v in s.objs[b].trace])
                except Exception as e:
                    out.append(f'{type(e).__name__}: {e}')
            return out
        finally:
            os.chdir(cwd)


@CHECK.finding
def replay_delay(c):
    run, full, targeted = two_components({'kind': 'node', 'write': 'trigger', 'read': 'trigger', 'mute': 0, 'a': [0, -1], 'b': None, 'list': []})
    check(full == run, f'full replay of a delayed input: {full}, in the run: {run}')
    check(targeted == run, f'targeted replay of a delayed input: {targeted}, in the run: {run}')


@CHECK.finding
def replay_lists(c):
    run, full, targeted = two_components({'kind': 'node', 'write': 'trigger', 'read': 'trigger', 'mute': 0, 'a': None, 'b': None, 'list': [[0, 0]]})
    check(targeted == run, f'targeted replay of a list input: {targeted}, in the run: {run}')
    check(full == run, f'full replay of a list input: {full}, in the run: {run}')

