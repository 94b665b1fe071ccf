"""C01 - dataflow: every step, every component, right order, right values."""
import math
import os
from vlib.core import *
specula_init()
import yaml
from specula.simul import Simul
from specula.loop_control import LoopControl
from specula.base_value import BaseValue
from vprobes.probe_source import ProbeSource
from vprobes.probe_node import ProbeNode

CHECK = Check('C01', 'dataflow', scale=2, assumptions=[
    'CPU, single process (no MPI, no GPU in this sandbox)',
    'every component has at least one non-delayed input, as every shipped parameter file does'])


# ---------------------------------------------------------------- generator of wirings
@st.composite
def wirings(draw):
    n_src = draw(st.integers(1, 3))
    n = draw(st.integers(1, 7))
    nodes = []
    for i in range(n_src):
        nodes.append({'kind': 'src', 'period': draw(st.integers(1, 4)), 'phase': draw(st.integers(0, 3)),
                      'write': draw(st.sampled_from(['trigger', 'post']))})
    for i in range(n):
        here = n_src + i
        total = n_src + n
        node = {'kind': 'node', 'write': draw(st.sampled_from(['trigger', 'post'])),
                'read': draw(st.sampled_from(['trigger', 'prepare'])),
                'mute': draw(st.sampled_from([0, 0, 0, 2, 3]))}
        fwd = st.integers(0, here - 1)
        # one mandatory same-step input; the others same-step or delayed (also from later or equal components)
        slots = draw(st.lists(st.tuples(fwd, st.just(0)) | st.tuples(st.integers(here + 1, total - 1) if here + 1 < total
                                                                     else fwd, st.just(-1)),
                              min_size=0, max_size=5))
        slots = [list(x) for x in slots]
        for s in slots:                 # a delayed link from an earlier component would be contradictory
            if s[1] == -1 and s[0] <= here:
                s[1] = 0
        slots.insert(draw(st.integers(0, len(slots))), [draw(fwd), 0])
        k = draw(st.integers(0, 2))     # how many of them go to the single inputs
        node['a'] = slots[0] if k > 0 and len(slots) > 0 else None
        node['b'] = slots[1] if k > 1 and len(slots) > 1 else None
        used = (1 if node['a'] else 0) + (1 if node['b'] else 0)
        node['list'] = slots[used:]
        nodes.append(node)
    decl = draw(st.permutations(list(range(len(nodes)))))
    return {'nodes': nodes, 'decl': list(decl), 'steps': draw(st.integers(1, 9)),
            'dt_ns': draw(st.sampled_from([1000000, 500000, 2000000, 123000, 1, 7, 100000000])),
            'main_pos': draw(st.integers(0, len(nodes)))}


def params_of(case):
    ids = case['decl']
    p = {}
    main = {'class': 'SimulParams', 'root_dir': '.', 'time_step': case['dt_ns'] * 1e-9,
            'total_time': case['dt_ns'] * case['steps'] * 1e-9, 'add_modules': ['vprobes']}
    for pos, i in enumerate(ids):
        if pos == case['main_pos']:
            p['main'] = main
        nd = case['nodes'][i]
        if nd['kind'] == 'src':
            p[f'obj{i}'] = {'class': 'ProbeSource', 'ident': i, 'period': nd['period'], 'phase': nd['phase'],
                            'write_phase': nd['write'], 'outputs': ['out']}
        else:
            ref = lambda s: f'obj{s[0]}.out' + (':-1' if s[1] else '')
            inp = {}
            if nd['a']:
                inp['in_a'] = ref(nd['a'])
            if nd['b']:
                inp['in_b'] = ref(nd['b'])
            if nd['list'] or not inp:
                inp['in_list'] = [ref(s) for s in nd['list']]
            p[f'obj{i}'] = {'class': 'ProbeNode', 'ident': i, 'write_phase': nd['write'], 'read_phase': nd['read'],
                            'mute_period': nd['mute'], 'inputs': inp, 'outputs': ['out']}
    if 'main' not in p:
        p['main'] = main
    return p


def model(case):
    """Independent interpreter: components in index order (a valid order by construction)."""
    nodes, dt = case['nodes'], case['dt_ns']
    cur = [0.0] * len(nodes)
    traces = [[] for _ in nodes]
    runs = [0] * len(nodes)
    for k in range(case['steps']):
        prev = list(cur)
        fresh = [False] * len(nodes)
        for i, nd in enumerate(nodes):
            if nd['kind'] == 'src':
                traces[i].append(k * dt)
                if k % nd['period'] == nd['phase'] % nd['period']:
                    cur[i] = float((i * 101 + k * 13 + 1) % 9973)
                    fresh[i] = True
                continue
            slots = [nd['a'], nd['b']] + nd['list']
            if not any(s and s[1] == 0 and fresh[s[0]] for s in slots):
                continue
            seen = [None if s is None else (prev[s[0]] if s[1] else cur[s[0]]) for s in slots]
            traces[i].append((k * dt, seen))
            runs[i] += 1
            if nd['mute'] and runs[i] % nd['mute'] == 0:
                continue
            v = i * 7 + 1
            for j, x in enumerate(seen):
                if x is not None:
                    v += (j + 2) * x
            cur[i] = float(int(v) % 9973)
            fresh[i] = True
    return traces, cur


def compare(case, objs):
    want, final = model(case)
    for i, nd in enumerate(case['nodes']):
        o = objs[f'obj{i}']
        if nd['kind'] == 'src':
            got = [int(t) for t, _ in o.trace]
            check(got == want[i], f'obj{i} (source) ran at {got[:12]}, expected {want[i][:12]}')
            for t, s in o.trace:
                check(abs(s - t * 1e-9) <= 1e-12 + 1e-9 * s, f'obj{i}: seconds {s} for t={t} ns')
        else:
            got = [(int(t), v) for t, v in o.trace]
            check([t for t, _ in got] == [t for t, _ in want[i]],
                  f'obj{i} ran at steps {[t // case["dt_ns"] for t, _ in got]}, '
                  f'expected {[t // case["dt_ns"] for t, _ in want[i]]}')
            for (t, g), (_, w) in zip(got, want[i]):
                check(g == w, f'obj{i} at step {t // case["dt_ns"]} saw inputs {g}, expected {w}')
            check(o.finalized == 1, f'obj{i} finalized {o.finalized} times')
        check(float(o.out.value) == final[i], f'obj{i} final output {o.out.value} expected {final[i]}')


def labels(case):
    labs = []
    nl = [s for nd in case['nodes'] if nd['kind'] == 'node' for s in [nd['a'], nd['b']] + nd['list'] if s]
    if any(s[1] for s in nl):
        labs.append('delayed')
    if case['decl'] != sorted(case['decl']):
        labs.append('shuffled')
    if any(nd['kind'] == 'src' and nd['period'] > 1 for nd in case['nodes']):
        labs.append('multirate')
    return labs or 'trivial'


@CHECK.family(wirings(), 500, 12000,
              rule='random wiring (1-3 sources, 1-7 components, single and list inputs, same-step and :-1 links, shuffled '
                   'declaration order, multi-rate sources, components that run without producing) run through the YAML '
                   'front end; non-trivial = has a delayed link, a shuffled declaration or a slow source')
def simulated_wiring(case):
    with Scratch() as d:
        f = os.path.join(d, 'p.yml')
        with open(f, 'w') as fh:
            yaml.safe_dump(params_of(case), fh, sort_keys=False)
        s = Simul(f, speed_report=False)
        s.run()
    compare(case, s.objs)
    return labels(case)


@st.composite
def loops(draw):
    w = draw(wirings())
    w['orders'] = draw(st.lists(st.integers(0, 40), min_size=0, max_size=3, unique=True))
    return w


@CHECK.family(loops(), 250, 6000,
              rule='same wirings added directly to the loop with arbitrary increasing order numbers, in arbitrary sequence')
def direct_loop(case):
    objs = {}
    for i, nd in enumerate(case['nodes']):
        if nd['kind'] == 'src':
            objs[f'obj{i}'] = ProbeSource(i, nd['period'], nd['phase'], nd['write'])
        else:
            objs[f'obj{i}'] = ProbeNode(i, nd['write'], nd['read'], nd['mute'])
    for i, nd in enumerate(case['nodes']):
        if nd['kind'] == 'src':
            continue
        o = objs[f'obj{i}']
        if nd['a']:
            o.inputs['in_a'].set(objs[f'obj{nd["a"][0]}'].outputs['out'])
        if nd['b']:
            o.inputs['in_b'].set(objs[f'obj{nd["b"][0]}'].outputs['out'])
        if nd['list']:
            o.inputs['in_list'].set([objs[f'obj{s[0]}'].outputs['out'] for s in nd['list']])
    loop = LoopControl()
    step = 1 + (case['orders'][0] if case['orders'] else 0)
    for i in case['decl']:
        loop.add(objs[f'obj{i}'], 3 + i * step)
    dt = case['dt_ns'] * 1e-9
    loop.run(run_time=case['dt_ns'] * case['steps'] * 1e-9, dt=dt)
    compare(case, objs)
    return labels(case)


@st.composite
def bad_wirings(draw):
    w = draw(wirings())
    w['fault'] = draw(st.sampled_from(['no_object', 'no_output', 'no_input', 'no_class', 'unknown_class', 'bad_param',
                                       'declared_output', 'bad_type', 'two_on_single', 'wrong_type']))
    return w


@CHECK.family(bad_wirings(), 200, 3000,
              rule='a valid wiring with one wiring fault injected (missing object/output/input/class, unknown parameter, '
                   'undeclared output, two links on a single input, wrong link type) must be refused, never run')
def faulty_wiring(case):
    p = params_of(case)
    tgt = [f'obj{i}' for i, nd in enumerate(case['nodes']) if nd['kind'] == 'node'][-1]
    inp = p[tgt]['inputs']
    k = sorted(inp)[0]
    f = case['fault']
    if f == 'no_object':
        inp[k] = 'ghost.out' if k != 'in_list' else ['ghost.out']
    elif f == 'no_output':
        inp[k] = 'obj0.ghost' if k != 'in_list' else ['obj0.ghost']
    elif f == 'no_input':
        inp['in_ghost'] = 'obj0.out'
    elif f == 'no_class':
        del p[tgt]['class']
    elif f == 'unknown_class':
        p[tgt]['class'] = 'ProbeGhost'
    elif f == 'bad_param':
        p[tgt]['ghost_param'] = 1
    elif f == 'declared_output':
        p[tgt]['outputs'] = ['out', 'ghost']
    elif f == 'bad_type':
        inp[k] = 3
    elif f == 'two_on_single':
        inp['in_a'] = ['obj0.out', 'obj0.out']
    elif f == 'wrong_type':
        p['pup'] = {'class': 'ProbeLayer', 'outputs': ['out']}
        inp['in_b'] = 'pup.out'
    with Scratch() as d:
        fn = os.path.join(d, 'p.yml')
        with open(fn, 'w') as fh:
            yaml.safe_dump(p, fh, sort_keys=False)
        s = Simul(fn, speed_report=False)
        raises(s.run, f'wiring fault {f!r}')
    for o in s.objs.values():
        check(len(getattr(o, 'trace', [])) == 0, f'components ran although the wiring fault {f!r} was refused')
    return f
