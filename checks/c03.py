"""C03 - composition of parameter files: additions, overrides, removals, indexed variants, command-line overrides."""
import json, re
import copy
import os
from vlib.core import *
specula_init()
import yaml
from specula.simul import Simul
from checks.c01 import wirings, params_of
from checks.wiring_model import interpret

CHECK = Check('C03', 'composition', scale=1.5)


@st.composite
def compositions(draw):
    w = draw(wirings())
    n = len(w['nodes'])
    idx = draw(st.integers(0, 3))
    base = params_of(w)
    kinds = {f'obj{i}': nd['kind'] for i, nd in enumerate(w['nodes'])}
    files = []
    alive = set(kinds)
    nxt = n
    mk_idx = st.sampled_from([None, None, idx, idx, (idx + 1) % 4, 10 + idx])
    for _ in range(draw(st.integers(1, 2))):
        ops = []
        used = set()
        for _ in range(draw(st.integers(1, 4))):
            kind = draw(st.sampled_from(['override', 'override', 'remove', 'add', 'inputs']))
            at = draw(mk_idx)
            active = at is None or at == idx
            if kind == 'add':
                name = f'obj{nxt}'
                srcs = sorted((k for k in alive if k in kinds), key=lambda k: int(k[3:]))
                if not srcs:
                    continue
                val = {'class': 'ProbeNode', 'ident': nxt, 'inputs': {'in_list': [draw(st.sampled_from(srcs)) + '.out']},
                       'outputs': ['out']}
                nxt += 1
                if active:
                    alive.add(name)
                    kinds[name] = 'node'
                key = name
            elif kind == 'remove':
                names = draw(st.lists(st.sampled_from(sorted(alive)), min_size=1, max_size=2, unique=True)) if alive else []
                if len(alive) - len(names) < 1 or not names:
                    continue
                key, val = 'remove', names
                if (key, at) in used or any(u[0] == 'remove' for u in used):
                    continue
                if active:
                    alive -= set(names)
            else:
                if not alive:
                    continue
                name = draw(st.sampled_from(sorted(alive)))
                key = name + '_override'
                if any(u[0] == key for u in used):
                    continue
                if kinds[name] == 'src':
                    val = draw(st.fixed_dictionaries({}, optional={'period': st.integers(1, 4), 'phase': st.integers(0, 3),
                                                                   'ident': st.integers(0, 50)}))
                elif kind == 'inputs':
                    earlier = [k for k in sorted(alive) if int(k[3:]) < int(name[3:])]
                    if not earlier:
                        continue
                    val = {'inputs': {draw(st.sampled_from(['in_a', 'in_b'])): draw(st.sampled_from(earlier)) + '.out'}}
                else:
                    val = draw(st.fixed_dictionaries({}, optional={'mute_period': st.integers(0, 3), 'ident': st.integers(0, 50)}))
            used.add((key, at))
            ops.append([key, at, val])
        files.append(ops)
    cli = []
    for _ in range(draw(st.integers(0, 2))):
        if not alive:
            break
        name = draw(st.sampled_from(sorted(alive)))
        cli.append([name + '.ident', draw(st.integers(0, 50))])
    case = {'base': base, 'files': files, 'cli': cli, 'idx': idx, 'steps': w['steps'], 'dt_ns': w['dt_ns'],
            'fault': draw(st.sampled_from([None] * 6 + ['override', 'remove', 'dup', 'cli']))}
    if draw(st.booleans()):
        # names which begin with one another
        case = json.loads(re.sub(r'obj(\d+)', lambda m: 'obj' + '1' * (int(m[1]) + 1), json.dumps(case)))
    return case


def compose(case):
    """The documented meaning, independently."""
    p = copy.deepcopy(case['base'])
    for ops in case['files']:
        for key, at, val in ops:
            if at is not None and at != case['idx']:
                continue
            if key == 'remove':
                for nm in val:
                    del p[nm]
                for o in p.values():
                    for k, v in list(o.get('inputs', {}).items()):
                        if isinstance(v, list):
                            o['inputs'][k] = [x for x in v if x.split('.')[0] not in val]
                        elif v.split('.')[0] in val:
                            del o['inputs'][k]
            elif key.endswith('_override'):
                for k, v in val.items():
                    p[key[:-len('_override')]][k] = copy.deepcopy(v)
            else:
                p[key] = copy.deepcopy(val)
    for k, v in case['cli']:
        a, b = k.split('.')
        p[a][b] = v
    return p


def write(d, case, extra=None):
    fns = []
    allf = [case['base']]
    for ops in case['files']:
        allf.append({k if at is None else f'{k}_{at}': v for k, at, v in ops})
    if extra is not None:
        allf.append(extra)
    for i, f in enumerate(allf):
        fn = os.path.join(d, f'f{i}.yml')
        with open(fn, 'w') as fh:
            yaml.safe_dump(f, fh, sort_keys=False)
        fns.append(fn)
    return fns


@CHECK.family(compositions(), 500, 10000,
              rule='a base file and 1-2 additional files with additions, overrides (parameters and inputs), removals, each '
                   'plain or suffixed with a simulation index that does or does not match, plus command-line overrides; '
                   'the composed simulation is run and every component trace compared; one in four cases also injects '
                   'one bad reference that must be refused; non-trivial = at least one active operation')
def composed_simulation(case):
    want = compose(case)
    traces, final, _ = interpret(want, case['steps'], case['dt_ns'])
    cli = yaml.safe_dump({k: v for k, v in case['cli']}) if case['cli'] else None
    with Scratch() as d:
        s = Simul(*write(d, case), simul_idx=case['idx'], overrides=cli, speed_report=False)
        s.run()
        got = {k for k in s.objs if k.startswith('obj')}
        exp = {k for k in want if k.startswith('obj')}
        check(got == exp, f'components {sorted(got)} built, expected {sorted(exp)}')
        for k in exp:
            o = s.objs[k]
            for par in ('ident', 'period', 'phase', 'mute_period'):
                if par in want[k]:
                    check(getattr(o, par) == want[k][par], f'{k}.{par} = {getattr(o, par)}, expected {want[k][par]}')
            tr = [int(t) for t, _ in o.trace] if want[k]['class'] == 'ProbeSource' else [(int(t), v) for t, v in o.trace]
            check(tr == traces[k], f'{k}: trace {tr[:4]} expected {traces[k][:4]}')
            check(float(o.out.value) == final[k], f'{k}: final output {o.out.value}, expected {final[k]}')
        f = case['fault']
        if f:
            bad = {'override': {'ghost_override': {'ident': 1}}, 'remove': {'remove': ['ghost']},
                   'dup': {sorted(exp)[0]: dict(want[sorted(exp)[0]])}, 'cli': None}[f]
            with Scratch() as d2:
                fns = write(d2, case, bad)
                c = cli if f != 'cli' else 'a.b.c.d: 1\n'
                s2 = Simul(*fns, simul_idx=case['idx'], overrides=c, speed_report=False)
                raises(s2.run, f'composition fault {f!r}')
    labs = [k if at is None else k.split('_')[-1] + ('_match' if at == case['idx'] else '_other')
            for ops in case['files'] for k, at, _ in ops]
    labs = ['remove' if 'remove' in x else 'override' if 'override' in x else 'add' if x.startswith('obj') and '_' not in x
            else x for x in labs]
    return (labs + ([f'fault_{case["fault"]}'] if case['fault'] else [])) or 'trivial'
