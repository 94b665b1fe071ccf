"""C04 - parameters reach the objects they name, as the objects and files they refer to."""
import os
from vlib.core import *
specula_init()
import yaml
from astropy.io import fits
from specula.simul import Simul
from specula.calib_manager import CalibManager
from specula.data_objects.intmat import Intmat
from specula.data_objects.recmat import Recmat
from specula.data_objects.m2c import M2C
from specula.data_objects.ifunc import IFunc
from vprobes.probe_refs import ProbeRefs

CHECK = Check('C04', 'references', assumptions=['CPU, one process; reference cycles between parameters are not generated'])

NAMES = ['alpha', 'beta', 'Gamma', 'd_ref', 'e1', 'zeta_2', 'eta', 'theta']
TAGS = ['t0', 'a.b', 'x_y', 'deep-1']
# where each kind of calibration data lives under root_dir
DIRS = {'intmat': 'im', 'recmat': 'rec', 'm2c': 'm2c', 'ifunc': 'ifunc', 'data': 'data'}


def content(kind, tag):
    rng = rng_of(sum(ord(ch) * (i + 1) for i, ch in enumerate(kind + '/' + tag)))
    return rng.normal(size=(3, 4)).astype(DT)


def write_tree(root):
    for k, sub in DIRS.items():
        os.makedirs(os.path.join(root, sub))
        for t in TAGS:
            f = os.path.join(root, sub, t + '.fits')
            a = content(k, t)
            if k == 'intmat':
                Intmat(a).save(f)
            elif k == 'recmat':
                Recmat(a).save(f)
            elif k == 'm2c':
                M2C(a).save(f)
            elif k == 'ifunc':
                IFunc(a, mask=np.ones((2, 2), dtype=DT)).save(f)
            else:
                fits.writeto(f, a)


plain = st.one_of(st.integers(-5, 5), st.floats(-10, 10, width=32), st.text('abc/. ', max_size=5), st.booleans(), st.none(),
                  st.lists(st.integers(0, 9), max_size=3), st.dictionaries(st.sampled_from('pq'), st.integers(0, 3), max_size=2))


@st.composite
def systems(draw):
    names = draw(st.permutations(NAMES))[:draw(st.integers(1, 7))]
    objs = {}
    tag = st.sampled_from(TAGS)
    for i, n in enumerate(names):
        earlier = names[:i]
        if draw(st.integers(0, 4)) == 0:
            objs[n] = {'kind': draw(st.sampled_from(['Intmat', 'Recmat', 'M2C', 'IFunc'])), 'tag': draw(tag)}
            continue
        p = {}
        for key in draw(st.lists(st.sampled_from(
                ['number', 'word', 'items', 'one_ref', 'some_list_ref', 'some_dict_ref', 'arr_data', 'intmat_object',
                 'recmat_object', 'm2c_object', 'ifunc_object', 'rec_list_object', 'im_dict_object', 'plain_ref',
                 'plain_object', 'arr']), unique=True, max_size=8)):
            if key in ('number', 'word', 'items'):
                p[key] = draw(plain)
            elif key in ('plain_ref', 'plain_object'):
                # the class really has a parameter with this name: the text is passed as it is
                p[key] = draw(st.sampled_from(earlier)) if key == 'plain_ref' and earlier else 't0'
                if key == 'plain_ref' and not earlier:
                    del p[key]
            elif key == 'arr':
                if 'arr_data' not in p:
                    p[key] = draw(plain)
            elif key == 'one_ref':
                if earlier:
                    p[key] = draw(st.sampled_from(earlier))
            elif key in ('some_list_ref', 'some_dict_ref'):
                if earlier:
                    p[key] = draw(st.lists(st.sampled_from(earlier), max_size=4, unique=True))
            elif key == 'arr_data':
                if 'arr' not in p:
                    p[key] = draw(st.one_of(tag, st.none()))
            elif key == 'rec_list_object':
                p[key] = draw(st.one_of(st.none(), st.lists(tag, max_size=3)))
            elif key == 'im_dict_object':
                p[key] = draw(st.one_of(st.none(), st.dictionaries(st.sampled_from(['u', 'v', 'w w']), tag, max_size=3)))
            else:
                p[key] = draw(st.one_of(tag, st.none()))
        objs[n] = {'kind': 'ProbeRefs', 'par': p}
    order = list(draw(st.permutations(names)))
    return {'objs': objs, 'order': order, 'main': draw(st.integers(0, len(names))), 'ext': draw(st.booleans())}


def file_of(case, root, edit=None):
    p = {}
    for i, n in enumerate(case['order']):
        if i == case['main']:
            p['main'] = {'class': 'SimulParams', 'root_dir': root, 'add_modules': ['vprobes']}
        o = case['objs'][n]
        if o['kind'] == 'ProbeRefs':
            p[n] = {'class': 'ProbeRefs', **o['par']}
        else:
            p[n] = {'class': o['kind'], 'tag': o['tag'] + ('.fits' if case.get('ext') else '')}
    p.setdefault('main', {'class': 'SimulParams', 'root_dir': root, 'add_modules': ['vprobes']})
    if edit:
        edit(p)
    f = os.path.join(root, 'par.yml')
    with open(f, 'w') as fh:
        yaml.safe_dump(p, fh, sort_keys=False)
    return f


class Built(Exception):
    pass


def build(f):
    s = Simul(f)
    s.build_objects(yaml.safe_load(open(f)))
    return s.objs


VALUE = {'intmat': 'intmat', 'recmat': 'recmat', 'm2c': 'm2c', 'ifunc': 'influence_function'}


def loaded(obj, cls, kind, tag, what):
    check(type(obj) is cls, f'{what}: got a {type(obj).__name__}')
    same(getattr(obj, VALUE[kind]), content(kind, tag), f'{what} (tag {tag})')
    check(obj.tag == tag, f'{what}: tag {obj.tag!r}, expected {tag!r}')


CLS = {'intmat': Intmat, 'recmat': Recmat, 'm2c': M2C, 'ifunc': IFunc}


@CHECK.family(systems(), 220, 5000, rule='files of 1..7 objects in any order with references, lists and dictionaries of '
              'references, arrays and data objects by tag; non-trivial = at least one reference or tag')
def resolved(case):
    with Scratch() as root:
        write_tree(root)
        objs = build(file_of(case, root))
        n = 0
        check(set(objs) == set(case['objs']) | {'main'}, f'objects built: {sorted(objs)}')
        for name, o in case['objs'].items():
            ob = objs[name]
            check(ob.name == name, f'{name} is called {ob.name!r}')
            if o['kind'] != 'ProbeRefs':
                k = o['kind'].lower()
                same(getattr(ob, VALUE[k]), content(k, o['tag']), f'{name} loaded by tag')
                check(type(ob) is CLS[k], f'{name}: {type(ob)}')
                n += 1
                continue
            got = dict(ob.got)
            for key, v in o['par'].items():
                if key in ('number', 'word', 'items', 'arr', 'plain_ref', 'plain_object'):
                    g = got.pop(key)
                    check(g == v and type(g) is type(v), f'{name}.{key}: {g!r}, expected {v!r}')
                    continue
                n += 1
                if key == 'one_ref':
                    check(got.pop('one') is objs[v], f'{name}.{key} is not {v}')
                elif key == 'some_list_ref':
                    g = got.pop('some_list')
                    check(type(g) is list and len(g) == len(v) and all(a is objs[b] for a, b in zip(g, v)), f'{name}.{key}')
                elif key == 'some_dict_ref':
                    g = got.pop('some_dict')
                    check(type(g) is dict and list(g) == v and all(g[b] is objs[b] for b in v), f'{name}.{key}: {list(g)} vs {v}')
                elif key == 'arr_data':
                    g = got.pop('arr')
                    if v is None:
                        check(g is None, f'{name}.{key}: {g!r}')
                    else:
                        same(g, content('data', v), f'{name}.{key}')
                elif key == 'rec_list_object':
                    g = got.pop('rec_list')
                    if v is None:
                        check(g is None, f'{name}.{key}')
                    else:
                        check(len(g) == len(v), f'{name}.{key}: {len(g)} objects')
                        for a, t in zip(g, v):
                            loaded(a, Recmat, 'recmat', t, f'{name}.{key}')
                elif key == 'im_dict_object':
                    g = got.pop('im_dict')
                    if v is None:
                        check(g is None, f'{name}.{key}')
                    else:
                        check(list(g) == list(v), f'{name}.{key}: {list(g)}')
                        for kk, t in v.items():
                            loaded(g[kk], Intmat, 'intmat', t, f'{name}.{key}')
                else:
                    kk = key[:-7]
                    g = got.pop(kk)
                    if v is None:
                        check(g is None, f'{name}.{key}')
                    else:
                        loaded(g, CLS[kk], kk, v, f'{name}.{key}')
            for key, g in got.items():
                d = {'number': 1.5, 'word': 'w', 'plain_ref': 'untouched', 'plain_object': 'untouched'}.get(key)
                check(g == d, f'{name}.{key} was not given, yet it is {g!r}')
        return n > 0


@CHECK.family(st.tuples(systems(), st.sampled_from(['unknown_par', 'unknown_suffix', 'missing_ref', 'missing_tag', 'missing_data',
                                                    'list_not_list', 'dict_not_dict', 'unknown_class', 'no_class',
                                                    'tag_and_more', 'listobj_not_list', 'missing_in_list']),
                        st.integers(0, 6)), 220, 4000, rule='the same files with one contradiction, which must be refused')
def refused(c):
    case, fault, at = c
    probes = [n for n, o in case['objs'].items() if o['kind'] == 'ProbeRefs']
    if not probes:
        case['objs']['zz'] = {'kind': 'ProbeRefs', 'par': {}}
        case['order'].append('zz')
        probes = ['zz']
    x = probes[at % len(probes)]

    def edit(p):
        o = p[x]
        if fault == 'unknown_par':
            o['numbr'] = 3
        elif fault == 'unknown_suffix':
            o['wordy_object'] = 't0'
        elif fault == 'missing_ref':
            o['one_ref'] = 'nobody'
        elif fault == 'missing_in_list':
            o['some_list_ref'] = ['nobody']
        elif fault == 'missing_tag':
            o['recmat_object'] = 'no_such_tag'
        elif fault == 'missing_data':
            o.pop('arr', None)
            o['arr_data'] = 'no_such_tag'
        elif fault == 'list_not_list':
            p['oth'] = {'class': 'ProbeRefs'}
            o['some_list_ref'] = 'oth'
        elif fault == 'dict_not_dict':
            o['im_dict_object'] = ['t0']
        elif fault == 'listobj_not_list':
            o['rec_list_object'] = 't0'
        elif fault == 'unknown_class':
            o['class'] = 'NoSuchClass'
        elif fault == 'no_class':
            del o['class']
        else:
            p['oth'] = {'class': 'Recmat', 'tag': 't0', 'norm_factor': 2.0}
    with Scratch() as root:
        write_tree(root)
        f = file_of(case, root)
        build(f)                       # valid before the fault
        f = file_of(case, root, edit)
        raises(lambda: build(f), fault)
    return fault


@CHECK.family(st.fixed_dictionaries({'kind': st.sampled_from(sorted(DIRS)), 'names': st.lists(
    st.text('abcXYZ019_-.', min_size=1, max_size=8).filter(lambda t: t.strip('.') and not t.startswith('.')), min_size=1, max_size=5, unique=True),
    'seed': st.integers(0, 2**31), 'sub': st.booleans()}), 120, 3000,
    rule='arrays written to and read back from the calibration tree under several names')
def calibration_tree(c):
    # two names that differ by the extension alone are the same file
    names = {}
    for n in c['names']:
        names[n if n.endswith('.fits') else n + '.fits'] = n
    with Scratch() as root:
        cm = CalibManager(root)
        os.makedirs(os.path.join(root, DIRS[c['kind']]))
        rng = rng_of(c['seed'])
        store = {}
        for n in names.values():
            store[n] = rng.normal(size=tuple(rng.integers(1, 4, size=2)))
            cm.writefits(c['kind'], n, store[n])
        for n, a in store.items():
            same(cm.readfits(c['kind'], n), a, f'{c["kind"]}/{n}')
            same(cm.readfits(c['kind'], n if n.endswith('.fits') else n + '.fits'), a, f'{c["kind"]}/{n}.fits')
        # writing again replaces
        n = next(iter(store))
        cm.writefits(c['kind'], n, store[n] + 1)
        same(cm.readfits(c['kind'], n), store[n] + 1, 'rewritten')
        for m, a in store.items():
            if m != n:
                same(cm.readfits(c['kind'], m), a, f'{m} after rewriting {n}')
        check(set(os.listdir(os.path.join(root, DIRS[c['kind']]))) == set(names), 'files in the calibration tree')
        raises(lambda: cm.readfits(c['kind'], 'no_such_name'), 'reading a missing file')
    return len(store) > 1
