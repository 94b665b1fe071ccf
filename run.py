"""run.py PROPERTY [quick|thorough] [--replay FILE] [--family NAME] [--serial]"""
import argparse, importlib, json, multiprocessing as mp, os, shutil, sys, tempfile, time, traceback

sys.dont_write_bytecode = True
SHRINK_LIMIT = 60.0    # seconds of shrinking after the first failing case
_SCR = tempfile.mkdtemp(prefix='verif_')
os.environ['VERIF_SCRATCH'] = _SCR
# compiled files: always from the current sources, never from a stale cache in the tree
sys.pycache_prefix = os.path.join(_SCR, 'pyc')
os.environ.setdefault('MPLCONFIGDIR', os.path.join(_SCR, 'mpl'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def quiet():
    """Silence what the code under test prints; keep the harness's own stdout."""
    real = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(dn, 1)
    if not os.environ.get('VERIF_LOUD'):
        os.dup2(dn, 2)
    return real


def worker(conn, chk, fam, seed, tier):
    from vlib import core
    try:
        quiet()
        d = tempfile.mkdtemp(prefix=fam.name[:12] + '_', dir=_SCR)
        os.environ['VERIF_SCRATCH'] = d
        os.environ['VERIF_NOTE'] = os.path.join(_SCR, 'note_' + fam.tag)
        os.chdir(d)
        rep = core.run_family(fam, seed, tier)
    except BaseException as e:
        rep = {'family': fam.name, 'rule': fam.rule, 'evaluations': 0, 'nontrivial': 0, 'labels': {}, 'skipped': 0,
               'samples': [], 'violation': None, 'error': ''.join(traceback.format_exception(type(e), e, e.__traceback__))}
    conn.send(json.dumps(rep, default=str))
    conn.close()
    os._exit(0)


def spawn(conn, prop, fam, tier):
    """Families in double precision need their own process (see core.PREC)."""
    import subprocess
    path = os.path.join(_SCR, 'rep_' + fam.tag)
    env = dict(os.environ, VERIF_PREC=str(fam.prec), VERIF_SCR=_SCR)
    r = subprocess.run([sys.executable, '-W', 'ignore', os.path.abspath(__file__), prop, tier, '--child', fam.name, '--shard', str(fam.shard),
                        '--report', path], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if os.path.exists(path):
        rep = json.load(open(path))
    else:
        rep = {'family': fam.name, 'rule': fam.rule, 'evaluations': 0, 'nontrivial': 0, 'labels': {}, 'skipped': 0,
               'samples': [], 'violation': None, 'error': f'child exit {r.returncode}: ' + r.stderr.decode()[-3000:]}
    conn.send(json.dumps(rep, default=str))
    conn.close()
    os._exit(0)


def merge(reps):
    """One report per family out of those of its processes."""
    out = {}
    for r in reps:
        o = out.setdefault(r['family'], r)
        if o is r:
            continue
        for k in ('evaluations', 'skipped'):
            o[k] += r[k]
        for k, v in r['labels'].items():
            o['labels'][k] = o['labels'].get(k, 0) + v
        o['digests'] = sorted(set(o.get('digests', ())) | set(r.get('digests', ())))
        o['nontrivial'] = len(o['digests'])
        o['samples'] = (o['samples'] + r['samples'])[:len(o['samples']) or 3]
        o['wall_s'] = round((o.get('wall_s') or 0) + (r.get('wall_s') or 0), 2)
        o['violation'] = o['violation'] or r['violation']
        o['error'] = o['error'] or r['error']
    return list(out.values())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--family')
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('--child')
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--report')
    a = ap.parse_args()
    if a.replay and 'VERIF_PREC' not in os.environ:
        r = json.load(open(a.replay))
        if r['family'].endswith('_double'):
            import subprocess
            return subprocess.call([sys.executable, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:],
                                   env=dict(os.environ, VERIF_PREC='0'))
    here = os.path.dirname(os.path.abspath(__file__))
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from vlib import core
    real_out = os.dup(1); real_err = os.dup(2)
    dn = os.open(os.devnull, os.O_WRONLY)
    loud = bool(os.environ.get('VERIF_LOUD'))
    if not loud:
        os.dup2(dn, 1)
    def out(msg):
        os.write(real_out, (msg + '\n').encode())
    try:
        mod = importlib.import_module('checks.' + a.prop.lower())
        chk = mod.CHECK
    except BaseException as e:
        # The package itself cannot be imported: no answer about the property, unless the
        # exception comes from the code under test (then the property cannot hold).
        out('HARNESS-ERROR while loading: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)))
        return 2
    fams = {f.name: f for f in chk.families}
    if a.child:
        f = fams[a.child].split()[a.shard]
        os.environ['VERIF_SCRATCH'] = d = tempfile.mkdtemp(prefix=f.name[:12] + '_', dir=_SCR)
        os.environ['VERIF_NOTE'] = os.path.join(os.environ['VERIF_SCR'], 'note_' + f.tag)
        os.chdir(d)
        rep = core.run_family(f, seed, tier)
        with open(a.report + '.tmp', 'w') as fh:
            json.dump(rep, fh, default=str)
        os.replace(a.report + '.tmp', a.report)
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        f = fams[r['family']]
        try:
            lab = core.run_case(f, r['case'])
        except core.Violation as v:
            out(f'VIOLATION property={chk.pid} replay={a.replay}')
            out('  ' + str(v))
            return 1
        out(f'replay passes: {lab}')
        return 0
    # families without cases only replay a known finding
    todo = [p for f in chk.families if (f.quick > 0 if not a.family else f.name == a.family) for p in f.split()]
    limit = float(os.environ.get('VERIF_LIMIT', '780' if tier == 'quick' else '21600'))
    jobs = 1 if a.serial else min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    reps, running, queue = [], [], sorted(todo, key=lambda f: -f.cost / f.shards)
    queue = list(queue)
    timed_out = []
    while queue or running:
        while queue and len(running) < jobs:
            f = queue.pop(0)
            pc, cc = ctx.Pipe(False)
            if f.prec != core.PREC:
                p = ctx.Process(target=spawn, args=(cc, a.prop, f, tier))
            else:
                p = ctx.Process(target=worker, args=(cc, chk, f, seed, tier))
            p.start(); cc.close()
            running.append((f, p, pc))
        for item in list(running):
            f, p, pc = item
            if pc.poll(0.02):
                try:
                    reps.append(json.loads(pc.recv()))
                except EOFError:
                    reps.append({'family': f.name, 'rule': f.rule, 'evaluations': 0, 'nontrivial': 0, 'labels': {},
                                 'skipped': 0, 'samples': [], 'violation': None,
                                 'error': f'worker died (exit {p.exitcode})'})
                p.join(); running.remove(item)
            elif not p.is_alive() and not pc.poll(0):
                reps.append({'family': f.name, 'rule': f.rule, 'evaluations': 0, 'nontrivial': 0, 'labels': {},
                             'skipped': 0, 'samples': [], 'violation': None,
                             'error': f'worker died (exit {p.exitcode})'})
                running.remove(item)
        over = time.time() - t0 > limit
        for item in list(running):
            f, p, pc = item
            note = os.path.join(_SCR, 'note_' + f.tag)
            try:
                shrinking = time.time() - os.path.getmtime(note + '.first')
            except OSError:
                shrinking = None
            if shrinking is not None and (over or shrinking > SHRINK_LIMIT):
                p.kill(); p.join(); running.remove(item)
                v = json.load(open(note))
                v['message'] += ' [shrinking stopped early]'
                reps.append({'family': f.name, 'rule': f.rule, 'evaluations': 1, 'nontrivial': 1, 'labels': {},
                             'skipped': 0, 'samples': [], 'violation': v, 'error': None})
            elif over:
                p.kill(); p.join(); running.remove(item); timed_out.append(f.name)
        if over:
            timed_out += [f.name for f in queue]
            queue = []
    order = {f.name: i for i, f in enumerate(chk.families)}
    reps = merge(reps)
    reps.sort(key=lambda r: order[r['family']])

    # known findings of this property, replayed from the committed list
    known = []
    kf = os.path.join(here, 'known_findings.json')
    if os.path.exists(kf):
        for e in json.load(open(kf)).get('findings', []):
            if e.get('property') == chk.pid:
                known.append(e)
    for e in known:
        f = fams[e['family']]
        if f.prec != core.PREC:
            continue
        try:
            core.run_case(f, e['case'])
        except core.Violation:
            out(f"KNOWN-FINDING: property={chk.pid} {e['what']}")
        except core.Skip:
            pass

    viol = [r for r in reps if r['violation']]
    errs = [r for r in reps if r['error']]
    if not a.family:
        ev = {'property': chk.pid, 'tier': 'thorough' if tier == 'thorough' else 'quick', 'seed': seed,
              'level': chk.level,
              'coverage': {
                  'evaluations': sum(r['evaluations'] for r in reps),
                  'distinct_nontrivial': sum(r['nontrivial'] for r in reps),
                  'rule': 'Cases drawn by Hypothesis per family; a case counts once (by content) and only when its '
                          'family calls it non-trivial. ' + ' | '.join(f"{r['family']}: {r['rule']}" for r in reps),
                  'samples': [{'family': r['family'], 'case': s} for r in reps for s in r['samples'][:2]],
                  'families': [{k: r.get(k) for k in ('family', 'evaluations', 'nontrivial', 'skipped', 'labels', 'wall_s')}
                               for r in reps],
              },
              'assumptions': chk.assumptions,
              'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
        os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
        with open(os.path.join(here, 'evidence', chk.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
    for r in reps:
        out(f"  {chk.pid}.{r['family']}: {r['evaluations']} cases, {r['nontrivial']} distinct non-trivial, "
            f"{r.get('wall_s')} s {r['labels'] or ''}")
    if viol:
        rd = os.path.join(here, 'replays')
        os.makedirs(rd, exist_ok=True)
        for r in viol:
            path = os.path.join(rd, f"{chk.pid}-{r['family']}.json")
            with open(path, 'w') as fh:
                json.dump({'property': chk.pid, 'family': r['family'], 'case': r['violation']['case'],
                           'message': r['violation']['message'], 'seed': seed}, fh, indent=1, default=str)
            out(f"VIOLATION property={chk.pid} replay={path}")
            out('  ' + r['violation']['message'])
    for r in errs:
        out(f"HARNESS-ERROR in {r['family']}:\n{r['error']}")
    if viol:
        return 1
    if errs or timed_out:
        if timed_out:
            out(f'INCONCLUSIVE: time budget reached in {timed_out}')
        return 3
    out(f"OK property={chk.pid} tier={tier} seed={seed} wall={time.time() - t0:.1f}s")
    return 0


if __name__ == '__main__':
    rc = 4
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
    finally:
        shutil.rmtree(_SCR, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
