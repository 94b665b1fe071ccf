"""Independent interpreter of a parameter dictionary made of probe components (used by C01's siblings)."""


def refs(x):
    """[(producer, delayed)] of one input definition."""
    out = []
    for s in (x if isinstance(x, list) else [x]):
        name, _, delay = s.partition(':')
        out.append((name.split('.')[0], delay != ''))
    return out


def interpret(params, steps, dt):
    """params: {objN: {...}} in any order; N increasing is a valid execution order by construction.
    Returns ({name: trace}, {name: final value}, {name: [(t, value)] of every refresh})."""
    objs = {k: v for k, v in params.items() if v['class'] in ('ProbeSource', 'ProbeNode')}
    order = sorted(objs, key=lambda k: int(k[3:]))
    cur = {k: 0.0 for k in order}
    runs = {k: 0 for k in order}
    traces = {k: [] for k in order}
    outs = {k: [] for k in order}
    for k in range(steps):
        prev, fresh = dict(cur), set()
        for name in order:
            p = objs[name]
            if p['class'] == 'ProbeSource':
                traces[name].append(k * dt)
                if k % p['period'] == p['phase'] % p['period']:
                    cur[name] = float((p['ident'] * 101 + k * 13 + 1) % 9973)
                    fresh.add(name)
                    outs[name].append((k * dt, cur[name]))
                continue
            inp = p.get('inputs', {})
            slots = []
            for key in ('in_a', 'in_b'):
                r = refs(inp[key]) if inp.get(key) else []
                slots.append(r[0] if r else None)
            slots += refs(inp['in_list']) if inp.get('in_list') else []
            if not any(s and not s[1] and s[0] in fresh for s in slots):
                continue
            seen = [None if s is None else (prev if s[1] else cur)[s[0]] for s in slots]
            traces[name].append((k * dt, seen))
            runs[name] += 1
            if p.get('mute_period') and runs[name] % p['mute_period'] == 0:
                continue
            v = p['ident'] * 7 + 1
            for j, x in enumerate(seen):
                if x is not None:
                    v += (j + 2) * x
            cur[name] = float(int(v) % 9973)
            fresh.add(name)
            outs[name].append((k * dt, cur[name]))
    return traces, cur, outs
