"""Smaller variants of a case, coarse steps first."""
import copy


def reductions(case):
    c = case
    for f in (schedules, faults, processes, steps, mesh, conditions, features, outputs, cuts):
        yield from f(c)


def with_(case, fn):
    d = copy.deepcopy(case)
    return d if fn(d) is not False else None


def _emit(case, fn):
    d = with_(case, fn)
    if d is not None and d != case:
        yield d


SCHED_KEYS = ('sched', 'sched2')


def schedules(case):
    for sk in SCHED_KEYS:
        s = case.get(sk)
        if not isinstance(s, dict):
            continue
        if len(s) > 1:
            yield from _emit(case, lambda d: d[sk].clear() or d[sk].update(seed=1))
            for k in list(s):
                if k != 'seed':
                    yield from _emit(case, lambda d: d[sk].pop(k))
        if s.get('seed') not in (1, 2, 3):
            for q in (1, 2, 3):
                yield from _emit(case, lambda d: d[sk].update(seed=q))


def cuts(case):
    """the shortest prefix of random scheduling decisions that still fails"""
    for sk in SCHED_KEYS:
        s = case.get(sk)
        if not isinstance(s, dict) or len(s) < 2:
            continue
        c = s.get('cut')
        if c is None:
            for q in (0, 10, 100, 1000, 10000, 100000):
                yield from _emit(case, lambda d: d[sk].update(cut=q))
        else:
            for q in (c // 2, c * 3 // 4, c * 7 // 8, c - 1):
                if 0 <= q < c:
                    yield from _emit(case, lambda d: d[sk].update(cut=q))


def faults(case):
    f = case.get('faults')
    if isinstance(f, list) and len(f) > 1:
        for i in range(len(f)):
            yield from _emit(case, lambda d: d['faults'].pop(i))


def processes(case):
    np = case.get('np')
    if isinstance(np, int):
        for q in sorted({2, 3, np // 2, np - 1}):
            if 2 <= q < np:
                yield from _emit(case, lambda d: d.update(np=q))


def steps(case):
    i = case.get('scen', {}).get('info', {})
    if i.get('solver') not in ('verlet', 'implicit') or 'jobs' in case or 'Solver' not in case['scen']['deck'] or i.get('own_step'):
        return
    n = i['nsteps']
    for q in sorted({1, 2, n // 2, n - 1}):
        if 1 <= q < n:
            yield from _emit(case, lambda d: set_steps(d['scen'], q))


def set_steps(scen, n):
    i = scen['info']
    i['nsteps'] = n
    scen['deck']['Solver']['Final Time'] = i['t0'] + n * i['dt']
    if 'times' in i:
        i['times'] = i['times'][:n + 1]


def entry(bc, name):
    """the name of a node set as the deck spells it"""
    tidy = lambda s: s.strip().upper().replace(' ', '_')
    return next((k for k, v in bc.items() if not isinstance(v, dict) and tidy(k) == tidy(name)), name)


def keep_points(scen, keep):
    """drops all points but those of `keep` (0-based, increasing)"""
    i = scen['info']
    pts = scen['mesh']['pts']
    new = {o: k for k, o in enumerate(keep)}
    blocks = set(pts[o][3] for o in keep)
    if blocks != set(p[3] for p in pts):
        return False
    scen['mesh']['pts'] = [pts[o] for o in keep]
    i['n'] = len(keep)
    bc = scen['deck'].get('Boundary Conditions', {})
    for name, ids in i.get('sets', {}).items():
        m = [new[o] for o in ids if o in new]
        if not m:
            return False
        i['sets'][name] = m
        name = entry(bc, name)
        scen['files'].pop(bc.get(name), None)
        bc[name] = ' '.join(str(q + 1) for q in m)


def mesh(case):
    scen = case.get('scen')
    if not scen or scen.get('mesh', {}).get('kind') != 'text' or case.get('fixed_mesh'):
        return
    n = len(scen['mesh']['pts'])
    parts = 2
    while parts <= 8 and n // parts >= 1:
        w = max(1, n // parts)
        for a in range(0, n, w):
            keep = [i for i in range(n) if not a <= i < a + w]
            if keep:
                yield from _emit(case, lambda d: keep_points(d['scen'], keep))
        parts *= 2
    if n <= 16:
        for a in range(n):
            yield from _emit(case, lambda d: keep_points(d['scen'], [i for i in range(n) if i != a]))


def conditions(case):
    scen = case.get('scen')
    if not scen:
        return
    bcs = scen.get('info', {}).get('bcs', [])
    for k in range(len(bcs)):
        def drop(d):
            s = d['scen']
            deck_bc = s['deck']['Boundary Conditions']
            names = [n for n, v in deck_bc.items() if isinstance(v, dict)]
            if len(names) != len(bcs):
                return False
            del deck_bc[names[k]]
            s['info']['bcs'].pop(k)
        yield from _emit(case, drop)
    used = set(b['set'] for b in bcs)
    for name in scen.get('info', {}).get('sets', {}):
        if name not in used:
            def drop_set(d):
                s = d['scen']
                s['info']['sets'].pop(name)
                bc = s['deck']['Boundary Conditions']
                v = bc.pop(entry(bc, name))
                s['files'].pop(v, None)
            yield from _emit(case, drop_set)


def features(case):
    scen = case.get('scen')
    if not scen:
        return
    dk = scen['deck']
    for k in ('Contact', 'Damage Models'):
        if k in dk:
            def drop(d):
                s = d['scen']
                s['deck'].pop(k)
                if k == 'Contact':
                    s['info'].pop('contact', None)
                else:
                    s['info'].pop('damage', None)
                    for b in s['deck']['Blocks'].values():
                        b.pop('Damage Model', None)
                drop_vars(s, lambda v: v.startswith('Contact_Force') if k == 'Contact' else v == 'Damage')
            yield from _emit(case, drop)
    di = dk.get('Discretization', {})
    for k in ('Bond Filters', 'Omit Bonds Between Blocks', 'Influence Function'):
        if k in di:
            def drop2(d):
                d['scen']['deck']['Discretization'].pop(k)
                d['scen']['info'].pop({'Bond Filters': 'filters', 'Omit Bonds Between Blocks': 'omit'}.get(k, k), None)
            yield from _emit(case, drop2)


def out_lists(scen):
    return [v for k, v in scen['deck'].items() if k.startswith('Output') and isinstance(v, dict)]


def drop_vars(s, pred):
    for o in out_lists(s):
        for v in list(o['Output Variables']):
            if pred(v):
                del o['Output Variables'][v]
    for o in s['info'].get('outputs', []):
        o['vars'] = [v for v in o['vars'] if not pred(v)]


def outputs(case):
    scen = case.get('scen')
    if not scen or case.get('fixed_output'):
        return
    ol = out_lists(scen)
    vs = []
    for o in ol:
        for v in o['Output Variables']:
            if v not in vs:
                vs.append(v)
    if len(vs) > 4:
        for half in (vs[len(vs) // 2:], vs[:len(vs) // 2]):
            yield from _emit(case, lambda d: drop_vars(d['scen'], lambda v: v in half))
    if len(vs) > 1:
        for q in vs:
            yield from _emit(case, lambda d: drop_vars(d['scen'], lambda v: v == q))
