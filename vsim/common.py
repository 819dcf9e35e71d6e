"""Pieces shared by the checks."""
import json, os, random, re
from . import gen, results, machine
from .frame import Skip, Violation, launch


def plain(x):
    return json.loads(json.dumps(x))


def ranks(rng, n, most=6):
    """process count: small ones often, sometimes more processes than is comfortable"""
    np = rng.choice([2, 2, 3, 3, 4, 4, 5, 6, 7, 8][:most + 2] if most < 8 else [2, 2, 3, 3, 4, 4, 5, 6, 7, 8])
    if n < 14 and rng.random() < 0.25:  # some processes end up without points
        return np if rng.random() < 0.5 else min(most + 3, n + rng.choice([1, 1, 2, 4]))
    return max(2, min(np, max(2, n // 2)))


def bases(scen):
    return [o['file'] for o in scen['info']['outputs']]


def load(job, scen, np, base=None):
    return results.Results(job.d, base or bases(scen)[0], np)


def facts(M, case):
    i = case['scen']['info']
    f = M.facts
    f['np=%d' % case.get('np', 1)] += 1
    for m in set(i.get('material', {}).values()):
        f['material ' + m] += 1
    f['solver ' + i['solver']] += 1
    for k in ('damage',):
        if i.get(k):
            f['%s %s' % (k, i[k])] += 1
    for k in ('contact', 'thermal', 'filters', 'omit'):
        if i.get(k):
            f[k] += 1
    f['mesh ' + case['scen']['mesh']['kind']] += 1


def finite(R, names=('Displacement', 'Velocity'), big=1e3):
    """are the results sane numbers (the problem did not blow up)"""
    span = R.times[-1] - R.times[0]
    for n in R.names:
        if n.startswith(names):
            most = big * (max(1.0, 0.1 / span) if n.startswith('Velocity') and span > 0 else 1.0)
            for v in R.get(n, R.nt - 1).values():
                if not abs(v) < most:
                    return False
    return True


def tree(d):
    """regular files below d: relative name -> path"""
    out = {}
    for top, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(top, f)
            out[os.path.relpath(p, d)] = p
    return out


def brief(job):
    """the error text of a failed job, without timings and addresses"""
    t = job.text().replace('\b', '')
    i = t.find('evaluated to true')
    if i < 0:
        i = t.find('rror')
    return re.sub(r'\s+', ' ', t[max(0, i):i + 300]) if i >= 0 else ''


ROBUST_STATE = ['Elastic', 'Elastic', 'Elastic Plastic', 'Elastic Plastic Hardening', 'Viscoelastic', 'Elastic Bond Based', 'Linear LPS Partial Volume']
ROBUST_CORR = ['Elastic Correspondence', 'Elastic Correspondence', 'Elastic Plastic Correspondence', 'Isotropic Hardening Correspondence']


def any_scenario(rng, robust=False, statics=True, fast=0.15, fields=0.0, **kw):
    """a random problem of any kind; robust leaves out material combinations that may legitimately refuse to run;
    fields is the share of problems with another unknown than the displacement or a time step chosen by the program"""
    if rng.random() < fields:
        if rng.random() < 0.4:
            return gen.own_step(rng, any_scenario(rng, robust, False, 0.0, **kw))
        return rng.choice([lambda: gen.diffusion(rng, True), lambda: gen.porous(rng, 'verlet'), lambda: gen.porous(rng, 'qs')])()
    u = rng.random()
    if u < 0.72 or not statics:
        solver = 'verlet'
    elif u < 0.86:
        solver = 'implicit'
    elif u < 0.96:
        solver = 'qs'
    else:
        solver = 'nox'
    kw.setdefault('contact', solver == 'verlet' and rng.random() < 0.3)
    if robust:
        kw['materials'] = ROBUST_CORR if rng.random() < 0.25 else ROBUST_STATE
    if solver in ('qs', 'nox'):
        kw.update(damage=False, filters=False, flat=False)
        kw['materials'] = rng.choice([['Elastic'], ['Elastic', 'Viscoelastic'], ['Elastic Correspondence'], ['Linear LPS Partial Volume'], ['Elastic Bond Based'], ['Elastic Plastic']])
    elif solver == 'implicit':
        kw['materials'] = rng.choice([['Elastic'], ['Elastic', 'Viscoelastic', 'Elastic Plastic'], ['Elastic Correspondence'], ['Linear LPS Partial Volume'], ['Elastic Bond Based']])
    if solver == 'nox':
        kw['materials'] = [['Elastic'], ['Elastic'], ['Elastic Correspondence']][rng.randrange(3)]
    if solver == 'verlet' and not robust and not set(kw) & {'damage', 'materials'} and rng.random() < 0.04:
        kw.update(damage=rng.choice(['Von Mises Stress', 'Johnson Cook']), materials=['Elastic Plastic Hypoelastic Correspondence', 'Isotropic Hardening Hypoelastic Correspondence'])
    scen = gen.scenario(rng, solver=solver, **kw)
    if solver == 'verlet' and rng.random() < fast:
        gen.hasten(scen, 2.0 ** -rng.choice([10, 20, 24, 30]))
    return scen


def vary_outputs(rng, scen):
    """sometimes one result file holds global values only, or starts late or ends early"""
    outs = scen['info']['outputs']
    k = rng.randrange(len(outs))
    d = scen['deck'].get('Output' if len(outs) == 1 else 'Output %d' % k)
    if d is None or scen['info'].get('porous'):
        return
    u = rng.random()
    if u < 0.15:
        vs = [v for v in ('Global_Kinetic_Energy', 'Global_Linear_Momentum', 'Global_Angular_Momentum') if rng.random() < 0.6] or ['Global_Kinetic_Energy']
        outs[k]['vars'] = vs
        d['Output Variables'] = {v: True for v in vs}
    elif u < 0.25:
        d['Initial Output Step'] = rng.randint(1, 4)
    elif u < 0.35:
        d['Final Output Step'] = rng.randint(1, 4)


def tolerances(scen):
    """roundoff tolerance (relative, absolute) for comparing runs of this problem on different partitions"""
    s = scen['info']['solver']
    if s == 'verlet':
        return 1e-9, 1e-11
    if s == 'implicit':
        return 1e-6, 1e-9
    return 1e-4, 1e-7


def out_steps(spec, nwrites):
    """output steps (0 = initial state) a specification asks for"""
    f, a, b = spec['freq'], spec.get('first', 1), spec.get('last', 10 ** 9)
    return [c - 1 for c in range(1, nwrites + 1) if a <= c <= b + 1 and f > 0 and (c - 1) % f == 0]


def step_times(info):
    """time of every output opportunity"""
    if 'times' in info:
        return list(info['times'])
    return [info['t0'] + k * info['dt'] for k in range(info['nsteps'] + 1)]


def close(a, b, rtol=1e-12, atol=1e-13):
    return abs(a - b) <= rtol * max(abs(a), abs(b)) + atol


def mesh_points(scen):
    """1-based id -> (x, y, z, block, volume)"""
    return {k + 1: tuple(p) for k, p in enumerate(scen['mesh']['pts'])}


def horizon_of(scen):
    """1-based id -> horizon"""
    i = scen['info']
    hz = i['horizon']
    fn = i.get('horizon_fn')
    out = {}
    for g, p in mesh_points(scen).items():
        e = fn.get(str(p[3])) if fn else None
        out[g] = gen.evaluate(e, p[0], p[1], p[2], 0.0) if e else hz[str(p[3])]
    return out


def set_variables(scen, vs, freq=None):
    """the same variables for every output specification"""
    for o in scen['info']['outputs']:
        o['vars'] = list(vs)
        if freq:
            o['freq'] = freq
    for k, v in scen['deck'].items():
        if k.startswith('Output') and isinstance(v, dict):
            v['Output Variables'] = {q: True for q in vs}
            if freq:
                v['Output Frequency'] = freq


def distance(p, q):
    return ((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 + (p[2] - q[2]) ** 2) ** 0.5


def pair_list(pts, cut):
    """all pairs i<j closer than cut, by cells; pts: id -> (x,y,z,...)"""
    cells = {}
    for g, p in pts.items():
        cells.setdefault((int(p[0] // cut), int(p[1] // cut), int(p[2] // cut)), []).append(g)
    out = []
    for (a, b, c), gs in cells.items():
        for da in (-1, 0, 1):
            for db in (-1, 0, 1):
                for dc in (-1, 0, 1):
                    for h in cells.get((a + da, b + db, c + dc), ()):
                        for g in gs:
                            if g < h and distance(pts[g], pts[h]) <= cut:
                                out.append((g, h))
    return sorted(out)


def unconverged(j):
    """the job ended in order because its nonlinear solver gave up"""
    t = j.text()
    return j.r['outcome'] in ('done', 'abort') and ('failed to converge' in t or 'NOX solver failed' in t)


def marginal(M, scen):
    """the one-process job needs more than half the iterations it is allowed, so rounding can decide whether it converges"""
    s = json.loads(json.dumps(scen))
    for k, v in s['deck']['Solver'].items():
        if isinstance(v, dict) and 'Maximum Solver Iterations' in v:
            v['Maximum Solver Iterations'] //= 2
    return launch(M, s).status != 0


def sensitive(M, scen, base=None):
    """whether the results on one process change by more than roundoff may when volumes and moduli change in the fourteenth
    digit: the problem then is so ill-conditioned that its results say nothing about the partition"""
    rt, at = tolerances(scen)
    try:
        A = load(launch(M, scen), scen, 1, base)
        for k in range(3):
            rng = random.Random(k)
            s = json.loads(json.dumps(scen))
            f = lambda: 1.0 + rng.uniform(-1e-14, 1e-14)
            if s['mesh']['kind'] == 'text':
                for q in s['mesh']['pts']:
                    q[4] *= f()
            for m in s['deck']['Materials'].values():
                for n in m:
                    if 'Modulus' in n and isinstance(m[n], float):
                        m[n] *= f()
            j = launch(M, s)
            if j.status != 0 or results.compare(A, load(j, s, 1, base), rtol=rt, atol=at):
                return True
    except results.Bad:
        pass
    return False
