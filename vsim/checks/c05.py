import copy, os
from .. import gen, results
from ..common import *
from ..frame import Check


def piece(scen, a, b, name, restart):
    """the job that takes steps a+1..b of the problem"""
    s = copy.deepcopy(scen)
    i, d = s['info'], s['deck']
    t = step_times(i)
    sol = d['Solver']
    sol['Initial Time'], sol['Final Time'] = t[a], t[b]
    for k, v in sol.items():
        if isinstance(v, dict) and ('Time Steps' in v or 'Number of Load Steps' in v):
            v.pop('Number of Load Steps', None)
            v['Time Steps'] = ' '.join('%r' % x for x in t[a:b + 1])
    if restart:
        d['Restart'] = restart
    for n, o in enumerate(i['outputs']):
        new = name + ('_%d' % n if n else '')
        for k, v in d.items():
            if k.startswith('Output') and isinstance(v, dict) and v.get('Output Filename') == o['file']:
                v['Output Filename'] = new
        o['file'] = new
    i.update(t0=t[a], nsteps=b - a)
    if 'times' in i:
        i['times'] = t[a:b + 1]
    return s


class C(Check):
    id = 'C05'
    rule = 'a case is a random problem run once in one job and once as 2-4 consecutive jobs that resume from each other, each under its own random schedule; every variable of every output time is compared'
    assumptions = ['the user gives every job its own result file name, the times of the steps it takes, and otherwise the same input', 'contact cases search for contacts in every step, otherwise the search would be done at other times']

    def case(self, rng, tier):
        u = rng.random()
        if u < 0.75:
            scen = any_scenario(rng, fast=0.35, statics=False, contact=rng.random() < 0.2)
        else:
            solver = 'implicit' if u < 0.87 else 'qs'
            kw = {'materials': rng.choice([['Elastic'], ['Elastic', 'Viscoelastic'], ['Elastic Correspondence'], ['Elastic Bond Based'], ['Elastic Plastic']])}
            if solver == 'qs':
                kw.update(damage=False, filters=False, flat=False)
            scen = gen.scenario(rng, solver=solver, contact=False, **kw)
        info, deck = scen['info'], scen['deck']
        for o in info['outputs']:
            o.pop('first', None)
            o.pop('last', None)
            o['freq'] = 1
        d = deck['Output']
        d.pop('Initial Output Step', None)
        d.pop('Final Output Step', None)
        d['Output Frequency'] = 1
        if 'Contact' in deck:
            deck['Contact']['Search Frequency'] = 1
        n = len(step_times(info)) - 1
        cuts = sorted(rng.sample(range(1, n), min(n - 1, rng.choice([1, 1, 2, 3])))) if n > 1 else []
        np = 1 if rng.random() < 0.2 else ranks(rng, info['n'])
        scheds = [gen.schedule(rng, calm=rng.random() < 0.5) for _ in range(len(cuts) + 2)]
        return plain({'scen': scen, 'np': np, 'cuts': cuts, 'scheds': scheds, 'jobs': 1, 'fixed_output': 1})

    def judge(self, M, case):
        scen, np = case['scen'], case['np']
        n = len(step_times(scen['info'])) - 1
        cuts = [c for c in case['cuts'] if 0 < c < n]
        if not cuts:
            raise Skip('too few steps to split')
        a = launch(M, piece(scen, 0, n, 'whole', None), np, case['scheds'][0])
        if a.status != 0:
            raise Skip('job fails')
        facts(M, case)
        W = results.Results(a.d, 'whole', np)
        if not finite(W):
            raise Skip('problem blows up')
        rtol, atol = tolerances(scen)
        if scen['info']['solver'] == 'verlet' and 'Contact' not in scen['deck']:
            rtol, atol = 0.0, 0.0
        d = None
        lim = [0] + cuts + [n]
        for k in range(len(lim) - 1):
            p, q = lim[k], lim[k + 1]
            j = launch(M, piece(scen, p, q, 'part%d' % k, True), np, case['scheds'][(k + 1) % len(case['scheds'])], d=d)
            d = j.d
            if j.status != 0 and scen['info']['solver'] != 'verlet' and unconverged(j):
                raise Skip('resumed solver does not converge')  # it starts from another predictor
            if j.status != 0:
                return Violation('resume', 'job %d (steps %d to %d) does not run: %s %s' % (k + 1, p, q, j.describe(), brief(j)))
            R = results.Results(j.d, 'part%d' % k, np)
            if R.nt != q - p + 1:
                return Violation('times', 'job %d writes %d outputs, expected %d' % (k + 1, R.nt, q - p + 1))
            if R.times != W.times[p:q + 1]:
                return Violation('times', 'job %d writes times %r, the whole run %r' % (k + 1, R.times, W.times[p:q + 1]))
            m = [(p + i, i) for i in range(R.nt)]
            e = None
            if k and scen['info']['solver'] == 'qs':
                # a quasi-static solver always starts with velocities of zero
                e = results.compare(W, R, rtol, atol, kmap=m[:1], only=('Displacement', 'Coordinates', 'Damage', 'Force', 'Volume', 'Temperature'))
                m = m[1:]
            e = e or results.compare(W, R, rtol, atol, kmap=m, gtol=1e-12)
            M.facts['resumed jobs'] += k > 0
            if e:
                return Violation('state', 'steps %d to %d in job %d: %s' % (p, q, k + 1, e), sig='state %s' % e.split(' ')[0])


CHECK = C()
