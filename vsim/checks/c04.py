import os
from .. import gen, results, machine, deck as deckmod
from ..common import *
from ..frame import Check
from .c16 import bad_kind
from .c08 import K, disk_fault, place, same, site

EIO, ENOENT, EMFILE, EACCES, ENOMEM = 5, 2, 24, 13, 12


def spoil(rng, scen):
    """damages the input; returns what was done"""
    d = scen['deck']
    u = rng.randrange(12)
    if u == 0 and scen['mesh']['kind'] == 'text':
        scen['mesh']['bad'] = [rng.randrange(len(scen['mesh']['pts'])), bad_kind(rng, d)]
        return 'mesh line'
    if u == 1 and scen['mesh']['kind'] == 'text':
        d['Discretization']['Input Mesh File'] = 'nothing.txt'
        return 'missing mesh'
    if u == 2:
        m = rng.choice(sorted(d['Materials']))
        k = rng.choice([q for q in sorted(d['Materials'][m]) if q in ('Density', 'Bulk Modulus', 'Shear Modulus', "Young's Modulus", 'Material Model')])
        d['Materials'][m].pop(k)
        return 'material without ' + k
    if u == 3:
        b = rng.choice(sorted(d['Blocks']))
        d['Blocks'][b]['Material'] = 'No Such Material'
        return 'unknown material'
    if u == 4:
        b = rng.choice(sorted(d['Blocks']))
        d['Blocks'][b].pop('Horizon')
        return 'no horizon'
    if u == 5:
        c = [k for k, v in d['Boundary Conditions'].items() if isinstance(v, dict)]
        if c:
            d['Boundary Conditions'][rng.choice(c)]['Node Set'] = 'Node Set Nowhere'
            return 'unknown node set'
    if u == 6:
        c = [k for k, v in d['Boundary Conditions'].items() if isinstance(v, dict)]
        if c:
            d['Boundary Conditions'][rng.choice(c)]['Value'] = rng.choice(['(', '1.0 +', 'nonsense(x)', 'value = ='])
            return 'expression'
    if u == 7:
        o = [k for k in d if k.startswith('Output') and isinstance(d[k], dict)]
        d[rng.choice(o)]['Output Variables']['No_Such_Field'] = True
        return 'unknown output variable'
    if u == 8:
        s = d['Solver']
        for k in list(s):
            if isinstance(s[k], dict):
                del s[k]
        return 'no time integration'
    if u == 9 and scen['files']:
        f = rng.choice(sorted(scen['files']))
        if f.startswith('mesh'):
            return None
        del scen['files'][f]
        return 'missing node set file'
    if u == 10:
        d['Blocks'].pop(rng.choice(sorted(d['Blocks'])))
        return 'block without definition'
    if u == 11:
        d['Discretization']['Type'] = 'Nonsense'
        return 'discretization'
    return None


class C(Check):
    id = 'C04'
    level = 'fault_enumeration'
    rule = 'a case is a random problem with one thing going wrong: an allocation that fails on one process, a file operation (reading input, writing results or restart data, shell commands) that fails on one process, or damaged input. The job must end, within bounded simulated time and without processes waiting for each other, with a failure status - or with results identical to those of the undisturbed job'
    assumptions = ['a process that dies is noticed by the launcher, which then ends the job']

    def case(self, rng, tier):
        scen = any_scenario(rng, robust=True, size=(6, 60), steps=(2, 5), outputs=rng.choice([1, 1, 2]))
        np = ranks(rng, scen['info']['n'], 5)
        if rng.random() < 0.25:
            scen['deck']['Restart'] = True
        c = {'scen': scen, 'np': np, 'sched': gen.schedule(rng, calm=rng.random() < 0.5), 'jobs': 1, 'fixed_output': 1}
        u = rng.random()
        if u < 0.4:
            c['fault'] = {'cls': 3, 'rank': rng.randrange(np), 'at': rng.random(), 'persist': int(rng.random() < 0.5)}
        elif u < 0.6:
            c['fault'] = disk_fault(rng)
            c['fault']['rank'] = rng.randrange(np)
        elif u < 0.8:
            c['fault'] = {'cls': 1, 'kinds': rng.choice([K['open_r'], K['read'], K['open_r'] | K['read'], K['stat'] | K['popen'] | K['system']]), 'rank': rng.randrange(np), 'at': rng.random(), 'action': 1,
                          'err': rng.choice([EIO, EMFILE, EACCES]), 'persist': int(rng.random() < 0.3)}
        else:
            what = None
            while not what:
                what = spoil(rng, scen)
            c['spoiled'] = what
        return plain(c)

    def judge(self, M, case):
        scen, np, sched = case['scen'], case['np'], case['sched']
        if 'spoiled' in case:
            b = launch(M, scen, np, sched)
            M.facts['damaged input: ' + case['spoiled']] += 1
            if b.r['outcome'] not in ('done', 'abort'):
                return Violation('end', '%s: %s' % (case['spoiled'], b.describe()))
            if b.status == 0:
                return Violation('accepted', '%s: the job succeeds' % case['spoiled'])
            return
        a, faults = place(M, scen, np, sched, case['fault'])
        if a.status != 0:
            raise Skip('job fails')
        if not faults:
            raise Skip('no such operation')
        b = launch(M, scen, np, sched, faults)
        facts(M, case)
        hit = b.r['note'].split('|')[0]
        if not b.fired():
            return Violation('repeat', 'the operation that should fail is not reached: %s' % b.describe())
        if b.r['outcome'] not in ('done', 'abort'):
            return Violation('end', '%s: %s' % (hit, b.describe()))
        if b.status != 0:
            M.facts['job fails'] += 1
            return
        M.facts['job succeeds'] += 1
        u, v = tree(a.d), tree(b.d)
        if sorted(u) != sorted(v):
            return Violation('hidden', '%s: the job reports success, but these files are missing or left over: %s' % (hit, sorted(set(u) ^ set(v))[:3]), sig='hidden ' + site(hit, case['fault']))
        for k in sorted(u):
            x = open(u[k], 'rb').read()
            y = open(v[k], 'rb').read()
            if x != y and not ('.e' in k and same(u[k], v[k])):
                return Violation('hidden', '%s: the job reports success, but %s has other contents' % (hit, k), sig='hidden ' + site(hit, case['fault']))


CHECK = C()
