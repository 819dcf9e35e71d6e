import os
from .. import gen, results, machine
from ..common import *
from ..frame import Check
from .c05 import piece

K = {k: 1 << i for i, k in enumerate(machine.IO_KINDS)}
EIO, ENOSPC, EACCES, EDQUOT, EMFILE, EROFS = 5, 28, 13, 122, 24, 30
WRITES = sum(K[k] for k in ('open_w', 'write', 'close', 'sync', 'trunc', 'mkdir', 'rename', 'unlink', 'system'))


def disk_fault(rng, path=None):
    """a fault of the disk; the position is a fraction of the operations it applies to"""
    u = rng.random()
    f = {'cls': 1, 'rank': -1, 'at': rng.random()}
    if path:
        f['path'] = path
    if u < 0.35:
        f.update(kinds=K['write'], action=1, err=rng.choice([EIO, ENOSPC, ENOSPC, EDQUOT]), persist=int(rng.random() < 0.6))
    elif u < 0.5:
        f.update(kinds=K['write'], action=2, persist=0, then=rng.choice([0, 0, ENOSPC, ENOSPC, EIO]))
    elif u < 0.65:
        f.update(kinds=K['open_w'], action=1, err=rng.choice([EACCES, ENOSPC, EMFILE, EROFS, EIO]), persist=int(rng.random() < 0.4))
    elif u < 0.8:
        f.update(kinds=K['close'], action=1, err=rng.choice([EIO, ENOSPC, EDQUOT]), persist=int(rng.random() < 0.3))
    elif u < 0.9:
        f.update(kinds=K['mkdir'] | K['rename'] | K['system'] | K['unlink'] | K['trunc'] | K['sync'], action=1, err=rng.choice([EIO, ENOSPC, EACCES]), persist=int(rng.random() < 0.4))
    else:  # from some moment on nothing can be written any more
        f.update(kinds=K['write'] | K['open_w'] | K['mkdir'] | K['rename'] | K['system'] | K['trunc'], action=1, err=rng.choice([ENOSPC, EROFS]), persist=1)
    return f


def place(M, scen, np, sched, f, d=None):
    """profiles the job with the fault disarmed, returns the fault list with the position filled in"""
    spec = {k: v for k, v in f.items() if k not in ('at', 'then')}
    spec['nth'] = 10 ** 9
    j = launch(M, scen, np, sched, [spec], d=d)
    seen = j.r['faults'][0][0]
    if not seen:
        return j, None
    spec['nth'] = 1 + min(seen - 1, int(f['at'] * seen))
    out = [spec]
    if f.get('then'):
        out.append(dict(spec, action=1, err=f['then'], persist=1, nth=spec['nth'] + 1))
    return j, out


class C(Check):
    id = 'C08'
    level = 'fault_enumeration'
    rule = 'a case is a random problem, with or without restart data, and one failure reported by the operating system for a random operation on a result or restart file: full disk, I/O error, short write, failing open, close, mkdir, rename; once or from then on. The job must not succeed unless what it leaves behind is what the undisturbed job leaves, and files finished by an earlier job must not change'
    assumptions = ['a close that fails has lost the last data written through that descriptor']

    def case(self, rng, tier):
        scen = any_scenario(rng, robust=True, size=(6, 60), steps=(3, 6), outputs=rng.choice([1, 1, 2]))
        np = 1 if rng.random() < 0.25 else ranks(rng, scen['info']['n'], 4)
        restart = rng.random() < 0.5
        first = restart and rng.random() < 0.5 and scen['info']['solver'] == 'verlet'
        f = disk_fault(rng, rng.choice(['restart', 'restart', None]) if restart else None)
        return plain({'scen': scen, 'np': np, 'restart': restart, 'first': first, 'fault': f, 'sched': gen.schedule(rng, calm=rng.random() < 0.6), 'jobs': 1, 'fixed_output': 1})

    def judge(self, M, case):
        scen, np, sched, f = case['scen'], case['np'], case['sched'], case['fault']
        if case['restart']:
            scen['deck']['Restart'] = True
        jobs = [scen]
        n = scen['info']['nsteps']
        if case.get('first') and n > 1 and 'times' not in scen['info']:
            jobs = [piece(scen, 0, n // 2, 'part0', True), piece(scen, n // 2, n, 'part1', True)]
        d, e = M.newdir(), M.newdir()
        if len(jobs) > 1:
            for q in (d, e):
                if launch(M, jobs[0], np, sched, d=q).status != 0:
                    raise Skip('job fails')
        before = {k: open(p, 'rb').read() for k, p in tree(e).items()}
        a, faults = place(M, jobs[-1], np, sched, f, d=d)
        if a.status != 0:
            raise Skip('job fails')
        if not faults:
            raise Skip('no such operation')
        b = launch(M, jobs[-1], np, sched, faults, d=e)
        facts(M, case)
        if not b.fired():
            return Violation('repeat', 'the operation that should fail is not reached: %s' % b.describe())
        hit = b.r['note'].split('|')[0]
        M.facts['with restart data'] += 'restart' in hit
        after = tree(e)
        for k, v in before.items():
            if k in ('deck.xml', 'deck.yaml', 'mesh.txt') or not k.startswith(('part0', 'restart')):
                continue
            if k not in after or open(after[k], 'rb').read() != v:
                return Violation('lost', '%s: %s, finished by the job before, is changed' % (hit, k))
        if b.status == 0:
            M.facts['job succeeds'] += 1
            u, v = tree(a.d), after
            if sorted(u) != sorted(v):
                return Violation('hidden', '%s: the job reports success, but these files are missing or left over: %s' % (hit, sorted(set(u) ^ set(v))[:3]), sig='hidden ' + site(hit, f))
            for k in sorted(u):
                x = open(u[k], 'rb').read()
                y = open(v[k], 'rb').read()
                if x != y and not ('.e' in k and same(u[k], v[k])):
                    return Violation('hidden', '%s: the job reports success, but %s has other contents' % (hit, k), sig='hidden ' + site(hit, f))
        else:
            M.facts['job fails as it should'] += 1


def same(p, q):
    try:
        return results.same_bytes(p, q) is None
    except ValueError:
        return False


def site(hit, f):
    if 'restart' in hit:
        return 'restart data'
    if f.get('kinds') == K['write'] and not f.get('persist') and not f.get('then'):
        return 'results, failing once'
    return 'results'


CHECK = C()
