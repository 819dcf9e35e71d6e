import copy, os, shutil
from .. import gen, results, machine
from ..common import *
from ..frame import Check
from .c05 import piece

W = ['open_w', 'write', 'close', 'trunc', 'mkdir', 'rename', 'unlink', 'system', 'sync']
WRITES = sum(1 << machine.IO_KINDS.index(k) for k in W)
ALL = (1 << len(machine.IO_KINDS)) - 1


class C(Check):
    id = 'C06'
    level = 'fault_enumeration'
    rule = 'a case is a problem split over 2-3 jobs; one of the jobs is killed once or twice, at a random file operation (before, during or after it, mostly while restart data is written) or message call of a random process. Afterwards the time stamps of all restart data are shuffled and both the killed job and its successor are run on what is left: each has to fail or to give exactly the results of the undisturbed sequence'
    assumptions = ['a kill stops all processes of the job at once, what they had handed to the operating system survives']

    def case(self, rng, tier):
        scen = any_scenario(rng, fast=0.35, statics=False, contact=rng.random() < 0.1, robust=rng.random() < 0.5, size=(6, 50), steps=(3, 6))
        info, deck = scen['info'], scen['deck']
        for o in info['outputs']:
            o.pop('first', None)
            o.pop('last', None)
            o['freq'] = 1
        d = deck['Output']
        d.pop('Initial Output Step', None)
        d.pop('Final Output Step', None)
        d['Output Frequency'] = 1
        if 'Contact' in deck:
            deck['Contact']['Search Frequency'] = 1
        n = info['nsteps']
        cuts = sorted(rng.sample(range(1, n), min(n - 1, rng.choice([1, 2, 2, 2]))))
        np = 1 if rng.random() < 0.2 else ranks(rng, info['n'], 4)
        k = rng.randrange(len(cuts) + 1)
        kills = []
        for _ in range(rng.choice([1, 1, 2])):
            u = rng.random()
            f = {'at': rng.random()}
            if u < 0.75:
                f.update(cls=1, kinds=WRITES, rank=-1, action=rng.choice([3, 4, 4, 5]), path='restart')
                if rng.random() < 0.15:
                    f['at'] = 1.0 - 0.1 * f['at'] ** 2  # near the end
            elif u < 0.87:
                f.update(cls=1, kinds=ALL, rank=rng.choice([-1, 0]), action=rng.choice([3, 4, 5]))
            else:
                f.update(cls=2, rank=rng.randrange(np))
            kills.append(f)
        return plain({'scen': scen, 'np': np, 'cuts': cuts, 'k': k, 'kills': kills, 'stamps': rng.randrange(1 << 30), 'sched': gen.schedule(rng, calm=rng.random() < 0.6), 'jobs': 1, 'fixed_output': 1})

    def shuffle(self, d, seed):
        import random
        rng = random.Random(seed)
        names = sorted(n for n in os.listdir(d) if n.startswith('restart'))
        how = rng.randrange(4)
        for i, n in enumerate(names):
            t = {0: 1000000000 + i, 1: 1000000000 - i, 2: 1000000000, 3: 1000000000 + rng.randrange(1000)}[how]
            os.utime(os.path.join(d, n), (t, t))

    def judge(self, M, case):
        scen, np, sched = case['scen'], case['np'], case['sched']
        n = scen['info']['nsteps']
        cuts = [c for c in case['cuts'] if 0 < c < n]
        lim = [0] + cuts + [n]
        if not cuts:
            raise Skip('too few steps to split')
        k = min(case['k'], len(lim) - 2)
        parts = [piece(scen, lim[i], lim[i + 1], 'part%d' % i, True) for i in range(len(lim) - 1)]
        if k + 1 >= len(parts):
            parts.append(piece(scen, lim[-2], lim[-1], 'part%d' % (k + 1), True))
            t = step_times(scen['info'])
            p = parts[-1]
            p['deck']['Solver']['Initial Time'] = t[-1]
            p['deck']['Solver']['Final Time'] = t[-1] + (lim[-1] - lim[-2]) * scen['info']['dt']
        # the undisturbed sequence
        d = M.newdir()
        want = {}
        for i, p in enumerate(parts):
            j = launch(M, p, np, sched, d=d)
            if j.status != 0:
                raise Skip('undisturbed sequence fails' if i else 'job fails')
            if i and 'Restart is initialized' not in j.text():
                raise Skip('undisturbed sequence does not resume')
            want[i] = self.result(d, i, np)
        facts(M, case)
        # the disturbed one
        d = M.newdir()
        for i in range(k):
            if launch(M, parts[i], np, sched, d=d).status != 0:
                return Violation('repeat', 'job %d fails when repeated' % (i + 1))
        for f in case['kills']:
            spec = dict(f, nth=10 ** 9)
            at = spec.pop('at')
            c = M.newdir()
            os.rmdir(c)
            shutil.copytree(d, c, copy_function=shutil.copy2)
            self.stamps(d, c)
            j = launch(M, parts[k], np, sched, [spec], d=c)
            seen = j.r['faults'][0][0]
            M.rmdir(c)
            if not seen:
                continue
            spec['nth'] = 1 + min(seen - 1, int(at * seen))
            j = launch(M, parts[k], np, sched, [spec], d=d)
            where = j.r['note']
            if j.r['outcome'] != 'killed':
                M.facts['job ended before the kill'] += 1
                break
            M.facts['kills'] += 1
            if 'restart' in where:
                M.facts['kills while restart data is written'] += 1
            self.shuffle(d, case['stamps'])
            for i in (k + 1, k):
                c = M.newdir()
                os.rmdir(c)
                shutil.copytree(d, c, copy_function=shutil.copy2)
                self.stamps(d, c)
                v = self.attempt(M, parts, i, np, sched, c, want, where)
                if v:
                    return v
                M.rmdir(c)

    def stamps(self, a, b):
        for n in os.listdir(a):
            s = os.stat(os.path.join(a, n))
            os.utime(os.path.join(b, n), ns=(s.st_atime_ns, s.st_mtime_ns))

    def attempt(self, M, parts, i, np, sched, d, want, where):
        self.drop(d, i)
        if i and not any(n.startswith('restart') for n in os.listdir(d)):
            return  # nothing tells that there was a job before
        j = launch(M, parts[i], np, sched, d=d)
        if j.r['outcome'] not in ('done', 'abort'):
            return Violation('hang', 'after %s, job %d: %s' % (where, i + 1, j.describe()))
        if j.status != 0:
            M.facts['next run refuses'] += 1
            return
        if i and 'Restart is initialized' not in j.text():
            return Violation('fresh', 'after %s, job %d starts from the undeformed state' % (where, i + 1))
        try:
            got = self.result(d, i, np)
        except results.Bad as e:
            return Violation('files', 'after %s, job %d: %s' % (where, i + 1, e))
        M.facts['next run resumes'] += 1
        e = results.compare(want[i], got, 0.0, 0.0)
        if e:
            return Violation('state', 'after %s, job %d: %s' % (where, i + 1, e))
        if i + 1 in want:
            self.drop(d, i + 1)
            j = launch(M, parts[i + 1], np, sched, d=d)
            if j.status != 0:
                return Violation('later', 'after %s and a repetition of job %d, job %d: %s %s' % (where, i + 1, i + 2, j.describe(), brief(j)))
            e = results.compare(want[i + 1], self.result(d, i + 1, np), 0.0, 0.0)
            if e:
                return Violation('later', 'after %s and a repetition of job %d, job %d: %s' % (where, i + 1, i + 2, e))

    def drop(self, d, i):
        for n in os.listdir(d):
            if n.startswith('part%d.' % i):
                os.unlink(os.path.join(d, n))

    def result(self, d, i, np):
        R = results.Results(d, 'part%d' % i, np)
        for n in R.names:
            for k in range(R.nt):
                R.get(n, k)
        for k in range(R.nt):
            R.globs(k)
        return R


CHECK = C()
