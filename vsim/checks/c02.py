import os
from .. import gen, results
from ..common import *
from ..frame import Check


def ignore(name):
    return False


class C(Check):
    id = 'C02'
    rule = 'a case is a random deck and process count run under two random schedules, clocks and heap contents; every file both jobs leave behind is compared byte for byte apart from date stamps'
    assumptions = ['heap contents are varied by filling every allocation and every freed block with a seeded byte', 'reductions are evaluated in rank order, as MPI implementations are advised to do']

    def case(self, rng, tier):
        scen = any_scenario(rng, fields=0.1, outputs=rng.choice([1, 1, 2]))
        vary_outputs(rng, scen)
        n = scen['info']['n']
        if rng.random() < 0.3 and not scen['info'].get('porous'):
            scen['deck']['Restart'] = True
        np = ranks(rng, n) if rng.random() < 0.9 else 1
        s1 = gen.schedule(rng, calm=rng.random() < 0.5)
        s2 = gen.schedule(rng)
        if rng.random() < 0.5:
            s2['skew'] = [rng.choice([-5000, 0, 1, 100000]) for _ in range(np)]
        s2['fill'] = rng.choice([1, 85, 127, 170, 255])
        return plain({'scen': scen, 'np': np, 'sched': s1, 'sched2': s2})

    def judge(self, M, case):
        scen, np = case['scen'], case['np']
        a = launch(M, scen, np, case['sched'])
        if a.status != 0:
            raise Skip('job fails')
        b = launch(M, scen, np, case['sched2'])
        facts(M, case)
        if b.status != 0:
            return Violation('status', 'succeeds under one schedule, under the other: %s' % b.describe())
        fa, fb = tree(a.d), tree(b.d)
        if sorted(fa) != sorted(fb):
            return Violation('files', 'different files: %s' % sorted(set(fa) ^ set(fb))[:4])
        for n in sorted(fa):
            if ('.e' in n or n.endswith('.h')) and not n.endswith('.mat'):
                try:
                    d = results.same_bytes(fa[n], fb[n])
                except ValueError as e:
                    return Violation('unreadable', '%s: %s' % (n, e))
            else:
                d = None if open(fa[n], 'rb').read() == open(fb[n], 'rb').read() else 'contents'
            if d:
                return Violation('differs', 'two schedules on %d processes: %s differs in %s' % (np, n, d))


CHECK = C()
