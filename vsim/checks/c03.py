from .. import gen
from ..common import *
from ..frame import Check


class C(Check):
    id = 'C03'
    rule = 'a case is a random valid deck, process count (also more processes than points) and adversarial schedule: random preemption, delays, late delivery, sends that block until matched, stalled processes'
    assumptions = ['messages of at most 64 bytes are always buffered: the third-party linear algebra library relies on it']

    def case(self, rng, tier):
        scen = any_scenario(rng, fields=0.1, robust=True, outputs=rng.choice([1, 1, 2]))
        vary_outputs(rng, scen)
        n = scen['info']['n']
        np = ranks(rng, n, 8)
        if rng.random() < 0.05:
            np = 1
        if rng.random() < 0.3 and not scen['info'].get('porous'):
            scen['deck']['Restart'] = True
        s = gen.schedule(rng)
        if rng.random() < 0.5:
            s['eager'] = 0
        if rng.random() < 0.3:
            s['late'] = 1
        return plain({'scen': scen, 'np': np, 'sched': s})

    def judge(self, M, case):
        j = launch(M, case['scen'], case['np'], case['sched'])
        facts(M, case)
        r = j.r
        if r['outcome'] in ('deadlock', 'livelock', 'timeout'):
            return Violation('hang', '%d processes: %s' % (case['np'], j.describe()))
        if r['outcome'] == 'usage':
            return Violation('communication', '%d processes: %s' % (case['np'], j.describe()))
        if j.status != 0 and unconverged(j):
            M.facts['solver gave up'] += 1
        elif j.status != 0:
            return Violation('fails', '%d processes: %s %s' % (case['np'], j.describe(), brief(j)))
        if r['nanom']:
            return Violation('communication', '%d processes: %s' % (case['np'], r['note'][:300]))


CHECK = C()
