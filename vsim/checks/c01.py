from .. import gen, results
from ..common import *
from ..frame import Check


class C(Check):
    id = 'C01'
    rule = 'a case is a random deck, mesh and process count; the multi-process job under a random schedule is compared with the one-process job; distinct by the event histories of both jobs'
    assumptions = []

    def case(self, rng, tier):
        scen = any_scenario(rng, fields=0.1)
        n = scen['info']['n']
        return plain({'scen': scen, 'np': ranks(rng, n), 'sched': gen.schedule(rng)})

    def judge(self, M, case):
        scen, np = case['scen'], case['np']
        a = launch(M, scen)
        if a.status != 0:
            raise Skip('one-process job fails')
        A = load(a, scen, 1)
        if not finite(A):
            raise Skip('problem blows up')
        b = launch(M, scen, np, case['sched'])
        facts(M, case)
        if b.status != 0:
            if unconverged(b) and marginal(M, scen):
                raise Skip('convergence is marginal')
            if sensitive(M, scen):
                raise Skip('results hang on the last digits')
            return Violation('fails', 'the one-process job succeeds, on %d processes: %s' % (np, b.describe()))
        try:
            B = load(b, scen, np)
            rt, at = tolerances(scen)
            d = results.compare(A, B, rtol=rt, atol=at)
        except results.Bad as e:
            return Violation('files', str(e))
        if d:
            if sensitive(M, scen):
                raise Skip('results hang on the last digits')
            return Violation('differs', '1 and %d processes: %s' % (np, d))


CHECK = C()
