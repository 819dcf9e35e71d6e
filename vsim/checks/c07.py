import os
from .. import gen, results
from ..common import *
from ..frame import Check

SUFFIX = {'vector': ['X', 'Y', 'Z'], 'tensor': ['XX', 'XY', 'XZ', 'YX', 'YY', 'YZ', 'ZX', 'ZY', 'ZZ']}
GLOBALS = ('Global_Kinetic_Energy', 'Global_Linear_Momentum', 'Global_Angular_Momentum')


class C(Check):
    id = 'C07'
    rule = 'a case is a random deck with one to three output specifications (frequency, first and last step, variables), a process count and a schedule; the files of every specification are checked against the mesh, the requested steps, a run with that specification alone and a one-process run'
    assumptions = ['steps are counted as the program does: the initial state is the first output opportunity']

    def case(self, rng, tier):
        scen = any_scenario(rng, outputs=rng.choice([1, 2, 2, 3]), steps=(3, 20))
        info = scen['info']
        nw = len(step_times(info))
        for k, o in enumerate(info['outputs']):
            o['freq'] = rng.choice([1, 1, 2, 3, 4, 7])
            if rng.random() < 0.35:
                o['first'] = rng.randint(1, max(1, nw // 2))
            if rng.random() < 0.35:
                o['last'] = rng.randint(o.get('first', 1), nw + 2)
            while not out_steps(o, nw):
                o['freq'] = max(1, o['freq'] // 2)
                o.pop('first', None) if o['freq'] == 1 else None
            if rng.random() < 0.5:
                extra = [v for v in ('Proc_Num', 'Block_Id', 'Element_Id', 'Volume', 'Model_Coordinates') if rng.random() < 0.6]
                o['vars'] = list(dict.fromkeys(o['vars'] + extra))
            elif rng.random() < 0.15:
                o['vars'] = [rng.choice(GLOBALS)]
            d = scen['deck']['Output' if len(info['outputs']) == 1 else 'Output %d' % k]
            d['Output Frequency'] = o['freq']
            d['Output Variables'] = {v: True for v in o['vars']}
            if 'first' in o:
                d['Initial Output Step'] = o['first']
            if 'last' in o:
                d['Final Output Step'] = o['last']
        np = 1 if rng.random() < 0.1 else ranks(rng, info['n'], 8)
        return plain({'scen': scen, 'np': np, 'sched': gen.schedule(rng), 'fixed_output': 1})

    def judge(self, M, case):
        scen, np = case['scen'], case['np']
        info = scen['info']
        ref = plain(scen)
        vs = []
        for o in info['outputs']:
            vs += [v for v in o['vars'] if v not in vs]
        if not any(v not in GLOBALS for v in vs):
            vs.append('Displacement')
        only_output(ref, 0, vs)
        a = launch(M, ref)
        if a.status != 0:
            raise Skip('one-process job fails')
        A = load(a, ref, 1)
        if not finite(A):
            raise Skip('problem blows up')
        j = launch(M, scen, np, case['sched'])
        if j.status != 0:
            if unconverged(j) and marginal(M, scen):
                raise Skip('convergence is marginal')
            return Violation('fails', 'the one-process job succeeds, on %d processes: %s %s' % (np, j.describe(), brief(j)))
        facts(M, case)
        times = step_times(info)
        if not same_times(A.times, times):
            return Violation('steps', 'with output at every step the times are %r instead of %r' % (A.times, times))
        pts = mesh_points(scen)
        rt, at = tolerances(scen)
        for k, o in enumerate(info['outputs']):
            M.facts['specification'] += 1
            want = [times[q] for q in out_steps(o, len(times))]
            v = self.one(M, scen, j, o, np, want, pts, A, rt, at)
            if v:
                return v
            if len(info['outputs']) > 1:
                alone = plain(scen)
                only_output(alone, k)
                b = launch(M, alone, np, case['sched'])
                if b.status != 0:
                    return Violation('alone', 'specification %d alone: %s' % (k, b.describe()))
                for n in sorted(f for f in os.listdir(b.d) if f.startswith(o['file'] + '.')):
                    if not os.path.exists(os.path.join(j.d, n)):
                        return Violation('missing', '%s is missing when there are several specifications' % n)
                    d = results.same_bytes(os.path.join(j.d, n), os.path.join(b.d, n))
                    if d:
                        return Violation('influence', '%s differs from the run with that specification alone: %s' % (n, d))

    def one(self, M, scen, j, o, np, want, pts, A, rt, at):
        base = o['file']
        if all(v in GLOBALS for v in o['vars']):
            return self.history(j, o, base, want, A)
        try:
            R = results.Results(j.d, base, np)
            if not same_times(R.times, want):
                return Violation('steps', '%s has times %r instead of %r' % (base, R.times, want))
            if R.ids != sorted(pts):
                return Violation('points', '%s holds %d of %d points' % (base, len(R.ids), len(pts)))
            tol = 0.0 if scen['mesh']['kind'] == 'text' else 1e-12
            for g, p in pts.items():
                if R.block.get(g) != p[3]:
                    return Violation('block', '%s: point %d is in block %r instead of %d' % (base, g, R.block.get(g), p[3]))
                if any(abs(R.x[g][c] - p[c]) > tol for c in range(3)):
                    return Violation('position', '%s: point %d is at %r instead of %r' % (base, g, R.x[g], p[:3]))
            names = R.names + R.glo_names
            for v in o['vars']:
                if v not in names and v + 'X' not in names and not any(n.startswith(v + '_') or n.startswith(v + 'X') for n in names):
                    return Violation('variable', '%s does not contain %s' % (base, v))
            for k in range(R.nt):
                for nm, fn in (('Block_Id', lambda g: pts[g][3]), ('Element_Id', lambda g: g), ('Volume', lambda g: pts[g][4]), ('Proc_Num', lambda g: R.owner[g]),
                               ('Model_CoordinatesX', lambda g: pts[g][0]), ('Model_CoordinatesY', lambda g: pts[g][1]), ('Model_CoordinatesZ', lambda g: pts[g][2])):
                    if nm in o['vars'] or nm[:-1] in o['vars']:
                        got = R.get(nm, k)
                        if sorted(got) != sorted(pts):
                            return Violation('points', '%s: %s is given for %d of %d points' % (base, nm, len(got), len(pts)))
                        for g, x in got.items():
                            if not close(x, fn(g)):
                                return Violation('value', '%s: %s of point %d is %r instead of %r' % (base, nm, g, x, fn(g)))
            at_time = {'%.10g' % t: k for k, t in enumerate(A.times)}
            kmap = [(at_time['%.10g' % t], k) for k, t in enumerate(R.times)]
            sub = Sub(A, R)
            d = results.compare(sub, R, rtol=rt, atol=at, kmap=kmap, skip=('Proc_Num',))
            if d:
                if sensitive(M, scen, base):
                    raise Skip('results hang on the last digits')
                return Violation('value', '%s: one process with output at every step and this run: %s' % (base, d))
        except results.Bad as e:
            return Violation('files', '%s: %s' % (base, e))

    def history(self, j, o, base, want, A):
        from .. import cdf
        p = os.path.join(j.d, base + '.h')
        if not os.path.exists(p):
            return Violation('files', 'missing ' + base + '.h')
        try:
            f = cdf.Exo(p)
            if not same_times(f.times, want):
                return Violation('steps', '%s.h has times %r instead of %r' % (base, f.times, want))
            if sorted(f.glo_names) != sorted(o['vars']):
                return Violation('variable', '%s.h holds %r instead of %r' % (base, f.glo_names, o['vars']))
            at_time = {'%.10g' % t: k for k, t in enumerate(A.times)}
            for k, t in enumerate(f.times):
                a, b = A.globs(at_time['%.10g' % t])[0], f.glob(k)
                for n in o['vars']:
                    if not close(a[n], b[n], 1e-4, 1e-8):
                        return Violation('value', '%s.h: %s at %r is %r, one process: %r' % (base, n, t, b[n], a[n]))
        except (ValueError, KeyError, IndexError) as e:
            return Violation('files', '%s.h: %s' % (base, e))


class Sub:
    """view of A with the variables of R only"""

    def __init__(self, A, R):
        self.A = A
        self.names = [n for n in A.names if n in R.names]
        self.glo_names = [n for n in A.glo_names if n in R.glo_names]

    def __getattr__(self, k):
        return getattr(self.A, k)


def same_times(a, b):
    return len(a) == len(b) and all(close(x, y, atol=0.0) for x, y in zip(a, b))


def only_output(scen, k, vs=None):
    """keeps output specification k; with vs: those variables at every step"""
    info = scen['info']
    o = info['outputs'][k]
    d = scen['deck'].get('Output %d' % k) or scen['deck']['Output']
    for n in [n for n in scen['deck'] if n.startswith('Output')]:
        del scen['deck'][n]
    scen['deck']['Output'] = d
    info['outputs'] = [o]
    if vs:
        o['vars'], o['freq'] = list(vs), 1
        o.pop('first', None), o.pop('last', None)
        d['Output Variables'] = {v: True for v in vs}
        d['Output Frequency'] = 1
        d.pop('Initial Output Step', None), d.pop('Final Output Step', None)


CHECK = C()
