from .. import gen, results
from ..common import *
from ..frame import Check

VARS = ['Model_Coordinates', 'Displacement', 'Volume', 'Block_Id', 'Horizon', 'Element_Id', 'Proc_Num', 'External_Force_Density', 'Velocity']
BAD = ['four', 'six', 'fraction', 'word', 'fortran', 'glued', 'comma', 'commas', 'huge', 'hugeblock', 'nan', 'trailing', 'block']


def bad_kind(rng, deck):
    """a point in an unknown block is fine if the deck has a default"""
    k = rng.choice(BAD)
    return 'word' if k == 'block' and any('Default' in b['Block Names'] for b in deck['Blocks'].values()) else k


KIND = {'bf': ('Body Force', 'External_Force_Density'), 'iv': ('Initial Velocity', 'Velocity')}


class C(Check):
    id = 'C16'
    rule = 'a case is a random arrangement of points (or a generated grid) written in a random layout of the mesh file, random node sets, 1-8 processes and a schedule; ids, positions, volumes, blocks, horizons, owners and node set members in the result files of all processes are compared with the input. Some cases damage one line of the mesh or node set file, or fail, shorten or interrupt a read: the job has to fail or be complete'
    assumptions = ['text after the data of a line is a comment when it starts with #, / or *']

    def case(self, rng, tier):
        n = rng.choice([rng.randint(1, 12), rng.randint(8, 60), rng.randint(30, 160)])
        u = rng.random()
        if u < 0.12:
            scen = gen.scenario(rng, mesh='quick', materials=['Elastic'], size=(8, 160), steps=(1, 2), contact=False, damage=False, thermal=False, influence=False, loads=())
            for k in list(scen['deck']):
                if k.startswith('Output') or k == 'Boundary Conditions':
                    del scen['deck'][k]
            scen['info']['outputs'] = [{'file': 'out', 'freq': 1, 'vars': list(VARS)}]
            scen['deck']['Output'] = {'Output File Type': 'ExodusII', 'Output Filename': 'out', 'Output Frequency': 1, 'Output Variables': {v: True for v in VARS}}
            scen['info']['bcs'] = []
            n = scen['info']['n']
        else:
            pts = gen.cloud(rng, n)
            if rng.random() < 0.3:
                pts = [[q * rng.choice([1.0, 1.0 / 3, 1e-3, 7.7]) + rng.random() * 1e-3 for q in p] for p in pts]
            nb = rng.choice([1, 1, 2, 3, 5])
            ids = rng.sample([1, 2, 3, 4, 7, 12, 30, 451, 99999], nb)
            if rng.random() < 0.4:
                blocks = [ids[min(nb - 1, i * nb // n)] for i in range(n)]
            else:
                blocks = [rng.choice(ids) for _ in range(n)]
            vols = [rng.choice([gen.rnd(rng, 0.2, 2.0, 6), rng.random(), 1.0 / 3]) * rng.choice([1.0, 1.0, 1.0, 1e-9, 1e5]) for _ in pts]
            hz = {b: rng.choice([0.6, 1.1, 1.6, 2.1]) + rng.random() * 0.1 for b in set(blocks)}
            scen = gen.simple(rng, pts, blocks, vols, hz, variables=VARS)
            scen['mesh']['style'] = rng.getrandbits(31) | 1
        info = scen['info']
        sets, bcs = {}, []
        names = ['Node Set %d' % k for k in range(1, 7)]
        slots = [(k, c) for k in KIND for c in 'xyz']
        rng.shuffle(slots)
        for nm in names[:rng.randint(0, 6)]:
            m = rng.sample(range(n), rng.randint(1, n)) if rng.random() < 0.7 else [rng.randrange(n)]
            if rng.random() < 0.5:
                m.sort()
            sets[nm] = m
            k, c = slots.pop()
            bcs.append({'type': KIND[k][0], 'set': nm, 'coord': c, 'expr': rng.choice(['1.0', '0.5', '1.0 + x*x', '2.0 + y*y + z*z'])})
        if sets:
            gen.node_sets(scen, sets, rng)
            for i, b in enumerate(bcs):
                scen['deck']['Boundary Conditions']['Condition %d' % i] = {'Type': b['type'], 'Node Set': b['set'], 'Coordinate': b['coord'], 'Value': b['expr']}
            info['bcs'] = bcs
        np = max(1, min(rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8]), n if rng.random() < 0.7 else 8))
        case = {'scen': scen, 'np': np, 'sched': gen.schedule(rng, calm=rng.random() < 0.3), 'fixed_output': 1, 'mode': 'good'}
        u = rng.random()
        files = [f for f in scen['files'] if 'set' in f]
        if scen['mesh']['kind'] == 'text' and u < 0.18:
            if files and rng.random() < 0.25:
                case['mode'] = 'badset'
                f = rng.choice(files)
                case['line'] = '\n' + rng.choice(['1, 1', '1x', '0', '-1', 'one', '1.5', '1;1']) + '\n'
                scen['files'][f] += case['line']
            else:
                case['mode'] = 'bad'
                scen['mesh']['bad'] = [rng.randrange(n), bad_kind(rng, scen['deck'])]
        elif scen['mesh']['kind'] == 'text' and u < 0.4:
            case['mode'] = 'fault'
            path = rng.choice(files + ['mesh.txt', 'mesh.txt'])
            err = rng.choice([5, 5, 4, 0])
            case['faults'] = [{'cls': 1, 'kinds': rng.choice([4, 4, 4, 1]), 'rank': -1 if path != 'mesh.txt' else 0, 'nth': 1, 'action': 1 if err else 2, 'err': err, 'persist': 1 if err == 5 and rng.random() < 0.5 else 0, 'path': path}]
            f = case['faults'][0]
            if f['kinds'] == 1:
                f['action'], f['err'] = 1, rng.choice([2, 13, 5, 24])
            else:
                f['nth'] = rng.choice([1, 1, 2, 3])
                if err != 5:
                    f['persist'] = 0
        return plain(case)

    def judge(self, M, case):
        scen, np, mode = case['scen'], case['np'], case['mode']
        if mode == 'badset' and not any(case['line'] in f for f in scen['files'].values()):
            raise Skip('no invalid line')
        j = launch(M, scen, np, case['sched'], faults=case.get('faults', ()))
        o = j.r['outcome']
        if o in ('deadlock', 'livelock', 'timeout'):
            return Violation('hang', '%s: %s' % (mode, j.describe()))
        if mode in ('bad', 'badset'):
            M.facts['damaged line: ' + (scen['mesh']['bad'][1] if mode == 'bad' else 'node set')] += 1
            if j.status == 0:
                return Violation('accepted', 'an input file with an invalid line (%s) was accepted' % (scen['mesh']['bad'][1] if mode == 'bad' else 'node set file'))
            return None
        if mode == 'fault':
            if not j.fired():
                raise Skip('fault not reached')
            M.facts['read fault fired'] += 1
            if j.status != 0:
                if case['faults'][0]['action'] == 2:
                    return Violation('short', 'a short read of an input file made the job fail: ' + j.describe() + ' ' + brief(j))
                return None
        if j.status != 0:
            if launch(M, scen).status != 0:
                raise Skip('job fails')
            return Violation('fails', 'on %d processes: %s %s' % (np, j.describe(), brief(j)))
        facts(M, case)
        try:
            R = load(j, scen, np)
            return self.compare(M, scen, np, R)
        except results.Bad as e:
            return Violation('files', str(e))

    def compare(self, M, scen, np, R):
        info = scen['info']
        pts = mesh_points(scen)
        hz = horizon_of(scen)
        exact = scen['mesh']['kind'] == 'text'
        if R.ids != sorted(pts):
            return Violation('points', 'the result files hold the points %s..., the mesh has %d' % (sorted(set(pts) ^ set(R.ids))[:8], len(pts)))
        same = (lambda a, b: a == b) if exact else (lambda a, b: close(a, b, 1e-12, 1e-12))
        M.facts['points compared'] += len(pts)
        M.facts['processes without points'] += np - len(set(R.owner.values()))
        for g, p in pts.items():
            if not all(same(R.x[g][a], p[a]) for a in range(3)):
                return Violation('position', 'point %d is at %r in the result file instead of %r' % (g, R.x[g], p[:3]))
            if R.block[g] != p[3]:
                return Violation('block', 'point %d is in block %d of the result file instead of %d' % (g, R.block[g], p[3]))
        for k in range(R.nt):
            X = R.vec('Model_Coordinates', k)
            S = {n: R.get(n, k) for n in ('Volume', 'Block_Id', 'Horizon', 'Element_Id', 'Proc_Num')}
            for g, p in pts.items():
                if not all(same(X[g][a], p[a]) for a in range(3)):
                    return Violation('position', 'point %d is at %r instead of %r' % (g, X[g], p[:3]))
                for n, w in (('Volume', p[4]), ('Block_Id', p[3]), ('Horizon', hz[g]), ('Element_Id', g), ('Proc_Num', R.owner[g])):
                    v = S[n].get(g)
                    if v is None or not (same(v, w) or n == 'Horizon' and close(v, w, 1e-14, 0.0)):  # a horizon passes through an expression parser
                        return Violation(n, '%s of point %d is %r instead of %r' % (n, g, v, w))
            F = {'Body Force': R.vec('External_Force_Density', k), 'Initial Velocity': R.vec('Velocity', k)}
            for typ in F:
                if typ == 'Initial Velocity' and k:
                    continue
                for ci, c in enumerate('xyz'):
                    mine = [b for b in info['bcs'] if b['type'] == typ and b['coord'] == c]
                    member = {i + 1: b['expr'] for b in mine for i in info['sets'][b['set']]}
                    for g, p in pts.items():
                        w = gen.evaluate(member[g], *p[:3], 0.0) if g in member else 0.0
                        if not close(F[typ][g][ci], w):
                            return Violation('node set', 'the condition on %s has the value %r at point %d (%s a member) instead of %r' % (mine[0]['set'] if mine else None, F[typ][g][ci], g, 'which is' if g in member else 'not', w))


CHECK = C()
