import json, math
from .. import gen, results
from ..common import *
from ..frame import Check
from .c09 import crosses


class C(Check):
    id = 'C12'
    rule = 'a case is a contact problem: a gas of flying points with few or no bonds, colliding fragments, or a random problem with contact; it is run twice with different process counts, search frequencies, search radii and schedules. The contact force of every point at every step is compared with a sum over all unbonded pairs at the recorded positions, and the two histories are compared with each other'
    assumptions = ['histories in which a contact pair was farther apart than the search radius at the last search are left out', 'every pair of points without a bond can be in contact (the interaction table of the deck is not used by the program)']

    def case(self, rng, tier):
        if rng.random() < 0.7:
            scen = self.gas(rng)
        else:
            scen = any_scenario(rng, robust=True, fast=0.0, statics=False, contact=True, steps=(4, 20))
        info, deck = scen['info'], scen['deck']
        set_variables(scen, ['Displacement', 'Velocity', 'Force_Density', 'External_Force_Density', 'Contact_Force_Density', 'Volume', 'Block_Id'], 1)
        for o in info['outputs']:
            o.pop('first', None)
            o.pop('last', None)
        for k, v in deck.items():
            if k.startswith('Output') and isinstance(v, dict):
                v.pop('Initial Output Step', None)
                v.pop('Final Output Step', None)
        other = {'freq': rng.choice([1, 1, 2, 3, 4, 7, 50]), 'search': round(deck['Contact']['Search Radius'] + rng.choice([0.0, 0.3, 2.0, 20.0]), 4)}
        n = info['n']
        return plain({'scen': scen, 'np': rng.choice([1, ranks(rng, n, 8)]), 'np2': ranks(rng, n, 8), 'other': other, 'sched': gen.schedule(rng, calm=rng.random() < 0.4), 'sched2': gen.schedule(rng, calm=rng.random() < 0.4), 'fixed_output': 1})

    def gas(self, rng):
        n = rng.choice([rng.randint(2, 10), rng.randint(8, 40), rng.randint(30, 110)])
        pts = gen.cloud(rng, n, rng.choice(['box', 'box', 'grid', 'grid', 'line', 'plane', 'clusters', 'shell']))
        n = len(pts)
        nb = rng.choice([1, 2, 2, 3])
        ids = sorted(rng.sample([1, 2, 3, 5, 9, 14], nb))
        blocks = [rng.choice(ids) for _ in pts] if rng.random() < 0.5 else [ids[i * nb // n] for i in range(n)]
        vols = [gen.rnd(rng, 0.2, 2.0, 6) for _ in pts]
        hz = {}
        for b in sorted(set(blocks)):
            h = rng.choice([0.2, 0.5, 0.9, 1.1, 1.6])
            while gen.mindist_to(pts, h, 1e-5):
                h = round(h + 0.0137, 6)
            hz[b] = h
        steps = rng.randint(3, 24)
        dt = 2.0 ** -rng.choice([4, 5, 6])
        scen = gen.simple(rng, pts, blocks, vols, hz, steps=steps, dt=dt, material=rng.choice(['Elastic', 'Elastic Bond Based']))
        info, deck = scen['info'], scen['deck']
        sets = {'Node Set All': list(range(n)), 'Node Set Some': rng.sample(range(n), rng.randint(1, n))}
        gen.node_sets(scen, sets, rng)
        v = rng.choice([0.3, 1.0, 3.0])
        k = 0
        for c in 'xyz':
            u = rng.random()
            if u < 0.75:
                e = rng.choice(['%r*sin(%r*x + 3.1*y + 1.7*z)' % (gen.rnd(rng, 0.3 * v, 1.5 * v), gen.rnd(rng, 1.0, 9.0)), '%r*%s' % (-0.3 * v, c), '%r*cos(2.0*x + y) - 0.1*%s' % (v, c)])
                b = {'type': 'Initial Velocity', 'set': rng.choice(sorted(sets)), 'coord': c, 'expr': e}
            elif u < 0.85:
                b = {'type': 'Prescribed Displacement', 'set': 'Node Set Some', 'coord': c, 'expr': '%r*sin(%r*t)*sin(2.0*x + z)' % (gen.rnd(rng, 0.1, 0.8), gen.rnd(rng, 2.0, 9.0))}
            elif u < 0.92:
                b = {'type': 'Initial Displacement', 'set': rng.choice(sorted(sets)), 'coord': c, 'expr': '%r*sin(3.0*x + y)' % gen.rnd(rng, 0.01, 0.2)}
            else:
                continue
            info['bcs'].append(b)
            deck['Boundary Conditions']['Condition %d' % k] = {'Type': b['type'], 'Node Set': b['set'], 'Coordinate': c, 'Value': b['expr']}
            k += 1
        info['dims'] = [1, 1, 1]
        radius = rng.choice([gen.rnd(rng, 0.6, 1.2), gen.rnd(rng, 1.0, 2.2)])
        freq = rng.choice([1, 1, 2, 3, 5, 8])
        need = radius + 2 * v * 1.5 * dt * (freq + 1) * rng.choice([1.0, 2.0])
        gen.contact_block(rng, scen, nb, {'radius': radius, 'freq': freq, 'search': round(need, 4)})
        for q in deck['Contact']['Interactions'].values():  # the blocks here carry other numbers
            for w in ('First Block', 'Second Block'):
                if w in q:
                    q[w] = 'block_%d' % sorted(set(blocks))[min(int(q[w][6:]), len(set(blocks))) - 1]
        deck['Contact']['Models']['Con']['Spring Constant'] = rng.choice([0.01, 0.1, 1.0]) * min(hz.values()) ** 5
        return scen

    def judge(self, M, case):
        scen = case['scen']
        other = json.loads(json.dumps(scen))
        con = other['deck']['Contact']
        con['Search Frequency'] = case['other']['freq']
        con['Search Radius'] = max(case['other']['search'], scen['deck']['Contact']['Search Radius'])
        rs, ok = [], []
        for s, np, sched in ((scen, case['np'], case['sched']), (other, case['np2'], case['sched2'])):
            j = launch(M, s, np, sched)
            if j.status != 0:
                if 'NaN returned' in j.text() or not rs:
                    raise Skip('job fails')
                return Violation('fails', '%d processes, search frequency %d: %s' % (np, s['deck']['Contact']['Search Frequency'], j.describe()))
            try:
                R = load(j, s, np)
                if not finite(R):
                    raise Skip('problem blows up')
                v = self.forces(M, s, R)
            except results.Bad as e:
                return Violation('files', str(e))
            if isinstance(v, Violation):
                v.detail = '%d processes, search frequency %d: %s' % (np, s['deck']['Contact']['Search Frequency'], v.detail)
                return v
            rs.append(R)
            ok.append(v)
        facts(M, case)
        if not all(ok):
            raise Skip('search radius does not cover the motion')
        d = results.compare(rs[0], rs[1], rtol=1e-8, atol=1e-10)
        if d:
            if sensitive(M, scen):
                raise Skip('results hang on the last digits')
            return Violation('differs', '%d processes, search frequency %d and %d processes, search frequency %d: %s' % (case['np'], scen['deck']['Contact']['Search Frequency'], case['np2'], con['Search Frequency'], d))

    def bonds(self, scen, pts):
        hz = horizon_of(scen)
        nbr = {g: set() for g in pts}
        D = scen['deck']['Discretization']
        omit = D.get('Omit Bonds Between Blocks')
        fl = D.get('Bond Filters') or {}
        for g, h in pair_list(pts, max(hz.values()) + 1e-9):
            if omit and pts[g][3] != pts[h][3]:
                continue
            c = [crosses(f, pts[g], pts[h]) for f in fl.values()]
            if any(q is None for q in c):
                raise Skip('bond touches the rim of a cut')
            if any(c):
                continue
            d = distance(pts[g], pts[h])
            if d <= hz[g]:
                nbr[g].add(h)
            if d <= hz[h]:
                nbr[h].add(g)
        return nbr, hz

    def forces(self, M, scen, R):
        """compares every recorded contact force with the sum over all unbonded pairs; False if a search radius was too small"""
        info, deck = scen['info'], scen['deck']
        con = deck['Contact']
        freq, search = con['Search Frequency'], con['Search Radius']
        m = list(con['Models'].values())[0]
        rc, K, mu = m['Contact Radius'], m['Spring Constant'], m.get('Friction Coefficient', 0.0)
        pts = mesh_points(scen)
        if sorted(pts) != R.ids:
            return Violation('points', 'points are missing')
        nbr, hz = self.bonds(scen, pts)
        Y = []
        for k in range(R.nt):
            U = R.vec('Displacement', k)
            Y.append({g: tuple(p[a] + U[g][a] for a in range(3)) for g, p in pts.items()})
        dt = info['dt']
        for k in range(R.nt):
            s = k - k % freq
            old = [Y[max(s - 1, 0)]]
            if s == 0 and any(b['type'] == 'Prescribed Displacement' for b in info['bcs']):
                old.append({g: p[:3] for g, p in pts.items()})
            F = R.vec('Contact_Force_Density', k)
            fr = mu if not isinstance(mu, str) else gen.evaluate(mu.replace('value = ', ''), 0.0, 0.0, 0.0, R.times[k]) if not mu.startswith('if') else (0.3 if R.times[k] > 0.2 else 0.0)
            if fr and k == 0:
                continue
            V, G, X = R.vec('Velocity', k), R.vec('Force_Density', k), R.vec('External_Force_Density', k)
            A = {g: [(G[g][a] + X[g][a]) / info['density'][str(pts[g][3])] for a in range(3)] for g in pts} if fr else None
            E = {g: [0.0, 0.0, 0.0] for g in pts}
            S = {g: 0.0 for g in pts}
            wild = set()
            y = Y[k]
            moved = any(b['type'] == 'Prescribed Displacement' for b in info['bcs']) and k == 0  # prescribed values of the initial time come after the initial forces
            if moved:
                continue
            for g, h in pair_list(y, rc):
                for i, j in ((g, h), (h, g)):
                    if j in nbr[i]:
                        continue
                    if any(distance(o[i], o[j]) > search - 1e-7 for o in old):
                        return False
                    d = distance(y[i], y[j])
                    if d >= rc:
                        continue
                    if d < 1e-7:
                        raise Skip('points coincide')
                    M.facts['contact pairs'] += 1
                    t = 9.0 * K / (math.pi * hz[i] ** 4) * (rc - d) / hz[i]
                    n = [(y[j][a] - y[i][a]) / d for a in range(3)]
                    vi, vj = pts[i][4], pts[j][4]
                    f = [0.0, 0.0, 0.0]
                    if fr:
                        w = [[V[q][a] - 0.5 * dt * A[q][a] for a in range(3)] for q in (i, j)]
                        w = [[w[q][a] - sum(w[q][b] * n[b] for b in range(3)) * n[a] for a in range(3)] for q in (0, 1)]
                        r = [0.5 * (w[0][a] - w[1][a]) for a in range(3)]
                        q = math.sqrt(sum(x * x for x in r))
                        if q < 1e-5:
                            wild.update((i, j))
                        else:
                            f = [-fr * x / q for x in r]
                    for a in range(3):
                        E[i][a] += t * vj * (-n[a] + f[a])
                        E[j][a] += t * vi * (n[a] - f[a])
                    S[i] += t * vj
                    S[j] += t * vi
            for g in pts:
                if g in wild:
                    continue
                for a in range(3):
                    if abs(F[g][a] - E[g][a]) > (1e-6 if fr else 1e-8) * S[g] + 1e-300:
                        return Violation('force', 'contact force density of point %d in direction %d at %r is %r, from the recorded positions %r' % (g, a, R.times[k], F[g][a], E[g][a]))
        return True


CHECK = C()
