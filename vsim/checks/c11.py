import math
from .. import gen, results
from ..common import *
from ..frame import Check
from .c09 import cutter, crosses

TIE = 1e-10


class C(Check):
    id = 'C11'
    rule = 'a case is a problem with damage: an irregular set of points moved to and fro by prescribed displacements, thrown by initial velocities, or a random problem of any solver; critical stretches (constant, varying in time, different from block to block), initial cracks and the interface aware model; one or two solvers in sequence, 1-8 processes and a schedule. The state of every bond is followed from the recorded positions and compared with the damage of both its ends at every output time'
    assumptions = ['bonds within 1e-10 of the critical stretch may be counted either way', 'bonds overstretched in the initial configuration may be broken from the start or from the first step on', 'each end of a bond uses the criterion of its own block and its own temperature']

    def case(self, rng, tier):
        u = rng.random()
        if u < 0.55:
            scen = self.driven(rng)
        elif u < 0.62:
            scen = self.interface(rng)
        else:
            scen = any_scenario(rng, damage=rng.choice(['Critical Stretch', 'Critical Stretch', 'Time Dependent Critical Stretch', 'Initial Damage']), steps=(3, 16), cylinder=0.0)
        info = scen['info']
        set_variables(scen, ['Displacement', 'Damage', 'Number_Of_Neighbors', 'Force_Density'] + (['Temperature_Change'] if info.get('thermal') else []), 1)
        for o in info['outputs']:
            o.pop('first', None)
            o.pop('last', None)
        for k, v in scen['deck'].items():
            if k.startswith('Output') and isinstance(v, dict):
                v.pop('Initial Output Step', None)
                v.pop('Final Output Step', None)
        np = 1 if rng.random() < 0.15 else ranks(rng, info['n'], 8)
        return plain({'scen': scen, 'np': np, 'sched': gen.schedule(rng, calm=rng.random() < 0.4), 'fixed_output': 1})

    def driven(self, rng):
        n = rng.choice([rng.randint(3, 12), rng.randint(8, 50), rng.randint(30, 90)])
        pts = gen.cloud(rng, n, rng.choice(['box', 'grid', 'grid', 'line', 'plane', 'clusters', 'shell']))
        nb = rng.choice([1, 1, 2, 3])
        ids = rng.sample([1, 2, 3, 5, 9, 14], nb)
        blocks = [rng.choice(ids) for _ in pts] if rng.random() < 0.5 else [ids[i * nb // n] for i in range(n)]
        vols = [gen.rnd(rng, 0.2, 2.0, 6) for _ in pts]
        hz = {}
        for b in sorted(set(blocks)):
            h = rng.choice([1.1, 1.6, 2.1, 3.1])
            while gen.mindist_to(pts, h, 1e-5):
                h = round(h + 0.0137, 6)
            hz[b] = h
        steps = rng.randint(3, 14)
        dt = 2.0 ** -rng.choice([3, 4, 5])
        scen = gen.simple(rng, pts, blocks, vols, hz, steps=steps, dt=dt, material=rng.choice(['Elastic', 'Elastic', 'Elastic Bond Based']), variables=('Displacement',))
        info, deck = scen['info'], scen['deck']
        models, per = {}, {}
        lo = [min(p[a] for p in pts) for a in range(3)]
        hi = [max(p[a] for p in pts) for a in range(3)]
        for k in range(rng.choice([1, 1, 2])):
            sc = gen.rnd(rng, 0.005, 0.3, 5)
            d = rng.choice(['Critical Stretch', 'Critical Stretch', 'Time Dependent Critical Stretch', 'Initial Damage'])
            if d == 'Critical Stretch':
                models['Dam %d' % k] = {'Damage Model': d, 'Critical Stretch': sc}
            elif d == 'Initial Damage':
                f = cutter(rng, lo, hi)
                while f['Type'] != 'Rectangular_Plane':
                    f = cutter(rng, lo, hi)
                models['Dam %d' % k] = {'Damage Model': d, 'Bond Filters': {'Crack': f}}
            else:
                models['Dam %d' % k] = {'Damage Model': d, 'Time Dependent Critical Stretch': rng.choice(['value = %r + 0.2*t', 'value = %r - 0.1*t', '%r*(1.0 + t)', 'value = %r + 0.1*sin(9.0*t)']) % sc}
        deck['Damage Models'] = models
        names = sorted(models)
        for b in sorted(set(blocks)):
            if b == blocks[0] or rng.random() < 0.85:
                m = rng.choice(names)
                deck['Blocks']['Group %d' % b]['Damage Model'] = m
        info['damage'] = 'several'
        amp = rng.choice([0.05, 0.15, 0.4])
        bcs, sets = [], {}
        n = len(pts)
        some = rng.sample(range(n), rng.randint(1, n))
        sets['Node Set All'] = list(range(n))
        sets['Node Set Some'] = some
        if rng.random() < 0.6:
            for c in 'xyz':
                if rng.random() < 0.75:
                    w = gen.rnd(rng, 3.0, 40.0, 3)
                    a = gen.rnd(rng, -amp, amp, 4) or amp
                    e = rng.choice(['%r*sin(%r*t)*%s' % (a, w, c), '%r*sin(%r*t)*(x + 0.3*y - z)' % (a, w), '%r*t*x' % (a * 4), '%r*sin(%r*t)*sin(2.0*x + 3.0*y + z)' % (a, w)])
                    bcs.append({'type': 'Prescribed Displacement', 'set': rng.choice(sorted(sets)), 'coord': c, 'expr': e})
        for c in 'xyz':
            if not any(b['coord'] == c for b in bcs) and rng.random() < 0.5:
                bcs.append({'type': 'Initial Velocity', 'set': rng.choice(sorted(sets)), 'coord': c, 'expr': rng.choice(['%r*x' % (amp * 5), '%r*y - 0.1' % (amp * 4), '%r' % (amp * 8)])})
        info['bcs'] = bcs
        gen.node_sets(scen, sets, rng)
        for i, b in enumerate(bcs):
            deck['Boundary Conditions']['Condition %d' % i] = {'Type': b['type'], 'Node Set': b['set'], 'Coordinate': b['coord'], 'Value': b['expr']}
        if rng.random() < 0.2:
            s = deck.pop('Solver')
            k = rng.randint(1, steps - 1)
            info['phases'] = [k, steps - k]
            deck['Solver 1'] = dict(s, **{'Final Time': k * dt})
            deck['Solver 2'] = dict(s, **{'Initial Time': k * dt})
        return scen

    def interface(self, rng):
        scen = gen.scenario(rng, solver='qs', materials=['Elastic'], damage=False, filters=False, flat=False, contact=False, thermal=False, size=(18, 60), cylinder=0.0)
        d = rng.choice(['Interface Aware', 'Interface Aware', 'Critical Stretch'])
        names = []
        for k in range(2):
            names.append('Dam %d' % k)
            scen['deck'].setdefault('Damage Models', {})[names[-1]] = {'Damage Model': d, 'Critical Stretch': gen.rnd(rng, 0.004, 0.03, 5)}
        for g in scen['deck']['Blocks'].values():
            g['Damage Model'] = rng.choice(names)
        scen['info']['damage'] = d
        return scen

    def judge(self, M, case):
        scen, np = case['scen'], case['np']
        info, deck = scen['info'], scen['deck']
        j = launch(M, scen, np, case['sched'])
        if j.status != 0:
            raise Skip('job fails')
        if 'rank deficient' in j.text():
            raise Skip('points taken out of the linear system')
        facts(M, case)
        try:
            R = load(j, scen, np)
            return self.follow(M, scen, R, np)
        except results.Bad as e:
            return Violation('files', str(e))

    def models(self, scen):
        """block -> parameters of its damage model"""
        deck = scen['deck']
        out = {}
        blocks = sorted(set(p[3] for p in scen['mesh']['pts']))
        for g in deck['Blocks'].values():
            if 'Damage Model' in g:
                for b in blocks:
                    nm = g['Block Names'].split()
                    if 'block_%d' % b in nm or nm == ['Default'] and not any('block_%d' % b in q['Block Names'].split() for q in deck['Blocks'].values()):
                        out[b] = deck['Damage Models'][g['Damage Model']]
        return out

    def follow(self, M, scen, R, np):
        info = scen['info']
        pts = mesh_points(scen)
        hz = horizon_of(scen)
        mod = self.models(scen)
        if sorted(pts) != R.ids:
            return Violation('points', 'points are missing')
        nbr = {g: [] for g in pts}
        omit = scen['deck']['Discretization'].get('Omit Bonds Between Blocks')
        fl = scen['deck']['Discretization'].get('Bond Filters') or {}
        for g, h in pair_list(pts, max(hz.values()) + 1e-9):
            if omit and pts[g][3] != pts[h][3]:
                continue
            c = [crosses(f, pts[g], pts[h]) for f in fl.values()]
            if any(q is None for q in c):
                raise Skip('bond touches the rim of a cut')
            if any(c):
                continue
            d = distance(pts[g], pts[h])
            if d <= hz[g]:
                nbr[g].append(h)
            if d <= hz[h]:
                nbr[h].append(g)
        N = R.get('Number_Of_Neighbors', 0)
        for g in pts:
            if int(round(N[g])) != len(nbr[g]):
                raise Skip('neighbourhoods differ')  # the subject of C09
        sure, maybe = set(), set()  # directed bonds
        last = None
        for g in pts:
            m = mod.get(pts[g][3])
            if m and m['Damage Model'] == 'Initial Damage':
                for h in nbr[g]:
                    c = [crosses(f, pts[g], pts[h]) for f in m['Bond Filters'].values()]
                    if any(c):
                        sure.add((g, h))
                    elif any(q is None for q in c):
                        maybe.add((g, h))
        grew = 0
        for k in range(R.nt):
            t = R.times[k]
            U, D, F = R.vec('Displacement', k), R.get('Damage', k) if R.has('Damage') else {}, R.vec('Force_Density', k)
            T = R.get('Temperature_Change', k) if R.has('Temperature_Change') else None
            if not all(abs(q) < 1e6 for u in U.values() for q in u):
                raise Skip('problem blows up')
            Y = {g: [p[a] + U[g][a] for a in range(3)] for g, p in pts.items()}
            for g in pts:
                m = mod.get(pts[g][3])
                if not m or m['Damage Model'] == 'Initial Damage':
                    continue
                for h in nbr[g]:
                    if (g, h) in sure:
                        continue
                    l0 = distance(pts[g], pts[h])
                    s = (distance(Y[g], Y[h]) - l0) / l0
                    if 'Thermal Expansion Coefficient' in m and T:
                        s -= m['Thermal Expansion Coefficient'] * T[g]
                    lim = self.limits(m, mod.get(pts[h][3]), t, info)
                    if lim is None:
                        continue
                    if s > max(lim) + TIE and k:
                        sure.add((g, h))
                    elif s > min(lim) - TIE:
                        maybe.add((g, h))
            for g in pts:
                if pts[g][3] not in mod:
                    continue
                if g not in D:
                    return Violation('missing', 'no damage is reported for point %d' % g)
                d = D[g]
                M.facts['damage values compared'] += 1
                if not 0.0 <= d <= 1.0:
                    return Violation('bounds', 'damage of point %d at %r is %r' % (g, t, d))
                if last is not None and d < last[g]:
                    return Violation('heals', 'damage of point %d falls from %r to %r at %r' % (g, last[g], d, t))
                if last is not None and d > last[g]:
                    grew += 1
                n = len(nbr[g])
                if n:
                    a = sum((g, h) in sure for h in nbr[g])
                    b = a + sum((g, h) in maybe and (g, h) not in sure for h in nbr[g])
                    q = d * n
                    if abs(q - round(q)) > 1e-9 * n:
                        return Violation('fraction', 'damage of point %d at %r is %r, not a multiple of 1/%d' % (g, t, d, n))
                    if not a <= round(q) <= b:
                        return Violation('bonds', 'damage of point %d at %r is %r (%d of %d bonds broken), from the recorded positions %d%s' % (g, t, d, round(q), n, a, '' if a == b else ' to %d' % b))
                elif d != 0.0:
                    return Violation('isolated', 'damage of point %d, which has no bond, is %r' % (g, d))
            if not info.get('contact') and all(m in gen.ORDINARY for m in info['material'].values()):
                for g in pts:
                    if nbr[g] and all((g, h) in sure and ((h, g) in sure or g not in nbr[h]) for h in nbr[g]) and not any(g in nbr[h] and h not in nbr[g] for h in pts):
                        M.facts['fully separated points'] += 1
                        if any(F[g]):
                            return Violation('force', 'all bonds of point %d are broken at %r but its force density is %r' % (g, t, F[g]))
            last = {g: D[g] for g in D}
        M.facts['damage increments'] += grew
        M.facts['broken bonds'] += len(sure) // 2

    def limits(self, m, other, t, info):
        if 'Critical Stretch' in m:
            c = m['Critical Stretch']
            if m['Damage Model'] == 'Interface Aware':
                if not other or 'Critical Stretch' not in other:
                    return None
                c = min(c, other['Critical Stretch'])
            return [c]
        e = m['Time Dependent Critical Stretch'].replace('value = ', '')
        ts = [t] if info['solver'] == 'verlet' else [t, info['t0'], 0.0]
        if info['solver'] == 'verlet' and t == info['t0']:
            ts = [t, 0.0]
        return [gen.evaluate(e, 0.0, 0.0, 0.0, q) for q in ts]


CHECK = C()
