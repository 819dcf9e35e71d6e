import copy, json, math, re
from .. import gen, results
from ..common import *
from ..frame import Check

WARN = re.compile(r'^(?=.*(warn|fail|error|not ))(?=.*(accept|converg|tolerance|residual)).*$', re.I | re.M)
PLAIN = ('Elastic', 'Elastic Bond Based', 'Linear LPS Partial Volume')


class C(Check):
    id = 'C15'
    rule = 'a case is a problem for the quasi-static, NOX quasi-static, implicit dynamics or implicit diffusion solver with random loads, tolerances, iteration limits and load stepping, on 1-8 processes under a random schedule. The balance of every unconstrained degree of freedom is evaluated from the results of every accepted step; for materials without memory also from a second program run that only evaluates the forces of the recorded configuration. Runs that miss the tolerance have to fail or to say so'
    assumptions = ['the reaction norm that scales a relative tolerance is taken from the printed criterion, which is checked against a separate evaluation for materials without memory']

    def case(self, rng, tier):
        u = rng.random()
        if u < 0.2:
            scen = gen.diffusion(rng)
        else:
            solver = 'qs' if u < 0.6 else 'implicit' if u < 0.85 else 'nox'
            kw = {'contact': False, 'thermal': False}
            if solver == 'implicit':
                kw['materials'] = rng.choice([['Elastic'], ['Elastic', 'Viscoelastic', 'Elastic Plastic'], ['Elastic Correspondence'], ['Linear LPS Partial Volume'], ['Elastic Bond Based']])
            else:
                kw.update(damage=False, filters=False, flat=False)
                kw['materials'] = rng.choice([['Elastic'], ['Elastic'], ['Elastic', 'Viscoelastic'], ['Elastic Correspondence'], ['Linear LPS Partial Volume'], ['Elastic Bond Based'], ['Elastic Plastic']])
            if solver == 'nox':
                kw['materials'] = rng.choice([['Elastic'], ['Elastic Correspondence']])
            scen = gen.scenario(rng, solver=solver, **kw)
            s = scen['deck']['Solver']
            if solver == 'qs':
                q = s['QuasiStatic']
                if rng.random() < 0.4:
                    del q['Absolute Tolerance']
                    q['Relative Tolerance'] = rng.choice([1e-3, 1e-4, 1e-6, 1e-8])
                else:
                    q['Absolute Tolerance'] = rng.choice([1e-3, 1e-5, 1e-7, 1e-9])
                if rng.random() < 0.25:
                    q['Maximum Solver Iterations'] = rng.randint(1, 5)
                if rng.random() < 0.25:
                    q['Belos Relative Tolerance'] = rng.choice([0.3, 0.05, 1e-8])
                if rng.random() < 0.25 and 'Number of Load Steps' in q:
                    q['Adaptive Load-Stepping'] = {'Maximum load step reductions in one step': rng.randint(1, 4), 'Maximum total load step reductions': rng.randint(4, 9), 'Reduce all remaining load steps': rng.random() < 0.3}
                    q['Maximum Solver Iterations'] = rng.randint(2, 5)
                if rng.random() < 0.3:
                    for b in scen['info']['bcs']:  # large load
                        if b['set'] == 'Node Set Right' and b['coord'] == 'x':
                            b['expr'] = '%r*t' % gen.rnd(rng, 0.1, 0.6)
                    for c in scen['deck']['Boundary Conditions'].values():
                        if isinstance(c, dict) and c.get('Node Set') == 'Node Set Right' and c.get('Coordinate') == 'x':
                            c['Value'] = next(b['expr'] for b in scen['info']['bcs'] if b['set'] == 'Node Set Right' and b['coord'] == 'x')
            elif solver == 'nox':
                q = s['NOXQuasiStatic']
                if rng.random() < 0.4:
                    q.pop('Relative Tolerance')
                    q['Absolute Tolerance'] = rng.choice([1e-3, 1e-5, 1e-7])
                else:
                    q['Relative Tolerance'] = rng.choice([1e-3, 1e-5, 1e-8])
                if rng.random() < 0.25:
                    q['Max Solver Iterations'] = rng.randint(1, 5)
            else:
                q = s['Implicit']
                q['Absolute Tolerance'] = rng.choice([1e-4, 1e-6, 1e-8, 1e-9])
                q['Maximum Solver Iterations'] = rng.choice([0, 1, 2, 10, 20])
                q['Beta'], q['Gamma'] = rng.choice([(0.25, 0.5), (0.25, 0.5), (0.3025, 0.6), (0.16, 0.5)])
            set_variables(scen, ['Displacement', 'Velocity', 'Force_Density', 'External_Force_Density', 'Volume'], 1)
        for o in scen['info']['outputs']:
            o.pop('first', None)
            o.pop('last', None)
        for k, v in scen['deck'].items():
            if k.startswith('Output') and isinstance(v, dict):
                v.pop('Initial Output Step', None)
                v.pop('Final Output Step', None)
        np = 1 if rng.random() < 0.15 else ranks(rng, scen['info']['n'], 8)
        return plain({'scen': scen, 'np': np, 'sched': gen.schedule(rng, calm=rng.random() < 0.5), 'pick': rng.random(), 'np2': rng.choice([1, 2, 3]), 'fixed_output': 1})

    def judge(self, M, case):
        scen, np = case['scen'], case['np']
        info = scen['info']
        j = launch(M, scen, np, case['sched'])
        facts(M, case)
        t = j.text(0).replace('\b', '')
        if j.status != 0:
            if j.r['outcome'] in ('done', 'abort'):
                M.facts['runs that report failure'] += 1
                raise Skip('job fails')
            return Violation('end', j.describe())
        try:
            R = load(j, scen, np)
            return getattr(self, info['solver'])(M, case, R, t)
        except results.Bad as e:
            return Violation('files', str(e))

    def held(self, scen):
        out = set()
        for b in scen['info']['bcs']:
            if b['type'] == 'Prescribed Displacement':
                for i in scen['info']['sets'][b['set']]:
                    out.add((i + 1, 'xyz'.index(b['coord'])))
        return out

    def worst(self, F, E, pts, held):
        return max([abs(F[g][a] + E[g][a]) * pts[g][4] for g in pts for a in range(3) if (g, a) not in held] or [0.0])

    def criteria(self, t, n):
        """(criterion, said) of the accepted steps, in order; said: the program announced that the tolerance is missed"""
        out = []
        for part in t.split('Load step ')[1:]:
            m = re.search(r'convergence criterion = (\S+)', part)
            if 'Cutting the load step' not in part:
                out.append((float(m.group(1)) if m else None, bool(WARN.search(part))))
        if len(out) != n:  # the program's messages are not what they used to be
            out = [(None, bool(WARN.search(t)))] * n
        return out

    def qs(self, M, case, R, t, nox=False):
        scen = case['scen']
        s = scen['deck']['Solver']['NOXQuasiStatic' if nox else 'QuasiStatic']
        if 'Switching to explicit' in t:
            raise Skip('switches to explicit')
        pts, held = mesh_points(scen), self.held(scen)
        cr = self.criteria(t, R.nt - 1)
        pick = 1 + int(case['pick'] * (R.nt - 1)) if R.nt > 1 else 0
        for k in range(1, R.nt):
            F, E = R.vec('Force_Density', k), R.vec('External_Force_Density', k)
            c, said = cr[k - 1]
            a = s.get('Absolute Tolerance')
            lim = a if a is not None else c * 1.06 if c is not None else None
            big = max([abs(x) for v in F.values() for x in v] or [0.0])
            sources = [('recorded forces', F, 1e-13)]
            if k == pick and all(m in PLAIN for m in scen['info']['material'].values()) and not scen['info'].get('thermal'):
                U = R.vec('Displacement', k)
                G = self.state(M, case, U)
                if G is not None:
                    M.facts['states evaluated again'] += 1
                    sources.append(('forces of the recorded positions', G, 1e-10))
                    if a is None:
                        V = R.vec('Displacement', k - 1)
                        H = self.state(M, case, {g: [U[g][d] if (g, d) in held else V[g][d] for d in range(3)] for g in pts})
                        if H is not None:
                            want = s.get('Relative Tolerance', 1e-6) * math.sqrt(sum((H[g][d] * pts[g][4]) ** 2 for g, d in held))
                            if c is None:
                                lim = want
                            elif not abs(want - c) <= 0.06 * want + 1e-9 * big * s.get('Relative Tolerance', 1e-6):
                                return Violation('criterion', 'load step %d aims at %r, the requested tolerance of the reactions is %r' % (k, c, want))
            if lim is None:
                continue
            for what, f, slack in sources:
                r = self.worst(f, E, pts, held)
                M.facts['balances checked'] += 1
                if r > lim * 1.0001 + slack * max(1.0, big) * max(p[4] for p in pts.values()) * 30:
                    if said:
                        M.facts['missed tolerance announced'] += 1
                        continue
                    return Violation('balance', 'load step %d at %r is written with an unbalanced force of %r (%s), requested %r' % (k, R.times[k], r, what, lim))

    def nox(self, M, case, R, t):
        return self.qs(M, case, R, t, True)

    def implicit(self, M, case, R, t):
        scen = case['scen']
        info = scen['info']
        s = scen['deck']['Solver']['Implicit']
        dt, beta, gamma, tol = s['Fixed dt'], s.get('Beta', 0.25), s.get('Gamma', 0.5), s['Absolute Tolerance']
        pts, held = mesh_points(scen), self.held(scen)
        cr = self.criteria(t, R.nt - 1)
        pick = 1 + int(case['pick'] * (R.nt - 1)) if R.nt > 1 else 0
        A = {g: [0.0] * 3 for g in pts}
        u, v = R.vec('Displacement', 0), R.vec('Velocity', 0)
        for k in range(1, R.nt):
            U, V, F, E = (R.vec(q, k) for q in ('Displacement', 'Velocity', 'Force_Density', 'External_Force_Density'))
            B = {}
            size = 0.0
            for g in pts:
                B[g] = []
                for d in range(3):
                    u2 = u[g][d] + dt * v[g][d] + 0.5 * dt * dt * (1 - 2 * beta) * A[g][d]
                    b = (U[g][d] - u2) / (beta * dt * dt)
                    B[g].append(b)
                    size = max(size, abs(b), abs(U[g][d]) / (beta * dt * dt), abs(V[g][d]) / dt)
            for g in pts:
                for d in range(3):
                    w = v[g][d] + dt * ((1 - gamma) * A[g][d] + gamma * B[g][d])
                    if abs(w - V[g][d]) > 1e-9 * size * dt + 1e-13 and (g, d) not in held:
                        return Violation('newmark', 'velocity of point %d in direction %d at %r is %r, the time integration rule gives %r' % (g, d, R.times[k], V[g][d], w))
            sources = [('recorded forces', F)]
            if k == pick and all(m in PLAIN for m in info['material'].values()) and not info.get('damage') and not info.get('thermal'):
                G = self.state(M, case, U)
                if G is not None:
                    M.facts['states evaluated again'] += 1
                    sources.append(('forces of the recorded positions', G))
            said = cr[k - 1][1]
            for what, f in sources:
                r = beta * dt * dt * max([abs(info['density'][str(pts[g][3])] * B[g][d] - f[g][d] - E[g][d]) for g in pts for d in range(3) if (g, d) not in held] or [0.0])
                M.facts['balances checked'] += 1
                if r > tol * 1.0001 + 1e-12 * size * beta * dt * dt * 10 * max(info['density'].values()):
                    if said:
                        M.facts['missed tolerance announced'] += 1
                        continue
                    return Violation('balance', 'step %d at %r is written with a residual of %r (%s), requested %r' % (k, R.times[k], r, what, tol))
            u, v, A = U, V, B

    def diffusion_step(self, pts, nbr, T, h, coef):
        out = {}
        for g, p in pts.items():
            out[g] = sum(coef * 6.0 / (math.pi * h ** 4 * d) * (T[q] - T[g]) * pts[q][4] for q, d in nbr[g])
        return out

    def diffusion(self, M, case, R, t):
        scen = case['scen']
        info = scen['info']
        s = scen['deck']['Solver']['ImplicitDiffusion']
        pts = mesh_points(scen)
        h = info['horizon']['1']
        nbr = {g: [] for g in pts}
        for g, q in pair_list(pts, h):
            d = distance(pts[g], pts[q])
            nbr[g].append((q, d))
            nbr[q].append((g, d))
        held = set(i + 1 for i in info['sets']['Node Set Held'])
        cr = self.criteria(t, R.nt - 1)
        for k in range(1, R.nt):
            T, W = R.get('Temperature', k), R.get('Flux_Divergence', k)
            f = self.diffusion_step(pts, nbr, T, h, info['coefficient'])
            for g in held:
                x, y, z = pts[g][:3]
                want = gen.evaluate(info['bcs'][0]['expr'], x, y, z, R.times[k])
                if abs(want - T[g]) > 1e-9 * max(1.0, abs(want)):
                    return Violation('held', 'prescribed temperature of point %d at %r is %r, requested %r' % (g, R.times[k], T[g], want))
            big = max(sum(info['coefficient'] * 6.0 / (math.pi * h ** 4 * d) * abs(T[q] - T[g]) * pts[q][4] for q, d in nbr[g]) for g in pts)
            size = max(abs(x) for x in T.values()) * max(sum(info['coefficient'] * 6.0 / (math.pi * h ** 4 * d) * pts[q][4] for q, d in nbr[g]) for g in pts)
            for g in pts:
                if abs(f[g] - W[g]) > 1e-11 * size + 1e-14:
                    return Violation('flux', 'flux divergence of point %d at %r is %r, from the recorded temperatures %r' % (g, R.times[k], W[g], f[g]))
            r = max([abs(f[g]) * pts[g][4] for g in pts if g not in held] or [0.0])
            a = s.get('Absolute Tolerance')
            c, said = cr[k - 1]
            lim = a if a is not None else c * 1.06 if c is not None else None
            if lim is None:
                continue
            M.facts['balances checked'] += 1
            if r > lim * 1.0001 + 1e-11 * size * 30:
                if said:
                    M.facts['missed tolerance announced'] += 1
                    continue
                return Violation('balance', 'load step %d at %r is written with an unbalanced flux of %r, requested %r' % (k, R.times[k], r, lim))

    def state(self, M, case, U):
        """forces of a given configuration, from the initial evaluation of an explicit run"""
        scen = copy.deepcopy(case['scen'])
        deck = scen['deck']
        deck['Solver'] = {'Verbose': False, 'Initial Time': 0.0, 'Final Time': 1e-9, 'Verlet': {'Fixed dt': 1e-9}}
        bc = deck['Boundary Conditions'] = {}
        for g in sorted(U):
            bc['Node Set P%d' % g] = str(g)
            for d in range(3):
                bc['At %d %d' % (g, d)] = {'Type': 'Initial Displacement', 'Node Set': 'Node Set P%d' % g, 'Coordinate': 'xyz'[d], 'Value': 'value = %s' % number(U[g][d])}
        deck.pop('Compute Class Parameters', None)
        for k, v in deck.items():
            if k.startswith('Output') and isinstance(v, dict):
                v['Output Variables'] = {'Displacement': True, 'Force_Density': True}
        j = launch(M, scen, case['np2'], {'seed': 1})
        if j.status != 0:
            return None
        R = results.Results(j.d, scen['info']['outputs'][0]['file'], case['np2'])
        W = R.vec('Displacement', 0)
        if any(abs(W[g][d] - U[g][d]) > 1e-14 + 1e-14 * abs(U[g][d]) for g in U for d in range(3)):
            raise Skip('displacements could not be imposed')
        return R.vec('Force_Density', 0)


def number(x):
    """a decimal the expression parser understands"""
    s = '%.20f' % x
    return s


CHECK = C()
