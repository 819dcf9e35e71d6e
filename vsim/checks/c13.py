from .. import gen, results
from ..common import *
from ..frame import Check

EXPR0 = ['{a}', '{a}*x', '{a}*y + {b}*z', '{a}*x*y - {b}']          # constant in time
EXPRT = ['{a}*(t - T)', '{a}*(t - T)*x', '{a}*(t - T)*(t - T)*(y - {b})', '{a}*sin(3.0*(t - T))', '{a}*(t - T)*(x - {b}*y + 0.25*z)']  # zero at the start
EXPRF = ['{a}*t', '{a}*t*x + {b}', '{a}*sin(3.0*t) + {b}*y', '{a}*x - {b}*z*t*t']
TYPES = {'id': 'Initial Displacement', 'iv': 'Initial Velocity', 'pd': 'Prescribed Displacement', 'bf': 'Body Force', 'pt': 'Prescribed Temperature', 'it': 'Initial Temperature'}


def expr(rng, forms, amp, t0):
    return rng.choice(forms).format(a=repr(gen.rnd(rng, 0.1, 1.0) * amp * rng.choice([1, -1])), b=repr(gen.rnd(rng, 0.0, 1.0) * amp)).replace('T', repr(t0))


def spelled(rng, s):
    """another spelling of a name the program treats as the same"""
    u = rng.random()
    if u < 0.5:
        return s
    if u < 0.7:
        return s.replace(' ', '_')
    if u < 0.85:
        return s.upper()
    return ' ' + s.lower() + ' '


class C(Check):
    id = 'C13'
    rule = 'a case is a set of points (mostly without bonds, so that every component of every point has an exactly known motion; otherwise a random bonded problem of any solver), random node sets given inline or in files, random conditions on them, one or several solvers, a process count and a schedule; displacement, velocity, temperature and external force of every point are compared with a reference evaluation at every output time'
    assumptions = ['two conditions of the same kind never apply to the same component of the same node', 'a prescribed displacement that does not match the initial displacement may be taken as absolute or as an increment']

    def case(self, rng, tier):
        if rng.random() < 0.3:
            scen = any_scenario(rng, contact=False, steps=(2, 10))
            vs = ['Displacement', 'Velocity', 'External_Force_Density'] + (['Temperature', 'Temperature_Change'] if scen['info'].get('thermal') else [])
            set_variables(scen, vs, rng.choice([1, 1, 2]))
            scen['info']['bonded'] = 1
        else:
            scen = self.loose(rng)
        np = 1 if rng.random() < 0.1 else min(8, ranks(rng, scen['info']['n'], 8))
        return plain({'scen': scen, 'np': np, 'sched': gen.schedule(rng, calm=rng.random() < 0.3), 'fixed_output': 1, 'jobs': 1})

    def loose(self, rng):
        n = rng.randint(3, 60)
        pts = gen.cloud(rng, n, rng.choice(['box', 'grid', 'line', 'plane', 'clusters']))
        dmin = min(distance(p, q) for i, p in enumerate(pts) for q in pts[:i])
        nb = rng.choice([1, 1, 2, 3])
        blocks = [rng.randint(1, nb) for _ in pts]
        hz = {b: round(0.5 * dmin, 6) for b in sorted(set(blocks))}
        thermal = rng.random() < 0.25
        vs = ['Displacement', 'Velocity', 'Coordinates', 'External_Force_Density'] + (['Temperature', 'Temperature_Change'] if thermal else [])
        scen = gen.simple(rng, pts, blocks, [gen.rnd(rng, 0.5, 1.5, 6) for _ in pts], hz, variables=vs, dt=2.0 ** -rng.randint(3, 6))
        deck, info = scen['deck'], scen['info']
        if thermal:
            deck['Materials']['Mat']['Thermal Expansion Coefficient'] = 0.001
        t0 = rng.choice([0.0, 0.0, 0.25])
        info['t0'] = t0
        # solvers one after the other
        deck.pop('Solver')
        t, info['phases'] = t0, []
        ns = rng.choice([1, 1, 1, 2, 3])
        for k in range(ns):
            dt = 2.0 ** -rng.randint(3, 6)
            m = rng.randint(1, 8)
            deck['Solver' if ns == 1 else 'Solver %d' % (k + 1)] = {'Verbose': False, 'Initial Time': t, 'Final Time': t + m * dt, 'Verlet': {'Fixed dt': dt}}
            info['phases'].append([t, dt, m])
            t += m * dt
        info['nsteps'] = sum(p[2] for p in info['phases'])
        # sets, possibly overlapping
        sets = {}
        for k in range(rng.randint(1, 4)):
            sets['Node Set %d' % (k + 1)] = gen.subset(rng, n)
        used = set()
        bcs = []
        for k in range(rng.randint(1, 8)):
            kind = rng.choice(['id', 'iv', 'pd', 'pd', 'bf'] + (['pt', 'it'] if thermal else []))
            co = rng.choice('xyz') if kind not in ('pt', 'it') else None
            sn = rng.choice(sorted(sets))
            group = 'temp' if co is None else kind
            keys = {(group, co, i) for i in sets[sn]}
            if keys & used:
                continue
            if kind == 'pd' and t0 and {('id', co, i) for i in sets[sn]} & used:
                continue
            used |= keys
            e = {'id': lambda: expr(rng, EXPR0, 0.05, t0), 'iv': lambda: expr(rng, EXPR0, 0.1, t0), 'pd': lambda: expr(rng, EXPR0 if rng.random() < 0.25 else EXPRT, 0.1, t0),
                 'bf': lambda: expr(rng, EXPR0 + EXPRF, 0.5, t0), 'pt': lambda: expr(rng, EXPR0 + EXPRF, 50.0, t0), 'it': lambda: expr(rng, EXPR0, 50.0, t0)}[kind]()
            when = None
            if rng.random() < 0.25:
                # a value that is only assigned part of the time or in part of the body; otherwise it is zero
                if kind in ('id', 'iv', 'it') or rng.random() < 0.3:
                    k = rng.randrange(3)
                    when = '%s %s %r' % ('xyz'[k], rng.choice('<>'), rng.choice(pts)[k] + 1.0e-4)
                else:
                    # between two time steps
                    tm = t0 + (rng.randrange(int((t - t0) * 64)) + 0.5) / 64.0
                    when = 't %s %r' % ('>' if kind == 'pd' and 't' not in e else rng.choice('<>'), tm)
            bcs.append({'type': TYPES[kind], 'set': sn, 'coord': co, 'expr': '(%s if %s else 0.0)' % (e, when) if when else e, 'part': [e, when] if when else None})
        info['bcs'] = bcs
        gen.node_sets(scen, sets, rng)
        bc = deck['Boundary Conditions']
        for k in list(bc):
            s = spelled(rng, k)
            if s != k and rng.random() < 0.5:
                bc[s] = bc.pop(k)
        for k, b in enumerate(bcs):
            e = {'Type': spelled(rng, b['type']), 'Node Set': spelled(rng, b['set']), 'Value': b['expr']}
            if b['coord']:
                e['Coordinate'] = spelled(rng, b['coord'])
            u = rng.random()
            if b['part']:
                e['Value'] = 'if(%s) {value = %s;}' % (b['part'][1], b['part'][0])
                bc['Cond %d' % (k + 1)] = e
                continue
            try:
                num = float(b['expr'])
            except ValueError:
                num = None
            if num is not None and u < 0.5:
                e['Value'] = num
            elif u < 0.2:
                e['Value'] = 'value = ' + b['expr']
            elif u < 0.3:
                e['Value'] = 'if(x > -1.0e9) {value = %s;} else {value = 0.0;}' % b['expr']
            bc['Cond %d' % (k + 1)] = e
        f = rng.choice([1, 1, 2, 3])
        deck['Output']['Output Frequency'] = f
        info['outputs'][0]['freq'] = f
        return scen

    def judge(self, M, case):
        scen, np = case['scen'], case['np']
        info = scen['info']
        j = launch(M, scen, np, case['sched'])
        if j.status != 0:
            if info.get('bonded'):
                raise Skip('job fails')
            return Violation('fails', '%s %s' % (j.describe(), brief(j)))
        try:
            R = load(j, scen, np)
            if info.get('bonded'):
                if not finite(R):
                    raise Skip('problem blows up')
                M.facts['bonded'] += 1
                facts(M, case)
                return self.bonded(M, scen, R)
            M.facts['without bonds'] += 1
            M.facts['np=%d' % np] += 1
            return self.free(M, scen, R)
        except results.Bad as e:
            return Violation('files', str(e))

    def conds(self, scen):
        """(kind, coordinate) -> id -> expression"""
        info = scen['info']
        out = {}
        for b in info['bcs']:
            kind = [k for k, t in TYPES.items() if t == b['type']][0]
            d = out.setdefault((kind, b['coord']), {})
            for i in info['sets'][b['set']]:
                d.setdefault(i + 1, []).append(b['expr'])
        return out

    def free(self, M, scen, R):
        info = scen['info']
        pts = mesh_points(scen)
        cd = self.conds(scen)
        rho = 2.0
        writes = []
        t0 = info['t0']
        freq = info['outputs'][0]['freq']

        def val(kind, c, g, t):
            e = cd.get((kind, c), {}).get(g)
            return gen.evaluate(e[-1], *pts[g][:3], t) if e else None

        want = {}
        for c in 'xyz':
            for g in pts:
                u = val('id', c, g, 0.0) or 0.0
                v = val('iv', c, g, 0.0) or 0.0
                h = []
                for ti, dt, m in info['phases']:
                    f = val('bf', c, g, ti) or 0.0
                    h.append((ti, u, v, f))
                    a = f / rho
                    for s in range(1, m + 1):
                        tp, t = ti + (s - 1) * dt, ti + s * dt
                        v += dt / 2 * a
                        p = val('pd', c, g, t)
                        if p is not None:
                            q = val('pd', c, g, tp)
                            inc = p - q if p != q else p - u
                            v = inc / dt
                        u += dt * v
                        f = val('bf', c, g, t) or 0.0
                        a = f / rho
                        v += dt / 2 * a
                        h.append((t, u, v, f))
                want[c, g] = h
        times = [h[0] for h in want['x', next(iter(pts))]]
        keep = [k for k in range(len(times)) if k % freq == 0]
        if len(R.times) != len(keep) or any(abs(R.times[q] - times[k]) > 1e-12 for q, k in enumerate(keep)):
            return Violation('steps', 'output times %r instead of %r' % (R.times, [times[k] for k in keep]))
        for q, k in enumerate(keep):
            D, V, F, Y = R.vec('Displacement', q), R.vec('Velocity', q), R.vec('External_Force_Density', q), R.vec('Coordinates', q)
            for g, p in pts.items():
                for ci, c in enumerate('xyz'):
                    t, u, v, f = want[c, g][k]
                    free = not any((kd, c) in cd and g in cd[kd, c] for kd in ('id', 'iv', 'pd', 'bf'))
                    M.facts['component values compared'] += 1
                    for name, got, w, tol in (('Displacement', D[g][ci], u, 1e-11), ('Velocity', V[g][ci], v, 1e-10), ('External_Force_Density', F[g][ci], f, 1e-12), ('Coordinates', Y[g][ci], p[ci] + u, 1e-11 + 1e-14 * abs(p[ci]))):
                        if free and name != 'Coordinates':
                            tol = 0.0
                        if not abs(got - w) <= tol:
                            return Violation(name, '%s%s of point %d at %r is %r instead of %r' % (name, c.upper(), g, t, got, w))
            if R.has('Temperature'):
                T, dT = R.get('Temperature', q), R.get('Temperature_Change', q)
                t = times[k]
                for g in pts:
                    w = val('pt', None, g, t)
                    dw = None
                    if w is None:
                        w = val('it', None, g, 0.0) or 0.0
                        dw = 0.0
                    elif k:
                        dw = w - val('pt', None, g, 0.0)
                    M.facts['temperatures compared'] += 1
                    if not abs(T[g] - w) <= 1e-11 * max(1.0, abs(w)):
                        return Violation('Temperature', 'Temperature of point %d at %r is %r instead of %r' % (g, t, T[g], w))
                    if dw is not None and not abs(dT[g] - dw) <= 1e-11 * max(1.0, abs(dw)):
                        return Violation('Temperature_Change', 'Temperature_Change of point %d at %r is %r instead of %r' % (g, t, dT[g], dw))

    def bonded(self, M, scen, R):
        info = scen['info']
        pts = mesh_points(scen)
        cd = self.conds(scen)
        t0 = info['t0']
        for k in range(R.nt):
            t = R.times[k]
            D, F = R.vec('Displacement', k), R.vec('External_Force_Density', k)
            for g, p in pts.items():
                for ci, c in enumerate('xyz'):
                    e = cd.get(('id', c), {}).get(g)
                    u0 = gen.evaluate(e[-1], *p[:3], 0.0) if e else 0.0
                    pd = cd.get(('pd', c), {}).get(g)
                    if k == 0 and not (e and len(e) > 1):
                        if not close(D[g][ci], u0):
                            return Violation('initial', 'Displacement%s of point %d at the initial time is %r instead of %r' % (c.upper(), g, D[g][ci], u0))
                    if pd and k and len(pd) == 1:
                        f = gen.evaluate(pd[0], *p[:3], t)
                        f0 = gen.evaluate(pd[0], *p[:3], t0)
                        M.facts['prescribed values compared'] += 1
                        if not close(D[g][ci], f, 1e-9, 1e-11) and not close(D[g][ci], u0 + f - f0, 1e-9, 1e-11):
                            return Violation('Displacement', 'Displacement%s of point %d at %r is %r instead of %r' % (c.upper(), g, t, D[g][ci], f))
                    bf = cd.get(('bf', c), {}).get(g)
                    if not (bf and len(bf) > 1):
                        f = gen.evaluate(bf[0], *p[:3], t) if bf else 0.0
                        if not close(F[g][ci], f):
                            return Violation('External_Force_Density', 'External_Force_Density%s of point %d at %r is %r instead of %r' % (c.upper(), g, t, F[g][ci], f))
            if R.has('Temperature'):
                T = R.get('Temperature', k)
                for g, p in pts.items():
                    e = cd[('pt', None)].get(g)
                    f = gen.evaluate(e[0], *p[:3], t) if e else 0.0
                    if not close(T[g], f):
                        return Violation('Temperature', 'Temperature of point %d at %r is %r instead of %r' % (g, t, T[g], f))


CHECK = C()
