import math
from .. import gen, results
from ..common import *
from ..frame import Check

LOCAL = ['Displacement', 'Velocity', 'Coordinates', 'Volume', 'Force_Density']


class C(Check):
    id = 'C14'
    rule = 'a case is a random deck that asks for global energy and momenta and for several block-wise and nearest-point quantities, a process count and a schedule; every global value in the file of every process is recomputed from the per-point values of the same output time'
    assumptions = ['where several points are equally near to the tracked position any of them is accepted']

    def case(self, rng, tier):
        scen = any_scenario(rng, steps=(2, 12))
        info = scen['info']
        scen['deck'].pop('Compute Class Parameters', None)
        info.pop('computes', None)
        vs = LOCAL + [v for v in ('Global_Kinetic_Energy', 'Global_Linear_Momentum', 'Global_Angular_Momentum', 'Kinetic_Energy', 'Linear_Momentum', 'Angular_Momentum') if rng.random() < 0.7]
        extra = []
        if info.get('damage') and info['damage'] != 'Von Mises Stress' and sorted(set(info.get('damaged', []))) == sorted(info['material']):
            extra.append('Damage')
        if all('Dilatation' in gen.MATERIALS[m]['fields'] for m in info['material'].values()):
            extra.append('Dilatation')
        if info.get('thermal'):
            extra.append('Temperature_Change')
        set_variables(scen, vs + extra, rng.choice([1, 1, 2, 3]))
        probes(rng, scen, rng.randint(2, 6), LOCAL + extra)
        np = 1 if rng.random() < 0.1 else ranks(rng, info['n'], 8)
        return plain({'scen': scen, 'np': np, 'sched': gen.schedule(rng, calm=rng.random() < 0.3), 'fixed_output': 1})

    def judge(self, M, case):
        scen, np = case['scen'], case['np']
        info = scen['info']
        j = launch(M, scen, np, case['sched'])
        if j.status != 0:
            raise Skip('job fails')
        try:
            R = load(j, scen, np)
            if not finite(R):
                raise Skip('problem blows up')
            facts(M, case)
            rho = {int(b): d for b, d in info['density'].items()}
            for k in range(R.nt):
                want = self.expected(M, scen, R, k, rho)
                for p, q in enumerate(R.globs(k)):
                    for n, v in q.items():
                        if n not in want:
                            return Violation('extra', 'unexpected global quantity %s' % n)
                        w, tol, choice = want[n]
                        M.facts['global values compared'] += 1
                        if w != w:  # the points hold no number either
                            continue
                        if not any(abs(v - x) <= tol for x in choice or [w]):
                            return Violation('value', '%s at %r is %r in the file of process %d, the points give %r (tolerance %.2g)' % (n, R.times[k], v, p, w, tol))
                    if len(q) != len(want):
                        return Violation('missing', 'global quantities %r are missing' % sorted(set(want) - set(q)))
                v = self.local(M, R, k, rho)
                if v:
                    return v
        except results.Bad as e:
            return Violation('files', str(e))

    def expected(self, M, scen, R, k, rho):
        info = scen['info']
        V = R.get('Volume', k)
        vel, y = R.vec('Velocity', k), R.vec('Coordinates', k)
        m = {g: rho[R.block[g]] * V[g] for g in R.ids}
        out = {}
        vs = info['outputs'][0]['vars']
        if 'Global_Kinetic_Energy' in vs:
            w = sum(0.5 * m[g] * sum(q * q for q in vel[g]) for g in R.ids)
            out['Global_Kinetic_Energy'] = (w, 1e-11 * w + 1e-300, None)
        for n, f in (('Linear', lambda g: vel[g]), ('Angular', lambda g: gen.cross(vel[g], y[g]))):
            if 'Global_%s_Momentum' % n in vs:
                t = [[m[g] * q for q in f(g)] for g in R.ids]
                s = [sum(q[c] for q in t) for c in range(3)]
                size = sum(max(abs(x) for x in q) for q in t)
                if n == 'Angular':
                    size = sum(m[g] * max(abs(q) for q in vel[g]) * max(abs(q) for q in y[g]) for g in R.ids)
                out['Global_%s_Momentum' % n] = (math.sqrt(sum(x * x for x in s)), 1e-11 * size + 1e-300, None)
        for label, c in info['computes'].items():
            names = [c['Variable']] if R.has(c['Variable']) else [c['Variable'] + q for q in 'XYZ']
            for n in names:
                d = R.get(n, k)
                suffix = n[len(c['Variable']):]
                if c['Compute Class'] == 'Block_Data':
                    b = int(c['Block'][6:])
                    val = [d[g] for g in R.ids if R.block[g] == b]
                    if any(v != v for v in val):
                        val = [math.nan]
                    kind = c['Calculation Type']
                    if kind == 'Sum':
                        out[label + suffix] = (sum(val), 1e-11 * sum(abs(v) for v in val) + 1e-300, None)
                    else:
                        out[label + suffix] = (min(val) if kind == 'Minimum' else max(val), 0.0, None)
                else:
                    pos = (c['X'], c['Y'], c['Z'])
                    near = min(distance(R.x[g], pos) for g in R.ids)
                    ch = [d[g] for g in R.ids if distance(R.x[g], pos) <= near * (1 + 1e-12) + 1e-12]
                    out[label + suffix] = (ch[0], 0.0, ch)
        return out

    def local(self, M, R, k, rho):
        """the per-point energy and momenta that the global ones sum up"""
        V = R.get('Volume', k)
        vel, y = R.vec('Velocity', k), R.vec('Coordinates', k)
        for g in R.ids:
            m = rho[R.block[g]] * V[g]
            if R.has('Kinetic_Energy'):
                w = 0.5 * m * sum(q * q for q in vel[g])
                if not close(R.get('Kinetic_Energy', k)[g], w, 1e-12, 1e-300):
                    return Violation('local', 'Kinetic_Energy of point %d at %r is %r instead of %r' % (g, R.times[k], R.get('Kinetic_Energy', k)[g], w))
            for n, w in (('Linear_Momentum', vel[g]), ('Angular_Momentum', gen.cross(vel[g], y[g]))):
                if R.has(n + 'X'):
                    tol = 1e-12 * m * max(abs(q) for q in vel[g]) * (1 if n[0] == 'L' else 2 * max(abs(q) for q in y[g])) + 1e-300
                    for c in range(3):
                        x = R.get(n + 'XYZ'[c], k)[g]
                        if abs(x - m * w[c]) > tol:
                            return Violation('local', '%s%s of point %d at %r is %r instead of %r' % (n, 'XYZ'[c], g, R.times[k], x, m * w[c]))


def probes(rng, scen, n, variables):
    info, deck = scen['info'], scen['deck']
    out = info.setdefault('computes', {})
    par = deck.setdefault('Compute Class Parameters', {})
    pts = scen['mesh']['pts']
    for k in range(n):
        label = 'Probe_%d' % (k + 1)
        var = rng.choice(variables)
        if rng.random() < 0.6:
            c = {'Compute Class': 'Block_Data', 'Calculation Type': rng.choice(['Minimum', 'Maximum', 'Sum']), 'Block': 'block_%s' % rng.choice(sorted(info['horizon']))}
        else:
            u = rng.random()
            p = rng.choice(pts)[:3]
            if u < 0.3:
                p = [q + gen.rnd(rng, -0.4, 0.4) for q in p]
            elif u < 0.5:
                o = rng.choice(pts)
                p = [(p[a] + o[a]) / 2 for a in range(3)]
            elif u < 0.7:
                p = [gen.rnd(rng, -50.0, 50.0) for _ in range(3)]
            c = {'Compute Class': 'Nearest_Point_Data', 'X': p[0], 'Y': p[1], 'Z': p[2]}
            if rng.random() < 0.2:
                c['Verbose'] = True
        c.update({'Variable': var, 'Output Label': label})
        par['Compute ' + label] = c
        out[label] = c
        info['outputs'][0]['vars'].append(label)
        deck['Output']['Output Variables'][label] = True


CHECK = C()
