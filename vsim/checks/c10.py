from .. import gen, results
from ..common import *
from ..frame import Check


class C(Check):
    id = 'C10'
    rule = 'a case is a random unloaded deck (initial velocities and displacements only, any material, damage, contact, cuts, horizons per block), a process count and a schedule; total momentum, total internal and contact force and, where bond forces act along the bond, total angular momentum are computed from the per-point results of every step'
    assumptions = ['the tolerance is 1e-10 of the sum of the magnitudes of the individual terms']

    def case(self, rng, tier):
        u = rng.random()
        kw = dict(loads=('iv', 'iv', 'id'), thermal=rng.random() < 0.15, speed=rng.choice([0.1, 0.1, 0.4]), steps=(3, 24))
        kw['contact'] = rng.random() < 0.35
        if u < 0.6:
            kw['materials'] = [m for m in gen.ORDINARY if m not in ('Pals', 'Elastic Bond Based')]
        elif u < 0.7:
            kw.update(materials=['Elastic Bond Based'], nblocks=None if kw['contact'] else 1)
        elif u < 0.75:
            kw['materials'] = ['Pals']
        else:
            kw['materials'] = gen.CORR
        if rng.random() < 0.06:
            scen = gen.porous(rng, 'verlet', loads=kw['loads'])
        else:
            scen = gen.scenario(rng, **kw)
        info = scen['info']
        vs = ['Coordinates', 'Velocity', 'Volume', 'Force_Density'] + (['Contact_Force_Density'] if info.get('contact') else []) + (['Damage'] if info.get('damage') and info['damage'] != 'Von Mises Stress' else [])
        set_variables(scen, vs, 1)
        np = 1 if rng.random() < 0.15 else ranks(rng, info['n'], 8)
        return plain({'scen': scen, 'np': np, 'sched': gen.schedule(rng, calm=rng.random() < 0.3), 'fixed_output': 1})

    def judge(self, M, case):
        scen, np = case['scen'], case['np']
        info = scen['info']
        j = launch(M, scen, np, case['sched'])
        if j.status != 0:
            raise Skip('job fails')
        try:
            R = load(j, scen, np)
            if not finite(R):
                raise Skip('problem blows up')
            facts(M, case)
            rho = {int(b): d for b, d in info['density'].items()}
            mats = set(info['material'].values())
            ang = all(gen.MATERIALS[m]['ordinary'] for m in mats) and not (info.get('contact') or {}).get('friction')
            V = R.get('Volume', 0)
            m = {g: rho[R.block[g]] * V[g] for g in R.ids}
            dt = info['dt']
            P0 = L0 = None
            reach = 0.0
            for k in range(R.nt):
                v, y, f = R.vec('Velocity', k), R.vec('Coordinates', k), R.vec('Force_Density', k)
                P = [sum(m[g] * v[g][c] for g in R.ids) for c in range(3)]
                size = sum(m[g] * max(abs(q) for q in v[g]) for g in R.ids)
                fs = sum(V[g] * max(abs(q) for q in f[g]) for g in R.ids)
                cf = R.vec('Contact_Force_Density', k) if info.get('contact') else None
                if cf:
                    cs = sum(V[g] * max(abs(q) for q in cf[g]) for g in R.ids)
                    for c in range(3):
                        s = sum(V[g] * cf[g][c] for g in R.ids)
                        if abs(s) > 1e-10 * cs + 1e-15:
                            return Violation('contact', 'contact forces add up to %r in direction %s at %r (magnitudes %r)' % (s, 'xyz'[c], R.times[k], cs))
                    if cs > 0:
                        M.facts['steps with contact force'] += 1
                    fs += cs
                # time integration adds the rounding of every force and velocity so far
                reach = max(reach, size + fs * dt)
                for c in range(3):
                    s = sum(V[g] * f[g][c] for g in R.ids)
                    if abs(s) > 1e-10 * fs + 1e-15:
                        return Violation('force', 'internal forces add up to %r in direction %s at %r (magnitudes %r)' % (s, 'xyz'[c], R.times[k], fs))
                    if P0 and abs(P[c] - P0[c]) > 1e-10 * reach + 1e-15:
                        return Violation('momentum', 'momentum %s is %r at the start and %r at %r (magnitudes %r)' % ('xyz'[c], P0[c], P[c], R.times[k], reach))
                P0 = P0 or P
                if fs > 0:
                    M.facts['steps with force'] += 1
                if ang:
                    L = [0.0] * 3
                    ls = 0.0
                    for g in R.ids:
                        q = gen.cross(y[g], v[g])
                        r = max(abs(a) for a in y[g])
                        ls += m[g] * r * max(abs(a) for a in v[g]) + dt * V[g] * r * max(abs(a) for a in f[g])
                        for c in range(3):
                            L[c] += m[g] * q[c]
                    for c in range(3):
                        if L0 and abs(L[c] - L0[c]) > 1e-10 * max(ls, lmax) + 1e-15:
                            return Violation('angular', 'angular momentum %s is %r at the start and %r at %r (magnitudes %r)' % ('xyz'[c], L0[c], L[c], R.times[k], ls))
                    lmax = max(ls, lmax) if L0 else ls
                    L0 = L0 or L
                    M.facts['steps with angular momentum'] += 1
        except results.Bad as e:
            return Violation('files', str(e))


CHECK = C()
