import math

from .. import gen, results
from ..common import *
from ..frame import Check

EPS = 1e-7


class C(Check):
    id = 'C09'
    rule = 'a case is a random arrangement of points with random volumes, blocks, constant or position-dependent horizons, cutting planes and disks and excluded block pairs, on 1-8 processes under a random schedule; every neighbour count and neighbourhood volume is compared with a search over all pairs'
    assumptions = ['cases where a distance equals a horizon, or a bond touches the rim of a cut, within 1e-7 are not generated']

    def case(self, rng, tier):
        n = rng.choice([rng.randint(2, 12), rng.randint(8, 60), rng.randint(30, 160)])
        if rng.random() < 0.2:
            d = gen.dims3(rng, n)
            return self.quick_grid(rng, d)
        variable = rng.random() < 0.2
        if variable:
            n = max(n, 40)
        pts = gen.cloud(rng, n, rng.choice(['box', 'grid', 'graded']) if variable else None)
        nb = rng.choice([1, 1, 2, 3, 5])
        lo = [min(p[a] for p in pts) for a in range(3)]
        hi = [max(p[a] for p in pts) for a in range(3)]
        ax = max(range(3), key=lambda a: hi[a] - lo[a])
        style = rng.choice(['slab', 'random'])
        ids = rng.sample([1, 2, 3, 4, 7, 12, 30], nb)
        blocks = []
        for p in pts:
            k = rng.randrange(nb) if style == 'random' else min(nb - 1, int((p[ax] - lo[ax]) / (hi[ax] - lo[ax] + 1e-9) * nb))
            blocks.append(ids[k])
        vols = [gen.rnd(rng, 0.2, 2.0, 6) for _ in pts]
        hz, fn = {}, {}
        base = rng.choice([1.9, 2.1, 3.1] if variable else [0.6, 1.1, 1.6, 2.1, 3.1])
        for b in sorted(set(blocks)):
            h = base if variable or rng.random() < 0.5 else rng.choice([0.4, 0.9, 1.6, 2.2, 3.4, 4.8])
            while gen.mindist_to(pts, h, 1e-5):
                h = round(h + 0.0137, 6)
            hz[b] = h
            if variable and rng.random() < 0.7:
                L = max(1.0, hi[ax] - lo[ax])
                c = 'xyz'[ax]
                q = [p[ax] for p in pts]
                fn[str(b)] = '%r + %r*(%s - %r)' % (round(h, 4), round(rng.uniform(0.0, 1.5) / L, 5), c, round(min(q), 4))
        scen = gen.simple(rng, pts, blocks, vols, hz, fn or None, material='Elastic Correspondence' if fn else 'Elastic', variables=('Number_Of_Neighbors', 'Neighborhood_Volume', 'Volume'))
        info = scen['info']
        di = scen['deck']['Discretization']
        if rng.random() < (0.1 if fn else 0.35):
            fl = {}
            for k in range(rng.choice([1, 1, 2, 3])):
                fl['Cut %d' % k] = cutter(rng, lo, hi)
            di['Bond Filters'] = fl
            info['filters'] = fl
        if nb > 1 and rng.random() < (0.05 if fn else 0.3):
            di['Omit Bonds Between Blocks'] = 'All'
            info['omit'] = True
        np = rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8])
        return plain({'scen': scen, 'np': np if rng.random() < 0.1 else max(1, min(np, n)), 'sched': gen.schedule(rng, calm=rng.random() < 0.3), 'fixed_output': 1})

    def quick_grid(self, rng, d):
        scen = gen.scenario(rng, mesh='quick', materials=['Elastic'], size=(8, 160), steps=(1, 2), contact=False, damage=False, thermal=False, influence=False)
        set_variables(scen, ['Number_Of_Neighbors', 'Neighborhood_Volume', 'Volume'], 1)
        return plain({'scen': scen, 'np': rng.choice([1, 2, 3, 4, 6]), 'sched': gen.schedule(rng), 'fixed_output': 1})

    def judge(self, M, case):
        scen, np = case['scen'], case['np']
        pts = mesh_points(scen)
        hz = horizon_of(scen)
        info = scen['info']
        nbr = {g: [] for g in pts}
        for g, h in pair_list(pts, max(hz.values()) + EPS):
            p, q = pts[g], pts[h]
            if info.get('omit') and p[3] != q[3]:
                continue
            d = distance(p, q)
            if abs(d - hz[g]) < EPS or abs(d - hz[h]) < EPS:
                raise Skip('distance equals horizon')
            if d > hz[g] and d > hz[h]:
                continue
            cut = False
            for f in (info.get('filters') or {}).values():
                c = crosses(f, p, q)
                if c is None:
                    raise Skip('bond touches the rim of a cut')
                cut = cut or c
            if cut:
                continue
            if d <= hz[g]:
                nbr[g].append(h)
            if d <= hz[h]:
                nbr[h].append(g)
        j = launch(M, scen, np, case['sched'])
        if j.status != 0:
            if np == 1 or launch(M, scen).status != 0:
                raise Skip('job fails')
            if info.get('horizon_fn') and any(flat(pts, g, nbr[g]) for g in pts):
                raise Skip('neighbours in one plane, which the material refuses or not depending on rounding')
            return Violation('fails', 'on %d processes: %s %s' % (np, j.describe(), brief(j)))
        facts(M, case)
        M.facts['points'] += len(pts)
        M.facts['bonds'] += sum(len(v) for v in nbr.values())
        if info.get('horizon_fn'):
            M.facts['position-dependent horizon'] += 1
        try:
            R = load(j, scen, np)
            N, V = R.get('Number_Of_Neighbors', 0), R.get('Neighborhood_Volume', 0)
        except results.Bad as e:
            return Violation('files', str(e))
        if sorted(N) != sorted(pts) or sorted(V) != sorted(pts):
            return Violation('points', 'counts for %d of %d points' % (len(N), len(pts)))
        if scen['mesh']['kind'] == 'cylinder' and any(int(round(N[g])) != len(nbr[g]) for g in pts):
            # the known finding, recognised by its exact consequence
            seen = window(scen, pts, hz)
            if all(int(round(N[g])) == len(seen[g]) and close(V[g], pts[g][4] + sum(pts[h][4] for h in seen[g]), 1e-11, 1e-11) for g in pts):
                g = min(g for g in pts if len(seen[g]) != len(nbr[g]))
                return Violation('bonds', 'point %d of a cylinder has %d neighbours within %r, the program has %r' % (g, len(nbr[g]), hz[g], N[g]), 'cylinder, angles searched for the mean radius')
        for g in sorted(pts):
            if int(round(N[g])) != len(nbr[g]):
                return Violation('bonds', 'point %d has %d neighbours within %r, the program has %r' % (g, len(nbr[g]), hz[g], N[g]))
            w = pts[g][4] + sum(pts[h][4] for h in nbr[g])
            if not close(V[g], w, 1e-11, 1e-11):
                return Violation('bonds', 'neighbourhood volume of point %d is %r, from all pairs %r' % (g, V[g], w))


def cutter(rng, lo, hi):
    """a rectangle or disk somewhere in the bounding box, axis-aligned or tilted"""
    c = [rng.uniform(lo[a], hi[a] + 0.01) for a in range(3)]
    if rng.random() < 0.4:
        n = [0.0, 0.0, 0.0]
        n[rng.randrange(3)] = rng.choice([1.0, -1.0])
    else:
        n = unit([rng.gauss(0, 1) for _ in range(3)])
    size = max(hi[a] - lo[a] for a in range(3))
    if rng.random() < 0.4:
        return {'Type': 'Disk', 'Center_X': c[0], 'Center_Y': c[1], 'Center_Z': c[2], 'Normal_X': n[0], 'Normal_Y': n[1], 'Normal_Z': n[2], 'Radius': rng.uniform(0.1, 0.8) * size + 0.3}
    b = unit(gen.cross(n, [rng.gauss(0, 1) for _ in range(3)]))
    a = gen.cross(b, n)
    lb, la = rng.uniform(0.2, 1.2) * size + 0.3, rng.uniform(0.2, 1.2) * size + 0.3
    ll = [c[k] - 0.5 * lb * b[k] - 0.5 * la * a[k] for k in range(3)]
    return {'Type': 'Rectangular_Plane', 'Normal_X': n[0], 'Normal_Y': n[1], 'Normal_Z': n[2], 'Lower_Left_Corner_X': ll[0], 'Lower_Left_Corner_Y': ll[1], 'Lower_Left_Corner_Z': ll[2],
            'Bottom_Unit_Vector_X': b[0], 'Bottom_Unit_Vector_Y': b[1], 'Bottom_Unit_Vector_Z': b[2], 'Bottom_Length': lb, 'Side_Length': la}


def flat(pts, g, others):
    """whether the neighbours of a point lie in one plane with it"""
    K = [[sum(pts[h][4] * (pts[h][a] - pts[g][a]) * (pts[h][b] - pts[g][b]) for h in others) for b in range(3)] for a in range(3)]
    det = sum(K[0][a] * (K[1][(a + 1) % 3] * K[2][(a + 2) % 3] - K[1][(a + 2) % 3] * K[2][(a + 1) % 3]) for a in range(3))
    return det <= 1e-9 * (K[0][0] + K[1][1] + K[2][2]) ** 3


def window(scen, pts, hz):
    """neighbours in a cylinder when only so many rays to either side are searched as the horizon spans at the mean radius"""
    m = scen['mesh']
    r, a = m['rings'], m['rays']
    q = hz[min(pts)] / (2 * math.pi / a * (m['inner'] + r / 2.0))
    n = min(int(q + 0.5), a)
    out = {}
    g0 = min(pts)
    for g in pts:
        ray = (g - g0) // r % a
        out[g] = []
        for h in pts:
            d = ((h - g0) // r % a - ray) % a
            times = sum(1 for k in range(-n, n + 1) if k % a == d)
            if h != g and times and distance(pts[g], pts[h]) <= hz[g]:
                out[g] += [h] * times
    return out


def unit(v):
    q = sum(x * x for x in v) ** 0.5
    return [x / q for x in v]


def crosses(f, p, q):
    """does the bond cross the cut; None when too close to call"""
    n = [f['Normal_' + c] for c in 'XYZ']
    r0 = [f[('Center_' if f['Type'] == 'Disk' else 'Lower_Left_Corner_') + c] for c in 'XYZ']
    s0 = sum(n[k] * (p[k] - r0[k]) for k in range(3))
    s1 = sum(n[k] * (q[k] - r0[k]) for k in range(3))
    rim = abs(s0) < EPS or abs(s1) < EPS
    if not rim and (s0 > 0) == (s1 > 0):
        return False
    if rim and abs(s0 - s1) < 2 * EPS:
        return None if inside(f, r0, n, p) is not False else False
    t = s0 / (s0 - s1)
    x = [p[k] + t * (q[k] - p[k]) for k in range(3)]
    i = inside(f, r0, n, x)
    return None if rim and i is not False else i


def inside(f, r0, n, x):
    d = [x[k] - r0[k] for k in range(3)]
    if f['Type'] == 'Disk':
        r = sum(v * v for v in d) ** 0.5
        return None if abs(r - f['Radius']) < 1e-6 else r < f['Radius']
    b = [f['Bottom_Unit_Vector_' + c] for c in 'XYZ']
    a = gen.cross(b, n)
    u, v = sum(d[k] * b[k] for k in range(3)), sum(d[k] * a[k] for k in range(3))
    m = min(u, f['Bottom_Length'] - u, v, f['Side_Length'] - v)
    return None if abs(m) < 1e-5 else m > 0


CHECK = C()
