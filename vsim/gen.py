"""Random problems ("scenarios").  Everything is drawn from the rng handed in, so a seed fixes the
whole problem.  A scenario is plain JSON: the deck, the mesh points and an "info" part with what the
oracles need to know (horizons, densities, conditions, output specifications)."""
import math, re

# ordinary = bond forces act along the bond; nodal/elem = extra fields the model keeps per point
MATERIALS = {
    'Elastic': dict(ordinary=True, cls='state', fields=['Dilatation', 'Weighted_Volume'], implicit=True),
    'Elastic Plastic': dict(ordinary=True, cls='state', fields=['Dilatation', 'Weighted_Volume', 'Lambda'], implicit=True, hist=True),
    'Elastic Plastic Hardening': dict(ordinary=True, cls='state', fields=['Dilatation', 'Weighted_Volume', 'Lambda'], implicit=True, hist=True),
    'Viscoelastic': dict(ordinary=True, cls='state', fields=['Dilatation', 'Weighted_Volume'], implicit=True, hist=True),
    'Elastic Bond Based': dict(ordinary=True, cls='bond', fields=[], implicit=True),
    'Pals': dict(ordinary=True, cls='pals', fields=['Dilatation', 'Weighted_Volume'], implicit=True),
    'Linear LPS Partial Volume': dict(ordinary=False, cls='lps', fields=['Dilatation', 'Weighted_Volume'], implicit=True),
    'Elastic Correspondence': dict(ordinary=False, cls='corr', fields=['Unrotated_Cauchy_Stress', 'Deformation_Gradient'], implicit=True),
    'Elastic Plastic Correspondence': dict(ordinary=False, cls='corr', fields=['Unrotated_Cauchy_Stress', 'Von_Mises_Stress', 'Equivalent_Plastic_Strain'], hist=True),
    'Isotropic Hardening Correspondence': dict(ordinary=False, cls='corr', fields=['Unrotated_Cauchy_Stress', 'Von_Mises_Stress', 'Equivalent_Plastic_Strain'], hist=True),
    'Viscoplastic Needleman Correspondence': dict(ordinary=False, cls='corr', fields=['Unrotated_Cauchy_Stress', 'Von_Mises_Stress', 'Equivalent_Plastic_Strain'], hist=True),
    'Elastic Hypoelastic Correspondence': dict(ordinary=False, cls='hypo', fields=['Unrotated_Cauchy_Stress'], hist=True),
    'Elastic Plastic Hypoelastic Correspondence': dict(ordinary=False, cls='hypo', fields=['Unrotated_Cauchy_Stress', 'Von_Mises_Stress', 'Equivalent_Plastic_Strain'], hist=True),
    'Isotropic Hardening Hypoelastic Correspondence': dict(ordinary=False, cls='hypo', fields=['Unrotated_Cauchy_Stress', 'Von_Mises_Stress', 'Equivalent_Plastic_Strain'], hist=True),
    'Elastic Bond Associated Correspondence': dict(ordinary=False, cls='ba', fields=['Unrotated_Cauchy_Stress'], hist=True),
    'Elastic Plastic Bond Associated Correspondence': dict(ordinary=False, cls='ba', fields=['Von_Mises_Stress', 'Equivalent_Plastic_Strain'], hist=True),
    'Isotropic Hardening Bond Associated Correspondence': dict(ordinary=False, cls='ba', fields=['Von_Mises_Stress', 'Equivalent_Plastic_Strain'], hist=True),
}
ORDINARY = [m for m, a in MATERIALS.items() if a['ordinary']]
CORR = [m for m, a in MATERIALS.items() if a['cls'] in ('corr', 'hypo', 'ba')]


def rnd(rng, a, b, n=4):
    return round(rng.uniform(a, b), n)


def material(rng, name, horizon, thermal=False):
    p = {'Material Model': name, 'Density': rnd(rng, 1.0, 3.0)}
    K, G = rnd(rng, 1.0, 3.0), rnd(rng, 0.5, 1.5)
    if name == 'Elastic Bond Based':
        if rng.random() < 0.5:
            p["Young's Modulus"] = rnd(rng, 1.0, 3.0)
        else:
            p['Bulk Modulus'] = K
        return p
    if rng.random() < 0.7:
        p['Bulk Modulus'], p['Shear Modulus'] = K, G
    else:
        p["Young's Modulus"], p["Poisson's Ratio"] = rnd(rng, 1.0, 3.0), rnd(rng, 0.05, 0.35)
    c = MATERIALS[name]['cls']
    if c == 'corr':
        p['Hourglass Coefficient'] = rnd(rng, 0.01, 0.1)
    if c == 'hypo':
        p['Actual Horizon'] = round(horizon * rng.choice([1.0, 1.0, 0.85]), 6)
    if c in ('hypo', 'ba') and rng.random() < 0.3:
        p['Gradient Order Of Accuracy'] = rng.choice([1, 1, 2]) if c == 'hypo' else 1
    y = rnd(rng, 0.005, 0.1)
    if name in ('Elastic Plastic', 'Elastic Plastic Hardening', 'Elastic Plastic Correspondence', 'Isotropic Hardening Correspondence', 'Viscoplastic Needleman Correspondence',
                'Elastic Plastic Hypoelastic Correspondence', 'Isotropic Hardening Hypoelastic Correspondence', 'Elastic Plastic Bond Associated Correspondence'):
        p['Yield Stress'] = y
    if name in ('Elastic Plastic Hardening', 'Isotropic Hardening Correspondence'):
        p['Hardening Modulus'] = rnd(rng, 0.05, 0.5)
    if name == 'Viscoelastic':
        p['lambda_i'], p['tau b'] = rnd(rng, 0.1, 0.9), rnd(rng, 0.1, 2.0)
    if name == 'Isotropic Hardening Hypoelastic Correspondence':
        p['Hardening Characteristic Strain'], p['Hardening Exponent'] = rnd(rng, 0.01, 0.1), rnd(rng, 0.1, 0.5)
    if name == 'Isotropic Hardening Bond Associated Correspondence':
        if rng.random() < 0.5:
            p['Hardening Rule'] = 'Power-law'
            p['Hardening Parameters'] = {'Yield Stress': y, 'Hardening Characteristic Strain': rnd(rng, 0.01, 0.1), 'Hardening Exponent': rnd(rng, 0.1, 0.5)}
        else:
            p['Hardening Rule'] = 'Saturation type exponential'
            p['Hardening Parameters'] = {'Initial Yield Stress': y, 'Saturated Yield Stress': 2 * y, 'Exponential Constant': 10.0, 'Linear Constant': 0.01}
    if name == 'Viscoplastic Needleman Correspondence':
        p.update({'Strain Hardening Exponent': 0.1, 'Rate Hardening Exponent': 0.1, 'Reference Strain Rate': 0.1, 'Reference Strain 0': 0.01, 'Reference Strain 1': 0.1})
    if name in ('Isotropic Hardening Correspondence', 'Viscoplastic Needleman Correspondence') and rng.random() < 0.3:
        p.update({'Enable Flaw': True, 'Flaw Location X': 1.0, 'Flaw Location Y': 1.0, 'Flaw Location Z': 0.5, 'Flaw Size': 0.7, 'Flaw Magnitude': 0.2})
    if name in ('Elastic', 'Elastic Plastic Hardening') and rng.random() < 0.3:
        p['Apply Shear Correction Factor'] = rng.random() < 0.8
    if name == 'Elastic' and rng.random() < 0.3:
        p['Compute Partial Stress'] = True
    if name == 'Pals' and rng.random() < 0.4:
        p['Dilatation Influence Function'] = rng.choice(['One', 'Gaussian', 'Parabolic Decay'])
        p['Deviatoric Influence Function'] = rng.choice(['One', 'Gaussian', 'Parabolic Decay'])
    if thermal and name in ('Elastic', 'Elastic Correspondence'):
        p['Thermal Expansion Coefficient'] = rnd(rng, 0.001, 0.01)
    return p


def grid(rng, nx, ny, nz, h=1.0, jitter=0.1, org=(0, 0, 0)):
    pts = []
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                pts.append([round(org[a] + q * h + (rng.uniform(-jitter, jitter) * h if jitter else 0.0), 6) for a, q in enumerate((i, j, k))])
    return pts


def mindist_to(pts, r, eps):
    """is some pair distance within eps of r"""
    for i in range(len(pts)):
        a = pts[i]
        for j in range(i):
            b = pts[j]
            d = math.sqrt((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 + (a[2] - b[2]) ** 2)
            if abs(d - r) < eps:
                return True
    return False


def dims3(rng, size, flat_ok=True):
    """grid extents with roughly `size` points"""
    u = rng.random()
    if flat_ok and u < 0.15:
        return (max(3, min(size, 24)), 1, 1)
    if flat_ok and u < 0.3:
        a = max(2, int(round(math.sqrt(size * rng.uniform(0.5, 1.8)))))
        return (a, max(2, size // a), 1)
    a = max(2, int(round(size ** (1 / 3.0) * rng.uniform(0.8, 1.5))))
    b = max(2, int(round(math.sqrt(size / a) * rng.uniform(0.8, 1.3))))
    c = max(2, size // (a * b))
    return (a, b, c)


EXPR = [
    ('{a}', False), ('{a}*x', False), ('{a}*y + {b}*z', False), ('{a}*x*y - {b}', False),
    ('{a}*t', True), ('{a}*t*x', True), ('{a}*t*t + {b}*y', True), ('{a}*sin(3.0*t)', True), ('{a}*t*(x - {b}*y + 0.25*z)', True),
]


def expression(rng, amp, timed=None, zero_at=None):
    while True:
        e, t = rng.choice(EXPR)
        if timed is not None and t != timed:
            continue
        return e.format(a=repr(rnd(rng, -amp, amp, 5) or amp), b=repr(rnd(rng, 0.0, amp, 5)))


def evaluate(expr, x, y, z, t):
    if 'value' in expr:
        raise ValueError(expr)
    return float(eval(expr, {'__builtins__': {}}, {'x': x, 'y': y, 'z': z, 't': t, 'sin': math.sin, 'cos': math.cos}))


def subset(rng, n, kind=None):
    """a non-empty set of 0-based ids"""
    u = rng.random()
    if kind == 'all' or (kind is None and u < 0.15):
        return list(range(n))
    if u < 0.3:
        return [rng.randrange(n)]
    k = rng.randint(1, max(1, n // 2))
    s = rng.sample(range(n), min(k, n))
    if rng.random() < 0.7:
        s.sort()
    return s


def schedule(rng, calm=False):
    """swarm-style schedule configuration"""
    s = {'seed': rng.getrandbits(31)}
    if calm:
        return s
    s['p_switch'] = rng.choice([0, 20, 100, 300, 700])
    s['p_delay'] = rng.choice([0, 100, 400, 800])
    s['max_delay'] = rng.choice([5, 50, 500])
    s['late'] = rng.choice([0, 0, 1])
    s['eager'] = rng.choice([0, 1, 2, 2])
    s['eager_limit'] = rng.choice([64, 64, 256, 4096])
    s['lazy_isend'] = rng.choice([0, 0, 300, 1000])
    s['coll_sync'] = rng.choice([0, 0, 300, 1000])
    if rng.random() < 0.3:
        s['p_stall'], s['stall_len'] = rng.choice([1, 10]), rng.choice([20, 200])
    s['fill'] = rng.choice([0, 1, 85, 170, 255])
    s['clock0'] = rng.choice([0, 1000000000, 1700000000, 4102444800])
    if rng.random() < 0.3:
        s['p_jump'] = rng.choice([10, 100])
    return s


DAMAGE = ['Critical Stretch', 'Critical Stretch', 'Time Dependent Critical Stretch', 'Initial Damage']


def node_sets(scen, sets, rng):
    """adds named node sets to the deck, inline or as files"""
    bc = scen['deck'].setdefault('Boundary Conditions', {})
    for name, ids in sets.items():
        if rng.random() < 0.3:
            fn = name.lower().replace(' ', '_') + '.txt'
            per = rng.choice([1, 3, 50])
            lines = ['# members of ' + name]
            for i in range(0, len(ids), per):
                lines.append(' '.join(str(j + 1) for j in ids[i:i + per]))
            scen['files'][fn] = '\n'.join(lines) + ('\n' if rng.random() < 0.7 else '')
            bc[name] = fn
        else:
            bc[name] = ' '.join(str(i + 1) for i in ids)
    scen['info']['sets'] = sets


def scenario(rng, solver='verlet', materials=None, mesh=None, size=(8, 90), nblocks=None, damage=None, contact=None, thermal=None, loads=('iv', 'id', 'pd', 'bf'),
             steps=(3, 16), variables=None, horizons='free', flat=True, filters=None, computes=(), outputs=1, corr=None, verbose=None, speed=0.1, influence=None, cylinder=0.2):
    """one random problem"""
    R = rng.random
    mesh = mesh or rng.choice(['text', 'text', 'quick'])
    size = rng.randint(*size)
    if materials is None:
        if corr is None:
            corr = R() < 0.3
        if corr:
            materials = CORR + ['Elastic Correspondence'] * 2
        elif R() < 0.12:
            materials = ['Pals', 'Pals', 'Elastic', 'Viscoelastic']
        else:
            materials = [m for m in ORDINARY if m != 'Pals'] + ['Elastic'] * 3 + ['Linear LPS Partial Volume']
    mats = [rng.choice(materials)]
    is_corr = any(MATERIALS[m]['cls'] in ('corr', 'hypo', 'ba') for m in mats)
    solid = is_corr or 'Pals' in materials  # models that need enough neighbours in all directions
    if solid:
        flat = False
        size = max(size, 27)
    nb = nblocks or rng.choice([1, 1, 2, 2, 3])
    if mesh == 'quick':
        nb = 1
    dims = dims3(rng, size, flat)
    if solid:
        dims = tuple(max(3, d) for d in dims)
    jitter = rng.choice([0.0, 0.05, 0.15]) if mesh == 'text' else 0.0
    hfac = rng.choice([1.6, 2.1, 2.1, 2.55, 3.1]) if not solid else rng.choice([2.1, 2.1, 2.55])
    scen = {'deck': {}, 'files': {}, 'format': rng.choice(['xml', 'yaml']), 'info': {}}
    info = scen['info']
    deck = scen['deck']
    if verbose is None:
        verbose = R() < 0.05
    deck['Verbose'] = verbose
    h = 1.0
    if mesh == 'text':
        pts = grid(rng, *dims, h=h, jitter=jitter)
        body = [0] * len(pts)
        if contact and R() < 0.85:
            # a second body facing the first at a small distance
            d2 = dims3(rng, rng.randint(4, 30), flat)
            if solid:
                d2 = tuple(max(3, d) for d in d2)
            gap = rnd(rng, 0.5, 1.2)
            p2 = grid(rng, *d2, h=h, jitter=jitter, org=(0.13, 0.21, dims[2] - 1 + gap))
            pts += p2
            body += [1] * len(p2)
            nb = max(nb, 2)
        style = rng.choice(['slab', 'random', 'slab'])
        blocks = []
        for i, p in enumerate(pts):
            if body[i] == 1:
                blocks.append(nb)
            elif nb == 1 or (contact and nb == 2):
                blocks.append(1)
            elif style == 'random':
                blocks.append(rng.randint(1, nb - (1 if contact else 0)))
            else:
                m = nb - (1 if contact else 0)
                blocks.append(1 + min(m - 1, int(max(0.0, p[0]) * m / max(1e-9, dims[0]))))
        for b in range(1, nb + 1):  # no empty block
            if b not in blocks:
                blocks[rng.randrange(len(blocks))] = b
        for b in range(1, nb + 1):
            if b not in blocks:
                nb = len(set(blocks))
                ren = {o: k + 1 for k, o in enumerate(sorted(set(blocks)))}
                blocks = [ren[q] for q in blocks]
                break
        vols = [rnd(rng, 0.6, 1.4, 6) if R() < 2 else 1.0 for _ in pts]
        order = list(range(len(pts)))
        if R() < 0.5:
            rng.shuffle(order)
        scen['mesh'] = {'kind': 'text', 'pts': [[*pts[i], blocks[i], vols[i]] for i in order]}
        deck['Discretization'] = {'Type': 'Text File', 'Input Mesh File': 'mesh.txt'}
    elif solver == 'verlet' and not contact and not solid and R() < cylinder:
        # a hollow cylinder around the z axis
        nr, ri = rng.choice([1, 2, 2]), rnd(rng, 1.0, 1.6, 2)
        length = round(rng.randint(0, 2 if nr == 2 else 4) + rnd(rng, 0.3, 0.8, 2), 2)
        na, nz = int(2 * math.pi / (1.0 / (ri + nr / 2.0))) + 1, int(length) + 1
        dims = (2 * int(ri + nr), 2 * int(ri + nr), nz)
        deck['Discretization'] = {'Type': 'PdQuickGrid', 'NeighborhoodType': 'Spherical',
                                  'TensorProductCylinderMeshGenerator': {'Type': 'PdQuickGrid', 'Inner Radius': ri, 'Outer Radius': ri + nr, 'Cylinder Length': length,
                                                                         'Number Points Radius': nr, 'Ring Center x': 0.0, 'Ring Center y': 0.0, 'Z Origin': 0.0}}
        da, dz = 2 * math.pi / na, length / nz
        scen['mesh'] = {'kind': 'cylinder', 'rings': nr, 'rays': na, 'inner': ri, 'pts': [[(ri + i + 0.5) * math.cos((j + 0.5) * da), (ri + i + 0.5) * math.sin((j + 0.5) * da), (k + 0.5) * dz, 1, (ri + i + 0.5) * da * dz]
                                                    for k in range(nz) for j in range(na) for i in range(nr)]}
    else:
        L = [float(d) for d in dims]
        org = [0.0, 0.0, 0.0] if R() < 0.5 else [rnd(rng, -2, 2, 2) for _ in range(3)]
        deck['Discretization'] = {'Type': 'PdQuickGrid', 'NeighborhoodType': 'Spherical',
                                  'TensorProduct3DMeshGenerator': {'Type': 'PdQuickGrid', 'X Origin': org[0], 'Y Origin': org[1], 'Z Origin': org[2],
                                                                   'X Length': L[0], 'Y Length': L[1], 'Z Length': L[2],
                                                                   'Number Points X': dims[0], 'Number Points Y': dims[1], 'Number Points Z': dims[2]}}
        scen['mesh'] = {'kind': 'quick', 'dims': list(dims), 'origin': org, 'length': L,
                        'pts': [[org[0] + i + 0.5, org[1] + j + 0.5, org[2] + k + 0.5, 1, 1.0] for k in range(dims[2]) for j in range(dims[1]) for i in range(dims[0])]}
    mp = scen['mesh']['pts']
    n = len(mp)
    # horizons: one for all blocks, or one per block
    hz = {}
    base = hfac * h
    for b in range(1, nb + 1):
        f = base
        if horizons == 'vary' or (horizons == 'free' and nb > 1 and R() < 0.4):
            f = rng.choice([1.6, 2.1, 2.55, 3.1]) if not solid else rng.choice([2.1, 2.55])
        while mindist_to(mp, f, 1e-5):
            f += 0.013
        hz[b] = round(f, 6)
    info['horizon'] = hz
    # blocks and materials
    deck['Materials'] = {}
    deck['Blocks'] = {}
    info['material'] = {}
    info['density'] = {}
    if thermal is None:
        thermal = R() < 0.3
    thermal = thermal and mats[0] in ('Elastic', 'Elastic Correspondence')
    if thermal:
        materials = [mats[0]]
    if damage is None:
        damage = R() < 0.35
    share = R() < 0.4
    dm = None
    groups = {}
    for b in range(1, nb + 1):
        if b == 1 or not share:
            if b > 1 and R() < 0.5:
                same = [m for m in materials if MATERIALS[m]['cls'] == MATERIALS[mats[0]]['cls'] or not is_corr]
                if 'Elastic Bond Based' in info['material'].values():
                    same = [m for m in same if m != 'Linear LPS Partial Volume']
                if 'Linear LPS Partial Volume' in info['material'].values():
                    same = [m for m in same if m != 'Elastic Bond Based']
                name = rng.choice(same)
            else:
                name = mats[0]
            key = 'Mat %d' % b
            par = material(rng, name, hz[b], thermal)
            deck['Materials'][key] = par
            groups[key] = []
        if MATERIALS[info['material'].get(1, name)]['cls'] == 'hypo' and b > 1 and share:
            hz[b] = hz[1]
        info['material'][b] = name
        info['density'][b] = par['Density']
        groups[key].append(b)
    if damage:
        dm = damage if isinstance(damage, str) else rng.choice(DAMAGE)
        if damage is True and R() < 0.5 and all(m in ('Elastic Plastic Hypoelastic Correspondence', 'Isotropic Hardening Hypoelastic Correspondence') for m in info['material'].values()):
            dm = rng.choice(['Von Mises Stress', 'Johnson Cook'])
        sc = rnd(rng, 0.005, 0.08)
        if dm == 'Time Dependent Critical Stretch':
            dpar = {'Damage Model': dm, 'Time Dependent Critical Stretch': 'value = %r + 0.01*t' % sc}
        elif dm == 'Initial Damage':
            dpar = {'Damage Model': dm, 'Bond Filters': {'Crack': plane(rng, dims)}}
        elif dm == 'Von Mises Stress':
            dpar = {'Damage Model': dm, 'Critical Von Mises Stress': rnd(rng, 0.01, 0.1)}
            if R() < 0.5:
                dpar.update({'Critical Damage': rnd(rng, 0.5, 0.9), 'Threshold Damage': rnd(rng, 0.1, 0.4)})
        elif dm == 'Johnson Cook':
            dpar = {'Damage Model': dm, 'Damage Parameter 1': 0.002, 'Damage Parameter 2': 0.01, 'Damage Parameter 3': 1.0, 'Critical Damage': 0.9, 'Threshold Damage': 0.1}
        else:
            dpar = {'Damage Model': dm, 'Critical Stretch': sc}
        deck['Damage Models'] = {'Dam': dpar}
        info['damage'] = dm
    bmode = R()
    nm = 0
    for key, bs in groups.items():
        hs = sorted(set(hz[b] for b in bs))
        for q in hs:
            nm += 1
            bb = [b for b in bs if hz[b] == q]
            e = {'Block Names': ' '.join('block_%d' % b for b in bb), 'Material': key, 'Horizon': q}
            if bmode < 0.2 and len(groups) == 1 and len(hs) == 1:
                e['Block Names'] = 'Default'
            if damage and (dm == 'Interface Aware' or nm == 1 or R() < 0.8):
                e['Damage Model'] = 'Dam'
                for b in bb:
                    info.setdefault('damaged', []).append(b)
            deck['Blocks']['Group %d' % nm] = e
    if filters is None:
        filters = R() < 0.15
    filters = filters and mesh == 'text' and not solid
    if filters and R() < 0.8:
        deck['Discretization'].setdefault('Bond Filters', {})['Cut'] = plane(rng, dims)
        info['filters'] = dict(deck['Discretization']['Bond Filters'])
    if nb > 1 and mesh == 'text' and not solid and (filters or (contact and R() < 0.5)) and R() < 0.6:
        deck['Discretization']['Omit Bonds Between Blocks'] = 'All'
        info['omit'] = True
    if influence is None:
        influence = R() < 0.15
    if influence:
        deck['Discretization']['Influence Function'] = rng.choice(['One', 'Gaussian', 'Parabolic Decay'])
    if contact or filters or info.get('omit') or dm == 'Initial Damage' or sum(d >= 2 for d in dims) < 2:
        # the factor is unbounded for points whose bonds lie along one line
        for p in deck['Materials'].values():
            if p['Material Model'] in ('Elastic', 'Elastic Plastic Hardening'):
                p['Apply Shear Correction Factor'] = False
    # solver
    dt = 2.0 ** -rng.choice([4, 5])
    ns = rng.randint(*steps)
    t0 = rng.choice([0.0, 0.0, 0.0, 0.5])
    info.update(dt=dt, nsteps=ns, t0=t0, solver=solver, n=n, dims=list(dims), nblocks=nb)
    tf = t0 + ns * dt
    # conditions
    info['bcs'] = []
    sets = {}
    bcs = {}
    if solver == 'verlet':
        kinds = [k for k in loads if R() < 0.6]
        if not kinds and loads:
            kinds = [rng.choice(loads)]
        for k in kinds:
            for rep in range(rng.choice([1, 1, 2])):
                sn = 'Node Set %d' % (len(sets) + 1)
                if sets and R() < 0.3:
                    sn = rng.choice(sorted(sets))
                else:
                    sets[sn] = subset(rng, n)
                co = rng.choice('xyz')
                typ, expr = {'iv': ('Initial Velocity', expression(rng, speed, False)),
                             'id': ('Initial Displacement', expression(rng, 0.02, False)),
                             'pd': ('Prescribed Displacement', expression(rng, 0.1)),
                             'bf': ('Body Force', expression(rng, 0.05))}[k]
                b = {'type': typ, 'set': sn, 'coord': co, 'expr': expr}
                info['bcs'].append(b)
        if thermal:
            sets['Node Set T'] = list(range(n)) if R() < 0.7 else subset(rng, n)
            info['bcs'].append({'type': 'Prescribed Temperature', 'set': 'Node Set T', 'coord': None, 'expr': rng.choice(['20.0*t', '5.0*x*t', '10.0*t + y'])})
            info['thermal'] = True
        deck['Solver'] = {'Verbose': False, 'Initial Time': t0, 'Final Time': tf, 'Verlet': {'Fixed dt': dt}}
        if R() < 0.1:
            k = rng.choice([2.0, 4.0, 0.5])
            deck['Solver']['Verlet'] = {'Fixed dt': dt * k, 'Safety Factor': 1.0 / k}
    elif solver in ('qs', 'nox', 'implicit'):
        statics(rng, scen, sets, solver, dims, tf, ns)
    node_sets(scen, sets, rng)
    for k, b in enumerate(info['bcs']):
        e = {'Type': b['type'], 'Node Set': b['set'], 'Coordinate': b['coord'], 'Value': b['expr'].replace('sin(', 'sin(')}
        if b['coord'] is None:
            del e['Coordinate']
        if R() < 0.2 and b['coord'] is not None:
            e['Value'] = 'value = ' + e['Value']
        deck['Boundary Conditions']['Cond %d %s' % (k + 1, b['type'])] = e
    if contact:
        sr = contact_block(rng, scen, nb, contact)
    # outputs
    flds = []
    for b in range(1, nb + 1):
        for f in MATERIALS[info['material'][b]]['fields']:
            if f not in flds:
                flds.append(f)
    basic = ['Displacement', 'Velocity', 'Force_Density', 'Volume', 'Block_Id', 'Element_Id']
    allv = basic + flds + ['Coordinates', 'Model_Coordinates', 'Acceleration', 'Number_Of_Neighbors', 'Neighborhood_Volume', 'Kinetic_Energy', 'Linear_Momentum', 'Angular_Momentum', 'Radius', 'Force',
                           'Global_Kinetic_Energy', 'Global_Linear_Momentum', 'Global_Angular_Momentum', 'External_Force_Density']
    if damage and dm != 'Von Mises Stress':
        allv.append('Damage')
    if contact:
        allv += ['Contact_Force_Density', 'Contact_Force']
    if info.get('thermal'):
        allv += ['Temperature_Change']
    if not is_corr and all(info['material'][b] == 'Elastic' for b in info['material']):
        allv += ['Stored_Elastic_Energy_Density', 'Stored_Elastic_Energy']
    info['outputs'] = []
    for o in range(outputs):
        if variables is not None:
            vs = list(variables)
        else:
            vs = ['Displacement', 'Velocity', 'Force_Density'] + [v for v in allv[3:] if R() < 0.5]
            if damage and 'Damage' not in vs:
                vs.append('Damage')
        vs = list(dict.fromkeys(v for v in vs if v in allv or v in computes))
        fr = rng.choice([1, 1, 2, 3, 5])
        spec = {'file': 'out%d' % o if outputs > 1 else 'out', 'freq': fr, 'vars': vs}
        od = {'Output File Type': 'ExodusII', 'Output Filename': spec['file'], 'Output Frequency': fr, 'Output Variables': {v: True for v in vs}}
        if R() < 0.4:
            od['Output Format'] = 'BINARY'
        if R() < 0.4:
            od['Parallel Write'] = True
        info['outputs'].append(spec)
        deck['Output' if outputs == 1 else 'Output %d' % o] = od
    if variables is None and R() < 0.35:
        add_computes(rng, scen, rng.randint(1, 3))
    return scen


def hasten(scen, s):
    """the same explicit problem on the time scale s (a power of two): density and rates follow"""
    info, deck = scen['info'], scen['deck']
    if info['solver'] != 'verlet' or 'Solver' not in deck:
        return scen
    f = '%d.0' % round(1.0 / s)

    def conv(e, rate):
        e = str(e)
        e = re.sub(r'\bt\b', '(t*%s)' % f, e)
        if rate:
            head, e = ('value = ', e[8:]) if e.startswith('value = ') else ('', e)
            e = '%s%s*(%s)' % (head, f, e)
        return e
    info['dt'] *= s
    info['t0'] *= s
    sv = deck['Solver']
    sv['Initial Time'] *= s
    sv['Final Time'] *= s
    sv['Verlet']['Fixed dt'] *= s
    for m in deck['Materials'].values():
        m['Density'] *= s * s
        if 'tau b' in m:
            m['tau b'] *= s
    for b in info['density']:
        info['density'][b] *= s * s
    for b in info['bcs']:
        b['expr'] = conv(b['expr'], b['type'] == 'Initial Velocity')
    for c in deck.get('Boundary Conditions', {}).values():
        if isinstance(c, dict):
            c['Value'] = conv(c['Value'], c['Type'] == 'Initial Velocity')
    for m in deck.get('Contact', {}).get('Models', {}).values():
        if isinstance(m['Friction Coefficient'], str):
            m['Friction Coefficient'] = conv(m['Friction Coefficient'], False)
    return scen


def own_step(rng, scen):
    """leaves the time step of an explicit problem to the program; the number of steps is about the same"""
    info, deck = scen['info'], scen['deck']
    if info['solver'] != 'verlet' or 'Solver' not in deck or info.get('horizon_fn'):
        return scen
    mats = {}
    for g in deck['Blocks'].values():
        for b in g['Block Names'].split():
            mats[b] = deck['Materials'][g['Material']]
    pts, worst = scen['mesh']['pts'], 0.0
    for i, p in enumerate(pts):
        m = mats.get('block_%d' % p[3])
        if not m:
            return scen
        K = m['Bulk Modulus'] if 'Bulk Modulus' in m else m["Young's Modulus"] / (3.0 - 6.0 * m.get("Poisson's Ratio", 0.25))
        h = info['horizon'].get(p[3], info['horizon'].get(str(p[3])))
        c = 18.0 * K / (math.pi * h ** 4)
        s = sum(q[4] * c / math.dist(p[:3], q[:3]) for j, q in enumerate(pts) if i != j and math.dist(p[:3], q[:3]) <= h)
        worst = max(worst, s / m['Density'])
    if not worst > 0.0:
        return scen
    step = math.sqrt(2.0 / worst)
    sf = float('%.4g' % min(0.8, info['dt'] / step * rng.uniform(0.5, 1.0)))
    sv = deck['Solver']
    sv['Verlet'] = {'Safety Factor': sf}
    sv['Final Time'] = float('%.8g' % (info['t0'] + (info['nsteps'] + 0.5) * step * sf))
    info['own_step'] = 1
    return scen


def add_computes(rng, scen, n, full=False):
    """block-wise extrema and sums, values at the point nearest to a position"""
    info, deck = scen['info'], scen['deck']
    blocks = sorted(info['horizon'])
    out = info.setdefault('computes', {})
    par = deck.setdefault('Compute Class Parameters', {})
    for k in range(n):
        var = rng.choice(['Volume', 'Displacement', 'Velocity', 'Coordinates', 'Displacement'] + (['Force_Density'] if full else []))
        label = 'Probe_%d' % (len(out) + 1)
        if rng.random() < 0.6:
            kind = rng.choice(['Minimum', 'Maximum', 'Sum']) if full or var == 'Volume' else rng.choice(['Minimum', 'Maximum'])
            c = {'Compute Class': 'Block_Data', 'Calculation Type': kind, 'Block': 'block_%s' % rng.choice(blocks), 'Variable': var, 'Output Label': label}
        else:
            c = {'Compute Class': 'Nearest_Point_Data', 'X': rnd(rng, -1.0, 8.0), 'Y': rnd(rng, -1.0, 5.0), 'Z': rnd(rng, -1.0, 5.0), 'Variable': var, 'Output Label': label}
            if rng.random() < 0.3:
                c['Verbose'] = True
        par['Compute %s' % label] = c
        out[label] = c
        for o, spec in enumerate(info['outputs']):
            if o == 0 or rng.random() < 0.5:
                spec['vars'].append(label)
                deck['Output' if len(info['outputs']) == 1 else 'Output %d' % o]['Output Variables'][label] = True
    return scen


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def plane(rng, dims):
    """a rectangular cut through the body"""
    ax = rng.randrange(3)
    while dims[ax] < 2:
        ax = (ax + 1) % 3
    pos = rng.randint(0, dims[ax] - 2) + rng.choice([0.5, 0.53, 0.47])
    nrm = [0.0, 0.0, 0.0]
    nrm[ax] = rng.choice([1.0, -1.0])
    o = [a for a in range(3) if a != ax]
    bot = [0.0, 0.0, 0.0]
    bot[o[0]] = 1.0
    side = cross(bot, nrm)
    llc = [0.0, 0.0, 0.0]
    llc[ax] = pos
    bl = rnd(rng, 0.4, dims[o[0]] + 1.0, 3)
    sl = rnd(rng, 0.4, dims[o[1]] + 1.0, 3)
    llc[o[0]] = rnd(rng, -0.6, 0.6, 3)
    s = side[o[1]]
    llc[o[1]] = rnd(rng, -0.6, 0.6, 3) if s > 0 else rnd(rng, dims[o[1]] - 1.4, dims[o[1]] - 0.4, 3)
    return {'Type': 'Rectangular_Plane', 'Normal_X': nrm[0], 'Normal_Y': nrm[1], 'Normal_Z': nrm[2],
            'Lower_Left_Corner_X': llc[0], 'Lower_Left_Corner_Y': llc[1], 'Lower_Left_Corner_Z': llc[2],
            'Bottom_Unit_Vector_X': bot[0], 'Bottom_Unit_Vector_Y': bot[1], 'Bottom_Unit_Vector_Z': bot[2],
            'Bottom_Length': bl, 'Side_Length': sl}


def contact_block(rng, scen, nb, contact):
    info = scen['info']
    c = dict(contact) if isinstance(contact, dict) else {}
    radius = c.get('radius', rnd(rng, 0.6, 0.95))
    freq = c.get('freq', rng.choice([1, 1, 2, 3, 5]))
    search = c.get('search', round(radius + rng.choice([0.4, 0.8, 1.5]), 4))
    fric = rng.choice([0.0, 0.0, 0.3])
    m = {'Contact Model': 'Short Range Force', 'Contact Radius': radius, 'Spring Constant': rnd(rng, 0.5, 3.0), 'Friction Coefficient': fric}
    if rng.random() < 0.2:
        m['Contact Model'] = 'Time Dependent Short Range Force'
        m['Friction Coefficient'] = rng.choice(['0.3*t', 'value = 0.2 + t', 'if(t > 0.2) {value = 0.3;} else {value = 0.0;}'])
        fric = 1.0
    spec = {}
    pairs = []
    kind = rng.random()
    if kind < 0.35:
        spec['General Contact'] = {'Contact Model': 'Con'}
        pairs += [[a, b] for a in range(1, nb + 1) for b in range(a + 1, nb + 1)]
    if kind < 0.2 or kind > 0.85:
        spec['Self Contact'] = {'Contact Model': 'Con'}
        pairs += [[a, a] for a in range(1, nb + 1)]
    listed = []
    if kind > 0.3 or not pairs:
        for a in range(1, nb + 1):
            for b in range(a, nb + 1):
                if rng.random() < (0.9 if a != b else 0.4):
                    listed.append([a, b])
        if not pairs and not listed:
            listed = [[1, nb]]
    for k, (a, b) in enumerate(listed):
        if [a, b] not in pairs:
            pairs.append([a, b])
        spec['Int %d' % (k + 1)] = {'First Block': 'block_%d' % a, 'Second Block': 'block_%d' % b, 'Contact Model': 'Con'}
    scen['deck']['Contact'] = {'Search Radius': search, 'Search Frequency': freq, 'Models': {'Con': m}, 'Interactions': spec}
    info['contact'] = {'radius': radius, 'search': search, 'freq': freq, 'pairs': pairs, 'friction': fric, 'k': m['Spring Constant']}
    return search


def statics(rng, scen, sets, solver, dims, tf, ns):
    """boundary conditions and solver for load-step and implicit problems: both ends held"""
    info = scen['info']
    deck = scen['deck']
    pts = scen['mesh']['pts']
    n = len(pts)
    lo = min(p[0] for p in pts)
    hi = max(p[0] for p in pts)
    left = [i for i, p in enumerate(pts) if p[0] < lo + 0.6]
    right = [i for i, p in enumerate(pts) if p[0] > hi - 0.6]
    sets['Node Set Left'] = left
    sets['Node Set Right'] = right
    amp = rnd(rng, 0.005, 0.05, 4)
    for c in 'xyz':
        info['bcs'].append({'type': 'Prescribed Displacement', 'set': 'Node Set Left', 'coord': c, 'expr': '0.0'})
    free = rng.random() < 0.3 and solver != 'implicit'
    info['bcs'].append({'type': 'Prescribed Displacement', 'set': 'Node Set Right', 'coord': 'x', 'expr': '%r*t' % amp})
    if not free:
        for c in 'yz':
            e = '0.0' if rng.random() < 0.5 else '%r*t*y' % rnd(rng, -0.01, 0.01, 5)
            info['bcs'].append({'type': 'Prescribed Displacement', 'set': 'Node Set Right', 'coord': c, 'expr': e})
    if rng.random() < 0.4:
        rest = [i for i in range(n) if i not in left and i not in right]
        if rest:
            sets['Node Set Mid'] = rest[:max(1, len(rest) // 2)]
            info['bcs'].append({'type': 'Body Force', 'set': 'Node Set Mid', 'coord': rng.choice('xyz'), 'expr': rng.choice(['0.002*t', '0.001', '0.001*t*x'])})
    nl = rng.randint(1, 4)
    t0 = info['t0']
    if solver == 'qs':
        s = {'Verbose': rng.random() < 0.2, 'Initial Time': t0, 'Final Time': t0 + 1.0}
        q = {'Number of Load Steps': nl, 'Absolute Tolerance': 1.0e-9, 'Maximum Solver Iterations': 30}
        if rng.random() < 0.3:
            del q['Number of Load Steps']
            ts = [t0]
            while len(ts) < nl + 1:
                ts.append(ts[-1] + rng.choice([0.125, 0.25, 0.5]))
            q['Time Steps'] = ' '.join(repr(t) for t in ts)
            s['Final Time'] = ts[-1]
            info['times'] = ts
        else:
            info['times'] = [t0 + k * 1.0 / nl for k in range(nl + 1)]
        if rng.random() < 0.4:
            q['Belos Linear Solver'] = rng.choice(['BlockCG', 'BlockGMRES'])
        if rng.random() < 0.3:
            s['Peridigm Preconditioner'] = rng.choice(['Full Tangent', 'Block 3x3', 'None'])
            if any('Plastic' in m for m in info['material'].values()):
                s['Peridigm Preconditioner'] = 'Full Tangent'
        if rng.random() < 0.2:
            s['Disable Heuristics'] = True
        s['QuasiStatic'] = q
    elif solver == 'nox':
        s = {'Verbose': False, 'Initial Time': t0, 'Final Time': t0 + 1.0}
        ls = {}
        u = rng.random()
        if u < 0.4:
            s['Peridigm Preconditioner'] = 'Block 3x3'
            nl = 1
            ls = {'Jacobian Operator': 'Matrix-Free', 'Preconditioner': 'User Defined'}
        elif u < 0.5:
            s['Peridigm Preconditioner'] = 'None'
            ls = {'Jacobian Operator': 'Matrix-Free', 'Preconditioner': 'None'}
        else:
            ls = {'Preconditioner': rng.choice(['AztecOO', 'AztecOO', 'None'])}
        s['NOXQuasiStatic'] = {'Nonlinear Solver': 'Line Search Based', 'Number of Load Steps': nl, 'Max Solver Iterations': 50, 'Relative Tolerance': 1.0e-8,
                               'Direction': {'Method': 'Newton', 'Newton': {'Linear Solver': ls}}, 'Line Search': {'Method': rng.choice(['Polynomial', 'Polynomial', 'Full Step'])}}
        info['times'] = [t0 + k * 1.0 / nl for k in range(nl + 1)]
    else:
        dt = 2.0 ** -rng.choice([2, 3, 4])
        nl = rng.randint(2, 6)
        s = {'Verbose': False, 'Initial Time': t0, 'Final Time': t0 + nl * dt, 'Implicit': {'Fixed dt': dt, 'Absolute Tolerance': 1.0e-9, 'Maximum Solver Iterations': 20, 'Beta': 0.25, 'Gamma': 0.5}}
        info['dt'] = dt
        info['times'] = [t0 + k * dt for k in range(nl + 1)]
    info['nsteps'] = nl
    deck['Solver'] = s


def cloud(rng, n, kind=None):
    """n points of irregular arrangement: boxes, lines, planes, clusters far apart, graded density"""
    kind = kind or rng.choice(['box', 'grid', 'line', 'plane', 'clusters', 'graded', 'shell', 'far'])
    pts = []
    L = max(1.5, n ** (1 / 3.0))
    cen = [[rng.uniform(-6, 6) * L for _ in range(3)] for _ in range(rng.randint(2, 4))]
    off = [0.0, 0.0, 0.0]
    if kind == 'far':
        off = [rng.choice([0.0, 1.0e3, -2.5e4]) for _ in range(3)]
    if kind == 'grid':
        d = dims3(rng, n)
        pts = grid(rng, *d, jitter=rng.choice([0.0, 0.1, 0.3]))[:n]
    sep = 0.15
    tries = 0
    while len(pts) < n:
        tries += 1
        if tries > 200 * n:
            sep, tries = sep / 2, 0
        u = [rng.uniform(0, L) for _ in range(3)]
        if kind == 'line':
            u = [rng.uniform(0, n * 0.8), 0.0, 0.0]
            if off[0] == 0 and rng.random() < 0.02:
                u[1] = 0.3
        elif kind == 'plane':
            u = [rng.uniform(0, n ** 0.5), rng.uniform(0, n ** 0.5), 0.0]
        elif kind == 'clusters':
            c = rng.choice(cen)
            u = [c[a] + rng.gauss(0, 0.8) for a in range(3)]
        elif kind == 'graded':
            u = [L * 2 * rng.random() ** 3 for _ in range(3)]
        elif kind == 'shell':
            v = [rng.gauss(0, 1) for _ in range(3)]
            q = math.sqrt(sum(x * x for x in v)) or 1.0
            u = [L * x / q for x in v]
        p = [round(u[a] + off[a], 6) for a in range(3)]
        if all((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 + (p[2] - q[2]) ** 2 > sep * sep for q in pts):
            pts.append(p)
    rng.shuffle(pts)
    return pts


def simple(rng, pts, blocks, vols, hz, horizon_fn=None, steps=1, variables=('Displacement',), material='Elastic', dt=2.0 ** -6):
    """a small deck around given points; hz: block -> horizon (or expression in horizon_fn)"""
    nb = sorted(set(blocks))
    scen = {'files': {}, 'format': rng.choice(['xml', 'yaml']), 'mesh': {'kind': 'text', 'pts': [[*pts[i], blocks[i], vols[i]] for i in range(len(pts))]}}
    deck = {'Verbose': False, 'Discretization': {'Type': 'Text File', 'Input Mesh File': 'mesh.txt'}, 'Materials': {'Mat': {'Material Model': material, 'Density': 2.0, 'Bulk Modulus': 1.5, 'Shear Modulus': 0.75}}, 'Blocks': {}}
    if material == 'Elastic Bond Based':
        deck['Materials']['Mat'].pop('Shear Modulus')
    if material == 'Elastic Correspondence':
        deck['Materials']['Mat']['Hourglass Coefficient'] = 0.02
    for b in nb:
        deck['Blocks']['Group %d' % b] = {'Block Names': 'block_%d' % b, 'Material': 'Mat', 'Horizon': (horizon_fn or {}).get(str(b)) or hz[b]}
    deck['Solver'] = {'Verbose': False, 'Initial Time': 0.0, 'Final Time': steps * dt, 'Verlet': {'Fixed dt': dt}}
    deck['Output'] = {'Output File Type': 'ExodusII', 'Output Filename': 'out', 'Output Frequency': 1, 'Output Variables': {v: True for v in variables}}
    scen['deck'] = deck
    scen['info'] = {'horizon': hz, 'material': {b: material for b in nb}, 'density': {b: 2.0 for b in nb}, 'n': len(pts), 'solver': 'verlet', 'dt': dt, 't0': 0.0, 'nsteps': steps, 'nblocks': len(nb),
                    'bcs': [], 'sets': {}, 'outputs': [{'file': 'out', 'freq': 1, 'vars': list(variables)}]}
    if horizon_fn:
        scen['info']['horizon_fn'] = horizon_fn
    return scen


def diffusion(rng, tight=False):
    """a problem for the implicit diffusion solver"""
    n = rng.choice([rng.randint(8, 30), rng.randint(20, 70)])
    pts = cloud(rng, n, rng.choice(['box', 'grid', 'grid']))
    if tight:  # every point has neighbours
        a, b, c = rng.randint(2, 6), rng.randint(2, 4), rng.randint(2, 3)
        pts = [tuple(rnd(rng, v - 0.2, v + 0.2, 6) for v in (i, j, k)) for i in range(a) for j in range(b) for k in range(c)]
        rng.shuffle(pts)
    n = len(pts)
    vols = [rnd(rng, 0.5, 1.5, 6) for _ in pts] if rng.random() < 0.3 else [1.0] * n
    h = rng.choice([2.1, 2.6] if tight else [1.6, 2.1, 2.6])
    while mindist_to(pts, h, 1e-5):
        h = round(h + 0.0137, 6)
    scen = simple(rng, pts, [1] * n, vols, {1: h}, material='Elastic', variables=('Temperature', 'Flux_Divergence'))
    deck, info = scen['deck'], scen['info']
    coef = rnd(rng, 0.5, 20.0, 4)
    deck['Materials'] = {'Mat': {'Material Model': 'Diffusion', 'Coefficient': coef}}
    info.update(material={'1': 'Diffusion'}, solver='diffusion', coefficient=coef)
    held = rng.sample(range(n), rng.randint(1, max(1, n // 3)))
    sets = {'Node Set Held': held, 'Node Set All': list(range(n))}
    node_sets(scen, sets, rng)
    e = rng.choice(['273.0 + x*10.0*t', '10.0*t', '%r*x + t*y' % rnd(rng, 1, 9), '300.0 - 5.0*t*z'])
    i = rng.choice(['273.0', '0.0', '10.0*x'])
    info['bcs'] = [{'type': 'Prescribed Temperature', 'set': 'Node Set Held', 'expr': e}, {'type': 'Initial Temperature', 'set': 'Node Set All', 'expr': i}]
    for k, b in enumerate(info['bcs']):
        deck['Boundary Conditions']['Cond %d' % k] = {'Type': b['type'], 'Node Set': b['set'], 'Value': b['expr']}
    q = {'Number of Load Steps': rng.randint(1, 4), 'Maximum Solver Iterations': rng.choice([1, 3, 10])}
    if rng.random() < 0.5:
        q['Absolute Tolerance'] = rng.choice([1e-3, 1e-6, 1e-8])
    else:
        q['Relative Tolerance'] = rng.choice([1e-3, 1e-6, 1e-8])
    if rng.random() < 0.7:
        q['Belos Relative Tolerance'] = rng.choice([1e-3, 1e-8])
    if tight:
        q['Maximum Solver Iterations'] = 10
        q.pop('Absolute Tolerance', None)
        q['Relative Tolerance'] = q['Belos Relative Tolerance'] = 1e-8
    deck['Solver'] = {'Verbose': False, 'Initial Time': 0.0, 'Final Time': 1.0, 'Solve For Displacement': False, 'Solve For Temperature': True, 'Solve For Pressure': False, 'ImplicitDiffusion': q}
    if tight or any(v != 1.0 for v in vols):  # not symmetric
        q['Belos Linear Solver'] = 'BlockGMRES'
    return scen


def porous(rng, solver, **kw):
    """a solid with a fluid in its pores"""
    scen = scenario(rng, solver=solver, materials=['Elastic'], damage=False, contact=False, thermal=False, filters=False, flat=False, steps=(2, 8), **kw)
    deck, info = scen['deck'], scen['info']
    deck['Multiphysics'] = 1
    for m in deck['Materials'].values():
        m.update({'Material Model': 'Multiphysics Elastic', 'Multiphysics': 1, 'Apply Automatic Differentiation Jacobian': True, 'Permeability': rnd(rng, 0.001, 0.1, 4), 'Fluid density': 1.0,
                  'Fluid dynamic viscosity': 1.0, 'Fluid compressibility': rnd(rng, 0.1, 1.0), 'Fluid Reynolds viscosity temperature effect': 0.0, 'Fluid linear thermal expansion': 0.0,
                  'Permeability curve inflection damage': 0.1, 'Max permeability': 1.0, 'Permeability alpha': 0.25})
    deck['Materials'] = {'Multiphysics ' + k: m for k, m in deck['Materials'].items()}
    for b in deck['Blocks'].values():
        b['Material'] = 'Multiphysics ' + b['Material']
    n = info['n']
    info['sets']['Node Set Fluid'] = f = sorted(rng.sample(range(n), max(1, n // 4)))
    bc = deck.setdefault('Boundary Conditions', {})
    bc['Node Set Fluid'] = ' '.join(str(i + 1) for i in f)
    e = rng.choice(['0.01*(t - %r)' % info['t0'], '0.005', '0.002*x*(t - %r)' % info['t0']])
    info['bcs'].append({'type': 'Prescribed Fluid Pressure U', 'set': 'Node Set Fluid', 'coord': 'x', 'expr': e})
    bc['Cond Fluid'] = {'Type': 'Prescribed Fluid Pressure U', 'Node Set': 'Node Set Fluid', 'Coordinate': 'x', 'Value': e}
    vs = ['Displacement', 'Velocity', 'Force_Density', 'Fluid_Pressure_U', 'Flux_Density', 'Dilatation', 'Weighted_Volume', 'Volume', 'Element_Id', 'Coordinates']
    out = deck['Output']
    out['Output Variables'] = {v: True for v in vs}
    info['outputs'][0]['vars'] = vs
    s = next(deck[k] for k in deck if k.startswith('Solver'))
    s['Solve For Displacement'] = s['Solve For Pressure'] = True
    s.pop('Peridigm Preconditioner', None)  # the block preconditioner knows displacements only
    info['porous'] = 1
    return scen
