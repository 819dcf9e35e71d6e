"""Joins the result files of all processes of a job into one history, keyed by point id."""
import os
from . import cdf


class Bad(Exception):
    """the files do not form a readable set"""


class Results:
    """times; ids (sorted, 1-based); val[name][k] -> {id: value}; glob[k] -> {name: value} (per file in globs)"""

    def __init__(self, d, base, np, need=None, kmax=None):
        self.np = np
        self.files = []
        self.paths = []
        for p in range(np):
            self.paths.append(os.path.join(d, file_name(base, np, p)))
        for p in self.paths:
            if not os.path.exists(p):
                raise Bad('missing file ' + os.path.basename(p))
            try:
                self.files.append(cdf.Exo(p))
            except (ValueError, KeyError, IndexError) as e:
                raise Bad('%s: %s' % (os.path.basename(p), e))
        self.times = self.files[0].times
        for f in self.files[1:]:
            if f.times != self.times:
                raise Bad('output times differ between files: %r %r' % (self.times, f.times))
        self.nt = len(self.times)
        self.owner = {}
        self.x = {}
        self.block = {}
        for p, f in enumerate(self.files):
            if len(f.node_map) != f.nnode or len(f.x) != f.nnode:
                raise Bad('inconsistent node tables')
            for i, g in enumerate(f.node_map):
                if g in self.owner:
                    raise Bad('point %d is in the files of process %d and %d' % (g, self.owner[g], p))
                self.owner[g] = p
                self.x[g] = f.x[i]
            off = 0
            for b in range(f.nblk):
                for i in range(f.blk_elems[b]):
                    node = f.blk_conn[b][i]
                    g = f.node_map[node - 1]
                    if off + i < len(f.elem_map) and f.elem_map[off + i] != g:
                        raise Bad('element id %d is attached to node id %d' % (f.elem_map[off + i], g))
                    if g in self.block:
                        raise Bad('point %d is in two blocks' % g)
                    self.block[g] = f.blk_ids[b]
                off += f.blk_elems[b]
        self.ids = sorted(self.owner)
        full = [f for f in self.files if f.nnode] or self.files  # files of processes without points list fewer variables
        self.nod_names = full[0].nod_names
        self.elem_names = full[0].elem_names
        self.glo_names = full[0].glo_names
        for f in full[1:]:
            if f.nod_names != self.nod_names or f.elem_names != self.elem_names or f.glo_names != self.glo_names:
                raise Bad('variable names differ between files')
        self.names = list(self.nod_names) + list(self.elem_names)
        self._cache = {}

    def get(self, name, k):
        """{id: value} of a nodal or element variable at output k; points whose block lacks it are absent"""
        c = self._cache.get((name, k))
        if c is not None:
            return c
        out = {}
        try:
            if name in self.nod_names:
                for f in self.files:
                    if f.nnode:
                        out.update(zip(f.node_map, f.nodal(name, k)))
            else:
                for f in self.files:
                    for b in range(f.nblk):
                        if f.blk_elems[b]:
                            v = f.elem(name, b, k)
                            if v is not None:
                                for i, q in enumerate(v):
                                    out[f.node_map[f.blk_conn[b][i] - 1]] = q
        except (ValueError, KeyError, IndexError) as e:
            raise Bad('%s at step %d: %s' % (name, k, e))
        self._cache[(name, k)] = out
        return out

    def vec(self, name, k):
        x, y, z = (self.get(name + c, k) for c in 'XYZ')
        return {g: (x[g], y[g], z[g]) for g in x}

    def globs(self, k):
        """global variables of every file"""
        try:
            return [f.glob(k) for f in self.files]
        except (ValueError, KeyError, IndexError) as e:
            raise Bad('global variables at step %d: %s' % (k, e))

    def has(self, name):
        return name in self.names


def file_name(base, np, p):
    if np == 1:
        return base + '.e'
    return '%s.e.%d.%s' % (base, np, str(p).zfill(len(str(np))))


def compare(A, B, rtol=1e-9, atol=0.0, skip=(), only=None, kmap=None, gtol=1e-10):
    """first difference between two histories, or None.  Values are compared relative to the largest
    magnitude the variable (any component) reaches anywhere in the history."""
    if A.ids != B.ids:
        return 'different points: %d and %d' % (len(A.ids), len(B.ids))
    if kmap is None:
        if len(A.times) != len(B.times) or any(abs(a - b) > 1e-12 * max(abs(a), abs(b)) for a, b in zip(A.times, B.times)):
            return 'different output times: %r and %r' % (A.times, B.times)
        kmap = [(k, k) for k in range(A.nt)]
    if A.block != B.block:
        return 'different blocks'
    if A.x != B.x:
        g = [g for g in A.ids if A.x[g] != B.x[g]][0]
        return 'point %d is at %r and %r' % (g, A.x[g], B.x[g])
    if sorted(A.names) != sorted(B.names) or sorted(A.glo_names) != sorted(B.glo_names):
        return 'different variables: %r and %r' % (A.names + A.glo_names, B.names + B.glo_names)
    scale = {}
    data = {}
    for n in A.names:
        if n.startswith(tuple(skip)) if skip else False:
            continue
        if only and not n.startswith(tuple(only)):
            continue
        r = root(n, A.names)
        for ka, kb in kmap:
            a, b = A.get(n, ka), B.get(n, kb)
            if a.keys() != b.keys():
                return '%s is defined on %d and %d points' % (n, len(a), len(b))
            m = 0.0
            for v in a.values():
                v = abs(v)
                if v > m:
                    m = v
            scale[r] = max(scale.get(r, 0.0), m)
            data[n, ka] = (a, b)
    for (n, ka), (a, b) in data.items():
        tol = rtol * scale[root(n, A.names)] + atol
        for g, v in a.items():
            w = b[g]
            if not abs(v - w) <= tol and not (v != v and w != w) and v != w:
                return '%s of point %d at time %r is %r and %r (tolerance %.2g)' % (n, g, A.times[ka], v, w, tol)
    if only is None:
        group = {}
        for n in A.glo_names:
            r = root(n, A.glo_names)
            group[r] = max([group.get(r, 0.0)] + [abs(A.globs(ka)[0][n]) for ka, _ in kmap])
        for n in A.glo_names:
            va = [A.globs(ka)[0][n] for ka, _ in kmap]
            tol = rtol * group[root(n, A.glo_names)] + max(atol, gtol)
            for (ka, kb), v in zip(kmap, va):
                for p, q in enumerate(B.globs(kb)):
                    w = q[n]
                    if not abs(v - w) <= tol and v != w:
                        return 'global %s at time %r is %r and %r in file %d (tolerance %.2g)' % (n, A.times[ka], v, w, p, tol)
    return None


def same_bytes(pa, pb):
    """first difference between two result files apart from the date stamps, or None"""
    a, b = cdf.File(pa), cdf.File(pb)
    ba, bb = bytearray(a.b), bytearray(b.b)
    for f, raw in ((a, ba), (b, bb)):
        if 'qa_records' in f.vars:
            ids, t, vs, off, at = f.vars['qa_records']
            raw[off:off + vs] = bytes(vs)
    if ba == bb:
        return None
    if len(ba) != len(bb):
        return 'sizes %d and %d' % (len(ba), len(bb))
    i = [k for k in range(len(ba)) if ba[k] != bb[k]][0]
    for n, (ids, t, vs, off, at) in a.vars.items():
        if a.isrec(n):
            if i >= off and (i - off) % a.recsize < vs:
                return 'variable %s, record %d' % (n, (i - off) // a.recsize)
        elif off <= i < off + vs:
            return 'variable %s' % n
    return 'byte %d' % i


def root(n, names):
    """variable a component belongs to"""
    for suf in ('X', 'Y', 'Z'):
        if n.endswith(suf) and n[:-1] + 'X' in names and n[:-1] + 'Y' in names:
            n = n[:-1]
            break
    return n
