"""Reader for netCDF classic files (CDF-1/2/5), enough for ExodusII result files.  Strict: anything
inconsistent (short file, impossible header) raises ValueError."""
import struct, array, sys

_SZ = {1: 1, 2: 1, 3: 2, 4: 4, 5: 4, 6: 8}
_TC = {1: 'b', 2: 's', 3: 'h', 4: 'i', 5: 'f', 6: 'd'}


class File:
    def __init__(self, path):
        with open(path, 'rb') as f:
            self.b = f.read()
        b = self.b
        if b[:3] != b'CDF' or b[3:4] not in (b'\x01', b'\x02', b'\x05'):
            raise ValueError('not a netCDF classic file')
        self.ver = b[3]
        self.p = 4
        try:
            self._header()
        except (struct.error, IndexError, UnicodeDecodeError) as e:
            raise ValueError('corrupt header: %s' % e)

    def _i(self):
        v = struct.unpack_from('>i', self.b, self.p)[0]
        self.p += 4
        return v

    def _n(self):  # NON_NEG
        if self.ver == 5:
            v = struct.unpack_from('>q', self.b, self.p)[0]
            self.p += 8
            return v
        return self._i()

    def _name(self):
        n = self._n()
        if n < 0 or n > 4096:
            raise ValueError('bad name length')
        s = self.b[self.p:self.p + n].decode('utf8')
        self.p += (n + 3) & ~3
        return s

    def _vals(self, t, n):
        if t not in _SZ or n < 0:
            raise ValueError('bad type')
        sz = _SZ[t] * n
        raw = self.b[self.p:self.p + sz]
        if len(raw) != sz:
            raise ValueError('short attribute')
        self.p += (sz + 3) & ~3
        if t == 2:
            return raw.decode('latin1')
        return list(struct.unpack('>%d%s' % (n, _TC[t]), raw))

    def _atts(self):
        tag, n = self._i(), self._n()
        if tag not in (0, 12) or (tag == 0 and n):
            raise ValueError('bad attribute list')
        d = {}
        for _ in range(n):
            k = self._name()
            t = self._i()
            m = self._n()
            d[k] = self._vals(t, m)
        return d

    def _header(self):
        self.numrecs = self._n()
        tag, n = self._i(), self._n()
        if tag not in (0, 10) or n < 0 or n > 10000:
            raise ValueError('bad dimension list')
        self.dims = [(self._name(), self._n()) for _ in range(n)]
        self.dim = dict(self.dims)
        self.atts = self._atts()
        tag, n = self._i(), self._n()
        if tag not in (0, 11) or n < 0 or n > 100000:
            raise ValueError('bad variable list')
        self.vars = {}
        for _ in range(n):
            name = self._name()
            nd = self._n()
            ids = [self._n() for _ in range(nd)]
            at = self._atts()
            t = self._i()
            vs = self._n()
            if self.ver == 1:
                off = self._i()
            else:
                off = struct.unpack_from('>q', self.b, self.p)[0]
                self.p += 8
            if any(i < 0 or i >= len(self.dims) for i in ids) or t not in _SZ:
                raise ValueError('bad variable')
            self.vars[name] = (ids, t, vs, off, at)
        self.recsize = 0
        recs = [(k, v) for k, v in self.vars.items() if self.isrec(k)]
        for k, v in recs:
            n = _SZ[v[1]]
            for i in v[0][1:]:
                n *= self.dims[i][1]
            self.recsize += n if len(recs) == 1 else (n + 3) & ~3

    def isrec(self, name):
        ids = self.vars[name][0]
        return bool(ids) and self.dims[ids[0]][1] == 0

    def _arr(self, t, off, n):
        sz = _SZ[t] * n
        if off < 0 or off + sz > len(self.b):
            raise ValueError('file too short (%d < %d)' % (len(self.b), off + sz))
        raw = self.b[off:off + sz]
        if t == 2:
            return raw
        a = array.array(_TC[t])
        a.frombytes(raw)
        if sys.byteorder == 'little':
            a.byteswap()
        return a

    def shape(self, name):
        ids = self.vars[name][0]
        return [self.dims[i][1] for i in ids]

    def get(self, name):
        """whole fixed variable"""
        ids, t, vs, off, at = self.vars[name]
        n = 1
        for i in ids:
            n *= self.dims[i][1]
        return self._arr(t, off, n)

    def rec(self, name, k):
        """record k of a record variable"""
        ids, t, vs, off, at = self.vars[name]
        n = 1
        for i in ids[1:]:
            n *= self.dims[i][1]
        if k >= self.numrecs:
            raise ValueError('record out of range')
        return self._arr(t, off + k * self.recsize, n)

    def strings(self, name):
        ids, t, vs, off, at = self.vars[name]
        sh = self.shape(name)
        raw = self.get(name)
        w = sh[-1]
        return [raw[i * w:(i + 1) * w].split(b'\0')[0].decode('latin1').strip() for i in range(sh[0])]


class Exo:
    """One ExodusII result file: ids, coordinates, blocks, node sets, times and variables."""

    def __init__(self, path):
        f = File(path)
        self.f = f
        d = f.dim
        self.path = path
        self.nnode = d.get('num_nodes', 0)
        self.nelem = d.get('num_elem', 0)
        self.nblk = d.get('num_el_blk', 0)
        self.ntime = f.numrecs
        self.times = [f.rec('time_whole', k)[0] for k in range(self.ntime)]
        self.node_map = list(f.get('node_num_map')) if 'node_num_map' in f.vars else list(range(1, self.nnode + 1))
        self.elem_map = list(f.get('elem_num_map')) if 'elem_num_map' in f.vars else list(range(1, self.nelem + 1))
        self.x = []
        if self.nnode and 'coordx' in f.vars:
            self.x = list(zip(f.get('coordx'), f.get('coordy'), f.get('coordz')))
        self.blk_ids = list(f.get('eb_prop1')) if 'eb_prop1' in f.vars else []
        self.blk_names = f.strings('eb_names') if 'eb_names' in f.vars else []
        self.blk_elems = []
        self.blk_conn = []
        for b in range(self.nblk):
            n = d.get('num_el_in_blk%d' % (b + 1), 0)
            self.blk_elems.append(n)
            c = f.get('connect%d' % (b + 1)) if n and ('connect%d' % (b + 1)) in f.vars else []
            self.blk_conn.append(list(c))
        self.ns_names = f.strings('ns_names') if 'ns_names' in f.vars else []
        self.ns = []
        for s in range(d.get('num_node_sets', 0)):
            v = 'node_ns%d' % (s + 1)
            self.ns.append(list(f.get(v)) if v in f.vars else [])
        self.nod_names = f.strings('name_nod_var') if 'name_nod_var' in f.vars else []
        self.elem_names = f.strings('name_elem_var') if 'name_elem_var' in f.vars else []
        self.glo_names = f.strings('name_glo_var') if 'name_glo_var' in f.vars else []
        self.tab = list(f.get('elem_var_tab')) if 'elem_var_tab' in f.vars else []

    def nodal(self, name, k):
        return self.f.rec('vals_nod_var%d' % (self.nod_names.index(name) + 1), k)

    def elem(self, name, blk, k):
        """values of one block (index), None when the block does not carry the variable"""
        v = 'vals_elem_var%deb%d' % (self.elem_names.index(name) + 1, blk + 1)
        return self.f.rec(v, k) if v in self.f.vars else None

    def glob(self, k):
        if not self.glo_names:
            return {}
        return dict(zip(self.glo_names, self.f.rec('vals_glo_var', k)))
