"""Drives simulated jobs: one fork server per worker, one command per job."""
import ctypes, json, os, select, shutil, signal, subprocess, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXE = os.path.join(HERE, 'build/peridigm/src/Peridigm')
LIB = os.path.join(HERE, 'build/sim/libsim.so')

IO_KINDS = ['open_r', 'open_w', 'read', 'write', 'close', 'sync', 'trunc', 'mkdir', 'rename', 'unlink', 'stat', 'system', 'popen']
FC_IO, FC_MPI, FC_NEW, FC_MALLOC = 1, 2, 3, 4
ACT_ERRNO, ACT_SHORT, ACT_KILL, ACT_TORN_KILL, ACT_KILL_AFTER = 1, 2, 3, 4, 5
EIO, ENOSPC, ENOENT, EMFILE, ENOMEM, EROFS = 5, 28, 2, 24, 12, 30


class MachineError(Exception):
    pass


def scratch_root():
    for d in ('/dev/shm', '/tmp'):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > (300 << 20):
                return d
        except OSError:
            pass
    d = os.path.join(HERE, 'build/run')
    os.makedirs(d, exist_ok=True)
    return d


class Machine:
    def __init__(self, core=None):
        self.core = core
        self.p = None
        self.scratch = tempfile.mkdtemp(prefix='vsim.', dir=scratch_root())
        self.n = 0
        self.stats = {}
        self.jobs = 0
        self.hashes = set()
        self.start()

    def start(self):
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(('OMPI_', 'VERIF_', 'LD_', 'PMIX_', 'GLIBC_', 'MALLOC_')):
                del env[k]
        env.update(SIM_SERVER='1', LD_PRELOAD=LIB, LD_BIND_NOW='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LC_ALL='C.UTF-8',
                   PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', TZ='UTC', PWD='/')
        core = self.core

        def pre():
            os.setsid()
            libc = ctypes.CDLL(None)
            libc.personality(0x0040000)  # no address space randomisation
            libc.prctl(1, 9)  # die with the driver
            if core is not None:
                try:
                    os.sched_setaffinity(0, {core})
                except OSError:
                    pass
        self.p = subprocess.Popen([EXE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, preexec_fn=pre, cwd='/')
        self.buf = b''

    def stop(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def close(self):
        self.stop()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def newdir(self, name=None):
        self.n += 1
        d = os.path.join(self.scratch, name or ('j%04d' % self.n))
        os.makedirs(d)
        return d

    def rmdir(self, d):
        assert d.startswith(self.scratch + '/')
        shutil.rmtree(d, ignore_errors=True)

    def run(self, d, deck, np=1, sched=None, faults=(), log=None, wall=120, trace=False):
        """one simulated job in directory d; returns the machine's report"""
        s = dict(seed=1)
        s.update(sched or {})
        parts = ['np=%d' % np, 'dir=' + d, 'arg=' + deck, 'wall=%d' % wall]
        log = log or (d + '.log')
        os.makedirs(log, exist_ok=True)
        parts.append('log=' + log)
        for k, v in s.items():
            if k == 'skew':
                v = ','.join(str(x) for x in v)
            parts.append('%s=%s' % (k, v))
        for f in faults:
            parts.append('fault=%d,%d,%d,%d,%d,%d,%d%s' % (f['cls'], f.get('kinds', 0), f.get('rank', -1), f['nth'], f.get('action', 0), f.get('err', 0),
                                                        f.get('persist', 0), ',' + f['path'] if f.get('path') else ''))
        if trace:
            parts.append('trace=1')
        line = ' '.join(parts) + '\n'
        r = self._cmd(line, wall + 60)
        if r is None:
            self.stop()
            self.start()
            r = self._cmd(line, wall + 60)
            if r is None:
                self.stop()
                self.start()
                raise MachineError('the simulated machine died running: ' + line)
        if r['outcome'] in ('badcfg',):
            raise MachineError('bad configuration: ' + line)
        r['log'] = log
        r['np'] = np
        self.account(r, faults, s)
        return r

    def account(self, r, faults, s):
        self.jobs += 1
        st = self.stats
        for k in ('switches', 'preemptions', 'delivered', 'delayed', 'rendezvous', 'stalls', 'jumps', 'lazy', 'mpicalls', 'colls', 'msgs', 'ioops', 'ndec', 'vtime_ns'):
            st[k] = st.get(k, 0) + r[k]
        if s.get('fill'):
            st['heap_fill_jobs'] = st.get('heap_fill_jobs', 0) + 1
        st['outcome_' + r['outcome']] = st.get('outcome_' + r['outcome'], 0) + 1
        for f, (seen, fired) in zip(faults, r['faults']):
            n = fault_name(f)
            st['fault_planned:' + n] = st.get('fault_planned:' + n, 0) + 1
            if fired:
                st['fault_fired:' + n] = st.get('fault_fired:' + n, 0) + fired
        self.hashes.add(r['h_event'])

    def _cmd(self, line, timeout):
        try:
            self.p.stdin.write(line.encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return None
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None
            if not select.select([fd], [], [], left)[0]:
                return None
            b = os.read(fd, 65536)
            if not b:
                return None
            self.buf += b
        l, self.buf = self.buf.split(b'\n', 1)
        return json.loads(l.decode('utf8', 'replace'))


def fault_name(f):
    if f['cls'] == FC_IO:
        kinds = '+'.join(k for i, k in enumerate(IO_KINDS) if f['kinds'] >> i & 1) or 'any'
        if len(kinds) > 40:
            kinds = 'anyio'
        act = {ACT_ERRNO: {EIO: 'EIO', ENOSPC: 'ENOSPC'}.get(f.get('err'), 'errno%s' % f.get('err')), ACT_SHORT: 'short', ACT_KILL: 'kill_before', ACT_TORN_KILL: 'torn_kill', ACT_KILL_AFTER: 'kill_after'}[f['action']]
        return '%s:%s%s' % (kinds, act, ':persistent' if f.get('persist') else '')
    return {FC_MPI: 'kill_at_message_call', FC_NEW: 'operator_new_fails', FC_MALLOC: 'malloc_fails'}[f['cls']]


def job_status(r):
    """what the launcher would return: 0 only when every process finished properly with status 0"""
    if r['outcome'] == 'done':
        for e, f in zip(r['exit'], r['finalized']):
            if e != 0:
                return e
            if not f:
                return 1
        return 0
    return -1


def output(r, rank=None):
    t = ''
    for k in range(r['np']) if rank is None else [rank]:
        try:
            with open(os.path.join(r['log'], 'out.%d' % k), errors='replace') as f:
                t += f.read()
        except OSError:
            pass
    return t
