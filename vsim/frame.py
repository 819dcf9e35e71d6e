"""Seeded search over simulated jobs: workers, violation gate, minimiser, replay files, evidence.

A check supplies   case(rng, tier) -> JSON value            everything about one case, from the seed alone
                   judge(M, case)  -> None | Violation      runs the case on machine M; may raise Skip
                   reduce(case)    -> iterator of cases     smaller candidates for the minimiser
"""
import collections, copy, json, multiprocessing as mp, os, queue, random, subprocess, sys, time, traceback
from . import machine, deck

HERE = machine.HERE
KNOWN = os.path.join(HERE, 'known-findings.txt')


class Skip(Exception):
    """the case decides nothing (reference job itself refuses the deck, fault not reached ...)"""


class Violation:
    def __init__(self, kind, detail, sig=None):
        self.kind = kind          # short class of the failure; the minimiser keeps it
        self.detail = detail      # what was observed
        self.sig = sig or kind    # identity used by the known-findings file

    def key(self):
        return [self.kind, self.detail, self.sig]


class Job:
    def __init__(self, d, r):
        self.d = d
        self.r = r
        self.status = machine.job_status(r)

    def text(self, rank=None):
        return machine.output(self.r, rank)

    def fired(self):
        return sum(f[1] for f in self.r['faults'])

    def describe(self):
        r = self.r
        return '%s, exit %s%s' % (r['outcome'], r['exit'], ', ' + r['note'][:300] if r['note'] else '')


def launch(M, scen, np=1, sched=None, faults=(), d=None, wall=40, log=None):
    """writes the scenario into a new directory (or d) and runs it"""
    if d is None:
        d = M.newdir()
    dk = deck.write(scen, d)
    r = M.run(d, dk, np=np, sched=sched, faults=faults, wall=wall, log=log)
    return Job(d, r)


class Bench(machine.Machine):
    """a machine with the bookkeeping the framework wants"""

    def __init__(self, core=None):
        super().__init__(core)
        self.history = []
        self.facts = collections.Counter()
        self.samples = []

    def account(self, r, faults, s):
        super().account(r, faults, s)
        self.history.append(r['h_event'])

    def fresh(self):
        self.history = []
        self.n = 0
        for n in os.listdir(self.scratch):
            self.rmdir(os.path.join(self.scratch, n))


def evaluate(check, M, case):
    M.fresh()
    v = check.judge(M, copy.deepcopy(case))
    return v, list(M.history)


def load_known(pid):
    """known: lines of the committed file -> list of (sig, text)"""
    out = []
    try:
        with open(KNOWN) as f:
            for l in f:
                l = l.strip()
                if not l.startswith('known: property=%s ' % pid):
                    continue
                rest = l.split(' ', 2)[2]
                sig, text = rest.split(' :: ', 1)
                out.append((sig[4:], text))
    except OSError:
        pass
    return out


def worker(check, wid, core, seed, tier, counter, limit, deadline, q):
    try:
        M = Bench(core)
    except Exception:
        q.put(('error', traceback.format_exc()))
        return
    n = skipped = errors = 0
    skips = collections.Counter()
    distinct = set()
    samples = []
    try:
        while time.time() < deadline:
            with counter.get_lock():
                k = counter.value
                counter.value += 1
            if k >= limit:
                break
            s = seed * 1000000 + k
            case = check.case(random.Random(s), tier)
            try:
                v, h = evaluate(check, M, case)
            except Skip as e:
                skipped += 1
                skips[str(e)] += 1
                continue
            except Exception:
                q.put(('error', 'case seed %s\n' % s + traceback.format_exc()))
                errors += 1
                if errors == 3:
                    break
                M.stop()
                M.start()
                continue
            n += 1
            distinct.add(tuple(h))
            if len(samples) < 2 and n % 3 == 1:
                samples.append(check.summary(case))
            if v:
                q.put(('violation', s, case, v.key(), h))
        q.put(('done', n, skipped, dict(skips), distinct, M.stats, M.jobs, len(M.hashes), dict(M.facts), samples))
    except Exception:
        q.put(('error', 'case seed %s\n' % s + traceback.format_exc()))
    finally:
        M.close()


def cores():
    try:
        return sorted(os.sched_getaffinity(0))
    except OSError:
        return list(range(os.cpu_count() or 1))


def build():
    p = subprocess.run(['bash', os.path.join(HERE, 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print('build failed:\n' + p.stdout[-4000:])
        sys.exit(2)


def search(check, tier, seed, budget, limit, nworkers):
    """returns totals, first violation per signature"""
    cs = cores()
    nworkers = nworkers or len(cs)
    q = mp.Queue()
    counter = mp.Value('l', 0)
    t0 = time.time()
    deadline = t0 + budget
    procs = [mp.Process(target=worker, args=(check, w, cs[w % len(cs)], seed, tier, counter, limit, deadline, q)) for w in range(nworkers)]
    for p in procs:
        p.start()
    known = dict(load_known(check.id))
    tot = dict(n=0, skipped=0, skips=collections.Counter(), distinct=set(), stats=collections.Counter(), jobs=0, hashes=0, facts=collections.Counter(), samples=[], known=collections.Counter())
    found = []
    finished = 0
    err = None
    while finished < nworkers:
        try:
            m = q.get(timeout=5)
        except queue.Empty:
            if time.time() > deadline + 400:
                err = 'workers did not finish'
                break
            if not any(p.is_alive() for p in procs) and q.empty():
                err = err or 'a worker died'
                break
            continue
        if m[0] == 'error':
            err = err or m[1]
            continue
        if m[0] == 'violation':
            if m[3][2] in known:
                tot['known'][m[3][2]] += 1
                continue
            found.append(m)
            with counter.get_lock():
                counter.value = limit + 1  # no new cases; those under way finish
            continue
        finished += 1
        _, n, sk, skips, distinct, st, jobs, hashes, facts, samples = m
        tot['n'] += n
        tot['skipped'] += sk
        tot['skips'].update(skips)
        tot['distinct'] |= distinct
        tot['stats'].update(st)
        tot['jobs'] += jobs
        tot['hashes'] += hashes
        tot['facts'].update(facts)
        tot['samples'] += samples
    for p in procs:
        if err:
            p.terminate()
        p.join(20)
    tot['wall'] = time.time() - t0
    return tot, sorted(found, key=lambda m: m[1]), err


def gate(check, case, key, h):
    """the violation has to come out the same twice more, the second time on a new machine"""
    M = Bench(cores()[0])
    try:
        for _ in range(2):
            v, hh = evaluate(check, M, case)
            if v is None or v.key() != key or hh != h:
                return 'not reproduced: %r\nthen: %r' % (key, v.key() if v else None) + ('' if hh == h else ' (event history differs)')
            M.stop()
            M.start()
    except Skip as e:
        return 'not reproduced: skipped (%s)' % e
    finally:
        M.close()
    return None


def candidates(check, case):
    try:
        yield from check.reduce(case)
    except (KeyError, IndexError, TypeError, ValueError):  # a case of a form the reductions do not know
        return


def minimise(check, case, key, h, budget):
    """greedy: take any smaller case that fails in the same way"""
    M = Bench(cores()[0])
    end = time.time() + budget
    tried = 0
    seen = set()
    try:
        progress = True
        while progress and time.time() < end:
            progress = False
            for cand in candidates(check, case):
                if time.time() > end:
                    break
                js = json.dumps(cand, sort_keys=True)
                if js in seen:
                    continue
                seen.add(js)
                tried += 1
                try:
                    v, hh = evaluate(check, M, cand)
                except (Skip, machine.MachineError, KeyError, IndexError, TypeError, ValueError, ZeroDivisionError):  # the reduction took away something the case needs
                    continue
                if v and v.kind == key[0] and v.sig == key[2]:
                    case, key, h = cand, v.key(), hh
                    progress = True
                    break
    finally:
        M.close()
    return case, key, h, tried


def replay(path):
    from .checks import get
    with open(path) as f:
        rec = json.load(f)
    check = get(rec['property'])
    err = gate(check, rec['case'], rec['violation'], rec['history'])
    if err:
        print(err)
        return 2
    print('%s: %s' % (rec['violation'][0], rec['violation'][1]))
    print('VIOLATION property=%s replay=%s' % (rec['property'], path))
    return 1


def run(pid, tier, seed, budget=None, limit=None, nworkers=None, do_build=True):
    from .checks import get
    check = get(pid)
    t0 = time.time()
    if do_build:
        build()
    budget = budget or (check.quick if tier == 'quick' else check.thorough)
    limit = limit or 10 ** 6 - 1
    tot, found, err = search(check, tier, seed, budget, limit, nworkers)
    if err and not found:
        print('check error:\n' + err)
        return 2
    code = 0
    nviol = 0
    if found:
        # the lowest seed that passes the gate is reported
        for _, s, case, key, h in found[:4]:
            bad = gate(check, case, key, h)
            if not bad:
                break
            print('violation at seed %d %s' % (s, bad))
        else:
            print('check error: no violation could be reproduced')
            return 2
        nviol = len(found)
        n0 = len(json.dumps(case))
        full = case, key, h
        case, key, h, tried = minimise(check, case, key, h, check.shrink_s)
        if gate(check, case, key, h):
            case, key, h = full
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        path = os.path.join(HERE, 'replay', '%s-%d.json' % (pid, s))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': s, 'violation': key, 'history': h, 'case': case}, f, indent=1)
        print('%s: %s' % (key[0], key[1]))
        print('seed %d, minimised from %d to %d bytes in %d attempts; replay with: python3 %s --replay %s' % (s, n0, len(json.dumps(case)), tried, os.path.join(HERE, 'check.py'), path))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        code = 1
    for sig, text in load_known(pid):
        if tot['known'][sig] or getattr(check, 'always_known', False):
            print('KNOWN-FINDING: property=%s %s (%d cases)' % (pid, text, tot['known'][sig]))
    write_evidence(check, tier, seed, tot, nviol, time.time() - t0)
    print('%s %s: %d cases (%d skipped), %d jobs, %d violations, %.0f s' % (pid, tier, tot['n'], tot['skipped'], tot['jobs'], nviol, time.time() - t0))
    if code == 0 and tot['n'] < check.min_cases:
        print('check error: only %d cases could be decided; skipped: %r' % (tot['n'], dict(tot['skips'])))
        return 2
    return code


def write_evidence(check, tier, seed, tot, nviol, wall):
    st = tot['stats']
    ev = {
        'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level,
        'coverage': {
            'evaluations': tot['n'], 'distinct_nontrivial': len(tot['distinct']), 'rule': check.rule, 'samples': tot['samples'][:4],
            'skipped_cases': tot['skipped'], 'skip_reasons': dict(tot['skips']),
            'simulated_jobs': tot['jobs'], 'distinct_job_histories': tot['hashes'],
            'history_measure': 'hash over every message call, delivery, collective, file operation and scheduling decision of the job, in order',
            'cases_per_hour': int(tot['n'] * 3600 / max(tot['wall'], 1e-3)), 'jobs_per_hour': int(tot['jobs'] * 3600 / max(tot['wall'], 1e-3)),
            'simulated_seconds': round(st.get('vtime_ns', 0) * 1e-9, 3),
            'scheduling_decisions': st.get('ndec', 0),
            'schedule': {k: st.get(k, 0) for k in ('switches', 'preemptions', 'msgs', 'delivered', 'delayed', 'rendezvous', 'lazy', 'stalls', 'jumps', 'colls', 'mpicalls', 'ioops', 'heap_fill_jobs')},
            'outcomes': {k[8:]: v for k, v in st.items() if k.startswith('outcome_')},
            'faults_planned': {k[14:]: v for k, v in st.items() if k.startswith('fault_planned:')},
            'faults_fired': {k[12:]: v for k, v in st.items() if k.startswith('fault_fired:')},
            'facts': dict(sorted(tot['facts'].items())),
            'known_findings_hit': dict(tot['known']),
            'real_components': ['Peridigm (all of src/, as built from the working tree)', 'Trilinos (Epetra, Teuchos, Zoltan, NOX, Belos, AztecOO, EpetraExt)', 'Exodus II and netCDF', 'C and C++ runtime'],
            'simulated_components': ['MPI library', 'process scheduler', 'clocks', 'system-call layer for files and directories (pass-through with faults)', 'allocator contents and failures', 'job launcher'],
        },
        'assumptions': check.assumptions, 'wall_s': round(wall, 2), 'violations': nviol,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', check.id + '.json')
    with open(p + '.new', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.new', p)


class Check:
    id = None
    level = 'exploration'
    rule = ''
    assumptions = []
    quick = 45
    thorough = 600
    shrink_s = 40
    min_cases = 20

    def summary(self, case):
        s = case.get('scen', {})
        i = s.get('info', {})
        return {k: v for k, v in {'np': case.get('np'), 'sched': case.get('sched'), 'faults': case.get('faults'), 'points': i.get('n'), 'solver': i.get('solver'), 'materials': sorted(set(i.get('material', {}).values())),
                                  'horizons': i.get('horizon'), 'damage': i.get('damage'), 'contact': i.get('contact'), 'steps': i.get('nsteps'), 'conditions': i.get('bcs')}.items() if v}

    def reduce(self, case):
        from . import shrink
        return shrink.reductions(case)
