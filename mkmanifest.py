"""Writes MANIFEST.json from the list below (run by hand after adding a check)."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
SEARCH = 'seeded search over whole simulated parallel jobs: the real program runs on a simulated MPI, scheduler, clock, file system and allocator; '
CHECKS = [
    ('C01', 'exploration', SEARCH + 'each job is compared with the same job on other process counts'),
    ('C02', 'exploration', SEARCH + 'the same job under different schedules, delays, clocks and heap contents has to write identical bytes'),
    ('C03', 'exploration', SEARCH + 'deadlock, livelock, lost messages and mismatched collectives are detected by the simulator'),
    ('C04', 'fault_enumeration', SEARCH + 'one allocation, file operation or input line fails; the job has to end with a failure status or with undisturbed results'),
    ('C05', 'exploration', SEARCH + 'a run is cut into consecutive jobs that resume from each other and compared with the uninterrupted run'),
    ('C06', 'fault_enumeration', SEARCH + 'the job is killed at a chosen file operation, message call or byte, only what is on disk survives, and the next job has to resume from complete data or refuse'),
    ('C07', 'exploration', SEARCH + 'every result file is compared with what was requested and with a reference job'),
    ('C08', 'fault_enumeration', SEARCH + 'one operation on a result or restart file fails or is cut short; a job that reports success has to leave what the undisturbed job leaves'),
    ('C09', 'exploration', SEARCH + 'every neighbour count and neighbourhood volume is compared with a search over all pairs'),
    ('C10', 'exploration', SEARCH + 'total force, linear and angular momentum of every recorded state are summed over all points of all processes'),
    ('C11', 'exploration', SEARCH + 'the state of every bond is followed through the recorded positions and compared with the damage reported at both its ends'),
    ('C12', 'exploration', SEARCH + 'every contact force is compared with a sum over all unbonded pairs at the recorded positions, and runs with different search frequencies, radii and process counts are compared'),
    ('C13', 'exploration', SEARCH + 'every conditioned value in the recorded history is compared with a reference evaluation of the condition'),
    ('C14', 'exploration', SEARCH + 'every reported global, block and nearest-point quantity is recomputed from the per-point results of all processes'),
    ('C15', 'exploration', SEARCH + 'the residual of every reported load and time step is recomputed from the recorded state, and solver failures have to end the job'),
    ('C16', 'exploration', SEARCH + 'every point, coordinate, volume, block and node set of a run is compared with the mesh and node set files; damaged files have to be refused'),
]
NA = [
    ('C17', 'objectivity is a statement about one pure function of the positions; it has no schedule, fault, time or I/O dimension for a simulation to decide'),
    ('C18', 'agreement of a tangent matrix with finite differences is a statement about a pure function; no schedule, fault or history takes part'),
    ('C19', 'the Exodus mesh reader is not part of the offline build (its library is missing), so no simulated job can reach it'),
]
note = 'bounded by the generated decks (2-160 points, 1-8 processes, up to 40 steps) and the number of seeds run in the time budget; a pass says nothing about unexplored seeds'
m = {
    'version': 1, 'setup_cmd': 'bash /verif/build.sh',
    'hooks': {'guard': 'none', 'enable': 'no hooks in /repo; the simulator replaces the MPI library, the C library file calls, clocks and allocation functions at link time', 'source_commits': []},
    'checks': [{'property': p, 'quick_cmd': 'python3 /verif/check.py %s quick' % p, 'thorough_cmd': 'python3 /verif/check.py %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': l, 'level_note': note} for p, l, t in CHECKS],
    'not_applicable': [{'property': p, 'reason': r} for p, r in NA],
    'notes': 'replay a reported violation with: python3 /verif/check.py --replay FILE',
}
claimed = {p for p, _, _ in CHECKS} | {p for p, _ in NA}
with open(os.path.join(HERE, 'properties.jsonl')) as f:
    ids = [json.loads(l)['id'] for l in f if l.strip()]
rest = [i for i in ids if i not in claimed]
print('without check:', rest)
m['not_applicable'] += [{'property': i, 'reason': 'decidable by this technique, its check is not built yet'} for i in rest]
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
