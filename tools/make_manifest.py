"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
CLAIMED = sys.argv[1].split() if len(sys.argv) > 1 else None
SERVER = ('Search, not proof: seeded schedules and fault sequences of generated programs. Trusted: the simulator, the '
          'simulated cache server (one linearizable server per alias), the reference model and the oracles in dst/oracles.py. ')
NOTES = {
    'C01': 'Assumes nothing about loss: evictions, restarts, lost and late writes, clock skew and jumps are all injected.',
    'C02': 'A store is required to be readable only where the model knows that it was accepted and nothing it depends on changed.',
    'C03': 'Values are tagged with unique ids, so that linearizability of the register-with-loss is decided exactly.',
    'C04': 'The reference model of the computations is independent of the relation manager.',
    'C05': 'The reference model of the computations is independent of the relation manager.',
    'C06': 'A value whose store overlaps the finish is not judged.',
    'C07': 'Assumes what the statement says: transactions under 5 s, atomic multi-key reads, records not evicted. One open known finding.',
    'C08': 'Assumes transactions under 5 s, atomic multi-key reads, clock skew below the delay. One open known finding.',
    'C09': 'Assumes atomic multi-key reads. One open known finding.',
    'C10': 'All forms of scopes; exceptions of several kinds at any point; backend faults inside of the finish.',
    'C11': 'Faults: errors before and after the effect, late and partial writes, evictions, restarts, killed processes.',
    'C12': 'Simulated time; timeouts from 0 s to 25 h.',
    'C13': 'Three aliases (one with own prefix and version, one mapped through BACKEND), up to three versions.',
    'C14': 'Batch reads are compared with individual reads at one moment of simulated time; round trips are counted at the server.',
    'C15': 'Real Django signals and models; the database is a stub below save() where the model operation asks for it.',
    'C16': 'Real Django request handler, middleware chain and URL resolver; the WSGI server is a stub.',
    'C17': 'Real Django template engine and the template tags of the package.',
    'C18': 'The real backend on a scratch directory; system calls are real but scheduled, failed, cut and torn by the simulator.',
    'C19': 'Line-level preemption inside of the package; threads, forks and hosts are simulated.',
}


def main():
    from dst.checks import CHECKS
    checks = []
    na = []
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        props = [json.loads(l) for l in f]
    for p in props:
        i = p['id']
        if i in CHECKS and (CLAIMED is None or i in CLAIMED):
            checks.append(dict(
                property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                evidence_file='evidence/%s.json' % i,
                technique='deterministic simulation with fault injection (seeded schedule and fault search, shrunk replays)',
                level='exploration', level_note=SERVER + NOTES[i]))
        elif i == 'C20':
            na.append(dict(property=i, reason='A pure function of its arguments: no schedule, clock, I/O or other party for a '
                                              'simulator to control (its use inside of templates is covered by C17).'))
        elif i == 'C21':
            na.append(dict(property=i, reason='A static alias of module names: no schedule, clock, I/O or other party for a '
                                              'simulator to control.'))
        else:
            na.append(dict(property=i, reason='Simulation of this part is not built yet.'))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python -B -m dst.main selftest', checks=checks, not_applicable=na,
             notes='No hooks in /repo: every seam is installed from outside (dst/seams.py). See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
