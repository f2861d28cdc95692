"""Writes /verif/MANIFEST.json"""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

TECHNIQUE = {
    'C01': 'deterministic simulation: seeded thread scheduler, results compared with serial execution',
    'C02': 'deterministic simulation: seeded interleaving of clients and edits, reference model',
    'C03': 'deterministic simulation: seeded histories with snapshots and roll backs, reference model',
    'C04': 'deterministic simulation: faulty link, refused lines, twin machine and reference model',
    'C05': 'deterministic simulation: injected asynchronous exceptions at any instruction, reference model',
    'C06': 'deterministic simulation: faulty link (loss, duplication, reordering, damage), reference model',
    'C07': 'deterministic simulation: faulty link and histories, reference model of position',
    'C08': 'deterministic simulation: seeded interleaving of lazy sequences with faults, compared with consumption at once',
    'C09': 'deterministic simulation: power failures at any line, repeated resumption, reference controller',
    'C10': 'deterministic simulation: whole tool on simulated files, reference model of conditions',
    'C11': 'deterministic simulation: whole tool, output cut after every line, reference controller',
    'C12': 'deterministic simulation: stops after any move, exact arc geometry as oracle',
    'C13': 'deterministic simulation: stops after any move, model of material as oracle',
    'C14': 'deterministic simulation: crashes and torn journal, recovery compared with the crashed machine',
    'C15': 'deterministic simulation: I/O fault injection under the whole tools, prefix and exit status oracle',
    'C16': 'deterministic simulation: partial, interrupted and re-chunked I/O under the whole tools, differential',
    'C17': 'deterministic simulation: damaged lines, reference model of what remains legible',
    'C18': 'deterministic simulation: seeded processes (hash seed, history, order, clock, gc), differential',
    'C19': 'deterministic simulation: seeded interleaving of clients, edits and interruptions on shared positions, reference model',
    'C22': 'deterministic simulation: seeded interleaving of clients, edits, refusals and interruptions on shared commands, reference model',
    'C23': 'deterministic simulation: whole tool on simulated files with short and interrupted transfers, history of its output',
    'C24': 'deterministic simulation: rounds of work with refusals, interruptions and given up sequences, steps and memory of each compared',
}

NOT_APPLICABLE = {
    'C20': 'pure functions of their arguments (plane rotation and projection): no schedule, time, I/O, fault or history can '
           'change the outcome, so simulation has nothing to decide',
    'C21': 'a static fact about tables of classes: it has no execution, schedule or fault to simulate (how the tables are built '
           'concurrently, or interrupted, is decided by C01 and C05)',
}


def main():
    checks = []
    for prop in sorted(TECHNIQUE):
        module = importlib.import_module('sim.props.' + prop.lower())
        note = '%s Real: %s. Simulated or stubbed: %s.' % (module.RULE[0].upper() + module.RULE[1:] + '.', '; '.join(module.REAL), '; '.join(module.STUB))
        if getattr(module, 'ASSUMPTIONS', None):
            note += ' Assumes: %s.' % '; '.join(module.ASSUMPTIONS)
        cmd = '/opt/venv/bin/python -B sim/run.py --property %s --tier ' % prop
        checks.append({
            'property': prop,
            'quick_cmd': cmd + 'quick',
            'thorough_cmd': cmd + 'thorough',
            'technique': TECHNIQUE[prop],
            'level': 'exploration',
            'level_note': note,
        })
    m = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python -B sim/selftest.py',
        'checks': checks,
        'not_applicable': [{'property': p, 'reason': r} for (p, r) in sorted(NOT_APPLICABLE.items())],
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
        print('valid')
    except ImportError:
        pass


if __name__ == '__main__':
    main()
