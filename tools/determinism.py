"""
determinism.py [--runs N] [PROPERTY...]

Is one seed one execution?  The same runs are made with 1, 3 and 8 workers, twice with 8,
and starting somewhere in the middle; the digests of all event logs must be the same.
(Wall clock plays no part: the run must not depend on how busy the machine is.)
"""
import argparse
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def digests(prop, runs, workers, seed, first=0):
    (fd, path) = tempfile.mkstemp()
    os.close(fd)
    try:
        p = subprocess.run([PY, '-B', 'sim/run.py', '--property', prop, '--runs', str(runs), '--workers', str(workers),
                            '--seed', str(seed), '--first', str(first), '--digests', path, '--all'],
                           cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        with open(path) as f:
            return dict(x.split() for x in f), p.returncode
    finally:
        os.remove(path)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('properties', nargs='*')
    ap.add_argument('--runs', type=int, default=200)
    args = ap.parse_args()
    props = args.properties or ['C%02d' % i for i in range(1, 19)]
    bad = 0
    for prop in props:
        for seed in (1, 77):
            (ref, code) = digests(prop, args.runs, 8, seed)
            differ = {}
            for workers in (8, 3, 1):
                (d, _) = digests(prop, args.runs, workers, seed)
                differ['%d workers' % workers] = [i for i in ref if d.get(i) != ref[i]] + [i for i in d if i not in ref]
            half = args.runs // 2
            (d, _) = digests(prop, args.runs - half, 8, seed, first=half)
            differ['from %d on' % half] = [i for i in d if d[i] != ref.get(i)]
            wrong = dict((k, v[:5]) for (k, v) in differ.items() if v)
            bad += bool(wrong)
            print(prop, 'seed', seed, len(ref), 'runs:', wrong or 'identical', '' if code == 0 else 'exit %d' % code, flush=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
