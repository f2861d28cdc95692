"""
plant.py [--checks C01,C02|own|all] [--no-tests] ID...

Try planted bugs (seeded/ID, and script_bugs/ID: those that touch the scripts) on a scratch copy of /repo: does the patch apply, does the
result import, do the tests pass, does the demonstration tell the trees apart, and which
checks notice.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return (p.returncode, p.stdout.decode('utf-8', 'replace'))


def copy_repo(d):
    subprocess.check_call(['cp', '-a', '/repo', d])
    return d


def tests(repo):
    (code, out) = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], repo, {'PYTHONPATH': repo + '/src'})
    return out.strip().split('\n')[-1]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--checks', default='own')
    ap.add_argument('--no-tests', action='store_true')
    args = ap.parse_args()
    where = {}
    for folder in ('seeded', 'script_bugs'):
        for i in os.listdir(os.path.join(VERIF, folder)):
            where[i] = os.path.join(VERIF, folder, i)
    ids = args.ids or sorted(where)
    top = tempfile.mkdtemp(prefix='plant-')
    try:
        clean = copy_repo(os.path.join(top, 'clean'))
        for i in ids:
            d = where[i]
            with open(os.path.join(d, 'meta.json')) as f:
                meta = json.load(f)
            repo = copy_repo(os.path.join(top, 'bug'))
            (code, out) = sh(['git', 'apply', os.path.join(d, 'patch.diff')], repo)
            print('==', i, meta['property'], end=' ')
            if code:
                print('PATCH FAILS', out[:300])
            else:
                if not args.no_tests:
                    print('|', tests(repo), end=' ')
                    (a, out1) = sh(['bash', os.path.join(d, 'demo.sh')], clean)
                    (b, out2) = sh(['bash', os.path.join(d, 'demo.sh')], repo)
                    print('| demo clean=%d bug=%d%s' % (a, b, '' if a == 0 and b != 0 else '  <== BAD DEMO ' + out1[-300:] + out2[-300:]), end=' ')
                props = [meta['property']] if args.checks == 'own' else (
                    sorted(x[:-3].upper() for x in os.listdir(os.path.join(VERIF, 'sim/props')) if x.startswith('c'))
                    if args.checks == 'all' else args.checks.split(','))
                for p in props:
                    (code, out) = sh([PY, '-B', 'sim/run.py', '--property', p, '--tier', 'quick', '--no-minimise'], VERIF, {'VERIF_REPO': repo})
                    line = [x for x in out.split('\n') if ' violates ' in x]
                    print('| %s %s' % (p, {0: 'quiet', 1: 'CAUGHT ' + (line[0][:150] if line else '')}.get(code, 'ERROR %d %s' % (code, out[-500:]))), end=' ')
                print(flush=True)
            shutil.rmtree(repo)
    finally:
        shutil.rmtree(top)


if __name__ == '__main__':
    sys.exit(main())
