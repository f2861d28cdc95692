"""
fixes.py [COMMIT...]

Does each check notice when a repair recorded in known_findings.txt is undone?  The commit is
reverted on a scratch copy of /repo and the check of its property run against that.
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def main():
    todo = []
    for line in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
        if m and (len(sys.argv) < 2 or m.group(2) in sys.argv[1:]):
            todo.append(m.groups())
    missed = 0
    for (prop, commit, what) in todo:
        top = tempfile.mkdtemp(prefix='fixes-')
        try:
            repo = os.path.join(top, 'repo')
            subprocess.check_call(['cp', '-a', '/repo', repo])
            p = subprocess.run(['git', 'revert', '-n', commit], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                print('%s %s CONFLICT (later repairs touch the same lines): %s' % (prop, commit, what), flush=True)
                continue
            p = subprocess.run([PY, '-B', 'sim/run.py', '--property', prop, '--tier', 'quick', '--no-minimise'], cwd=VERIF,
                               env=dict(os.environ, VERIF_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = p.stdout.decode('utf-8', 'replace').split('\n')
            line = [x for x in out if ' violates ' in x]
            missed += p.returncode != 1
            print('%s %s %s: %s %s' % (prop, commit, {0: 'QUIET', 1: 'caught'}.get(p.returncode, 'ERROR'), what,
                                       '| ' + line[0][:100] if line else ''), flush=True)
        finally:
            shutil.rmtree(top)
    return 1 if missed else 0


if __name__ == '__main__':
    sys.exit(main())
