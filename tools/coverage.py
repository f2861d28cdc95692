"""
coverage.py [PROPERTY...]: which lines of the code under test do the checks execute?

Runs each check (quick tier, fewer runs) with line monitoring in every simulated run, and
prints the lines of functions that no run reached.  (Lines executed by the processes that
C18 starts are not counted.)
"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.execve(sys.executable, [sys.executable, '-B'] + sys.argv, dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'))
import dis
import glob
import importlib
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
mon = sys.monitoring
TOOL = 4
hits = set()
fresh = set()


def on_line(code, line):
    f = code.co_filename
    if f.startswith(core.SRC) or f.startswith(core.SCRIPTS):
        if (f, line) not in hits:
            hits.add((f, line))
            fresh.add((f, line))
    return mon.DISABLE


from sim import core, env  # noqa


def all_lines(path):
    out = {}

    def walk(code, name):
        for (_, _, line) in code.co_lines():
            if line:
                out.setdefault(line, name)
        for c in code.co_consts:
            if hasattr(c, 'co_code'):
                walk(c, name + '.' + c.co_name)
    with open(path) as f:
        walk(compile(f.read(), path, 'exec'), '')
    return out


def main():
    mon.use_tool_id(TOOL, 'cov')
    mon.register_callback(TOOL, mon.events.LINE, on_line)
    mon.set_events(TOOL, mon.events.LINE)
    env.setup()
    folder = tempfile.mkdtemp(prefix='cov-')
    plain = core.forked

    def forked(func, wall):
        def job():
            try:
                return func()
            finally:
                if fresh:
                    with open(os.path.join(folder, str(os.getpid())), 'a') as f:
                        f.write(''.join('%s\t%d\n' % x for x in sorted(fresh)))
                    fresh.clear()
        return plain(job, wall)
    core.forked = forked
    fresh.clear()
    for p in sys.argv[1:] or ['C%02d' % i for i in range(1, 19)]:
        module = importlib.import_module('sim.props.%s' % p.lower())
        n = module.RUNS['quick'] // 4
        core.search(module, p, 1, 'quick', n, 8, 600.0, keep_going=True)
        for x in glob.glob(folder + '/*'):
            with open(x) as f:
                for line in f:
                    (a, b) = line.split('\t')
                    hits.add((a, int(b)))
            os.remove(x)
        print(p, len(hits), flush=True)
    os.rmdir(folder)
    for path in sorted(glob.glob(core.SRC + '*.py') + [core.SCRIPTS + 'pygcode-norm', core.SCRIPTS + 'pygcode-crop']):
        lines = all_lines(path)
        missed = [n for n in sorted(lines) if (path, n) not in hits]
        print('%s: %d of %d lines executed' % (os.path.relpath(path, core.REPO), len(lines) - len(missed), len(lines)))
        with open(path) as f:
            text = f.read().split('\n')
        for n in missed:
            print('    %5d %-40s %s' % (n, lines[n][1:], text[n - 1].strip()))


main()
