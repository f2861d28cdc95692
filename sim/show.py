"""show.py PROPERTY INDEX [seed] [tier]: print the scenario of one run, and its outcome"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.execve(sys.executable, [sys.executable, '-B'] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
import importlib
from sim import core, env
env.setup()
(prop, index) = (sys.argv[1], int(sys.argv[2]))
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
tier = sys.argv[4] if len(sys.argv) > 4 else 'quick'
m = importlib.import_module('sim.props.' + prop.lower())
s = json.loads(json.dumps(m.generate(core.rng_for(seed, prop, index), tier, index)))
print(json.dumps(s, indent=None)[:4000])
r = core.run_isolated(m, s, keep_log=True)
if '-m' in sys.argv and r['status'] == 'violation':
    (s, n) = core.minimise(m, s, r['kind'])
    print(json.dumps(s)[:4000])
    r = core.run_isolated(m, s, keep_log=True)
print(r['status'], r['kind'], str(r['detail'])[:3000])
