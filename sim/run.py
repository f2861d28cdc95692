"""
run.py --property C01 [--tier quick|thorough] [--replay FILE] [--workers N] [--runs N]
       [--digests FILE] [--first N]

exit 0: the property held on everything explored
exit 1: VIOLATION property=... replay=...
exit 2: the check itself failed (harness error, wall clock exhausted)
"""
import argparse
import importlib
import json
import os
import sys
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--runs', type=int, default=None)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--digests')
    ap.add_argument('--wall', type=float, default=None)
    ap.add_argument('--all', action='store_true', help="keep going; summarise all failures")
    ap.add_argument('--no-minimise', action='store_true')
    args = ap.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'

    # a fixed hash seed, so that the process itself adds no nondeterminism
    want = os.environ.get('VERIF_HASHSEED', '0')
    if os.environ.get('PYTHONHASHSEED') != want or os.environ.get('PYTHONDONTWRITEBYTECODE') != '1' \
            or not sys.flags.dont_write_bytecode:
        env = dict(os.environ, PYTHONHASHSEED=want, PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONPATH', None)
        os.execve(sys.executable, [sys.executable, '-B'] + sys.argv, env)

    seed = args.seed
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
    prop = args.property

    from sim import core, env
    try:
        env.setup()
        module = importlib.import_module('sim.props.%s' % prop.lower())
    except Exception as e:
        # the code under test cannot even be imported: nothing was explored
        import traceback
        traceback.print_exc()
        print("ERROR: cannot load the code under test or the check: %r" % e)
        return 2

    if args.replay:
        return replay(module, core, prop, args.replay)

    runs = args.runs if args.runs is not None else module.RUNS[args.tier]
    wall = args.wall if args.wall is not None else (600.0 if args.tier == 'quick' else 3000.0)
    t0 = time.monotonic()
    print("property=%s tier=%s seed=%d runs=%d workers=%d" % (prop, args.tier, seed, runs, args.workers), flush=True)

    agg = {
        'faults': Counter(), 'probes': Counter(), 'states': set(), 'steps': 0,
        'sids': set(), 'nontrivial': set(), 'samples': [],
    }
    digests = {}

    def on_result(index, out):
        agg['faults'].update(out['faults'])
        agg['probes'].update(out['probes'])
        agg['states'].update(out['states'])
        agg['steps'] += out['steps']
        agg['sids'].add(out['sid'])
        if out['nontrivial']:
            agg['nontrivial'].add(out['sid'])
        if index < 3 and out.get('scenario') is not None:
            agg['samples'].append((index, out['scenario']))
        digests[index] = out['digest']

    (results, bad, capped) = core.search(
        module, prop, seed, args.tier, runs, args.workers, wall, first=args.first,
        on_result=on_result, keep_going=args.all)
    elapsed = time.monotonic() - t0

    if args.digests:
        with open(args.digests, 'w') as f:
            for i in sorted(digests):
                f.write('%d %s\n' % (i, digests[i]))
    if args.all:
        kinds = Counter((results[i]['status'], results[i]['kind']) for i in bad)
        for (k, n) in kinds.most_common():
            ex = [i for i in bad if (results[i]['status'], results[i]['kind']) == k]
            print(n, k, 'e.g.', ex[:8])
            print('    ', str(results[ex[0]]['detail'])[:1500])
    violations = [i for i in bad if results[i]['status'] == 'violation']
    harness = [i for i in bad if results[i]['status'] == 'harness']

    code = 0
    replay_path = None
    known = []
    if violations and not args.all:
        (code, replay_path, known) = report(module, core, prop, seed, args, results, violations)
    if code == 0 and harness:
        r = results[harness[0]]
        print("ERROR: harness failure in run %d: %s\n%s" % (harness[0], r['kind'], r['detail']))
        code = 2
    if code == 0 and capped:
        print("ERROR: wall clock cap reached after %d of %d runs" % (len(results), runs))
        code = 2

    write_evidence(module, prop, args, seed, runs, results, agg, elapsed, len(violations) if code == 1 else 0, core)
    print("%d runs, %d distinct non-trivial, %d states, %.1f s (%.0f runs/h)%s" % (
        len(results), len(agg['nontrivial']), len(agg['states']), elapsed,
        len(results) / max(elapsed, 1e-3) * 3600, '' if code else ', no violation'))
    return code


def report(module, core, prop, seed, args, results, violations):
    index = violations[0]
    r = results[index]
    scenario = r['scenario']
    if hasattr(module, 'explicit'):
        scenario = module.explicit(scenario, r)   # e.g. the schedule that was drawn
    print("run %d violates %s: %s\n%s" % (index, prop, r['kind'], r['detail']), flush=True)
    original = scenario
    tries = 0
    if not args.no_minimise:
        check = core.run_isolated(module, scenario)
        if check['status'] == 'violation' and check['kind'] == r['kind']:
            (scenario, tries) = core.minimise(module, scenario, r['kind'])
    final = core.run_isolated(module, scenario, keep_log=True)
    if not (final['status'] == 'violation' and final['kind'] == r['kind']):
        scenario = original
        final = core.run_isolated(module, scenario, keep_log=True)
    d = os.path.join(core.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d-%d.json' % (prop, seed, index))
    with open(path, 'w') as f:
        json.dump({
            'property': prop, 'kind': r['kind'], 'detail': final.get('detail') or r['detail'],
            'seed': seed, 'index': index, 'tier': args.tier,
            'minimise_tries': tries, 'scenario': scenario,
            'digest': final['digest'], 'log': final.get('log', [])[-200:],
        }, f, indent=1, sort_keys=True)
    # replay in a fresh process
    import subprocess
    ok = False
    for _ in range(3):
        p = subprocess.run([sys.executable, '-B', os.path.join(HERE, 'run.py'), '--property', prop, '--replay', path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 1:
            ok = True
            break
    print("minimised with %d trials; replay in a fresh process: %s" % (
        tries, 'same violation' if ok else 'NOT reproduced (the code under test is nondeterministic)'))
    print("  %s" % (str(final.get('detail') or r['detail'])[:2000]))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return (1, path, [])


def replay(module, core, prop, path):
    with open(path) as f:
        data = json.load(f)
    out = core.run_isolated(module, data['scenario'], keep_log=True)
    for line in out.get('log', [])[-40:]:
        print('   ', line)
    print(out['status'], out['kind'], out['detail'])
    if out['status'] == 'violation' and out['kind'] == data['kind']:
        if data.get('digest') and out['digest'] != data['digest']:
            print("note: event log digest differs from the recorded one")
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if out['status'] == 'violation':
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 2 if out['status'] == 'harness' else 0


def write_evidence(module, prop, args, seed, runs, results, agg, elapsed, violations, core):
    d = os.path.join(core.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    n = len(results)
    cov = {
        'evaluations': n,
        'distinct_nontrivial': len(agg['nontrivial']),
        'rule': module.RULE,
        'samples': [s for (_, s) in sorted(agg['samples'], key=lambda x: x[0])],
        'distinct_scenarios': len(agg['sids']),
        'runs_per_hour_one_seed_each': round(n / max(elapsed, 1e-3) * 3600),
        'simulated_time': '%d simulated steps (%s)' % (agg['steps'], getattr(module, 'STEP', 'operations delivered by the scheduler')),
        'faults_injected': dict(sorted(agg['faults'].items())),
        'probes': dict(sorted(agg['probes'].items())),
        'distinct_states': len(agg['states']),
        'state_measure': getattr(module, 'MEASURE', ''),
        'real_components': module.REAL,
        'stub_components': module.STUB,
    }
    with open(os.path.join(d, '%s.json' % prop), 'w') as f:
        json.dump({
            'property': prop, 'tier': args.tier, 'seed': seed, 'level': 'exploration',
            'coverage': cov, 'assumptions': getattr(module, 'ASSUMPTIONS', []),
            'wall_s': round(elapsed, 3), 'violations': violations,
        }, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
