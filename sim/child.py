"""
A process of its own: carries out the tasks given on standard input, writes their
results.  Its hash seed is chosen by whoever starts it; what it does before, and
the order in which it works, are given.
"""
import gc
import json
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def script(case):
    from sim import scriptsim
    res = scriptsim.run(case['script'], case['args'], ''.join(x + '\n' for x in case['lines']), case.get('plan'))
    return ['%r %s %s' % (res.out, res.status, res.raised)]


def perform(task):
    from sim import tasks
    if task[0] == 'script':
        return script(task[1])
    return tasks.perform(task)


def warm(task, strike):
    """prior use: its results do not matter; it may be abandoned midway"""
    from sim import core, interrupt, tasks
    if strike is None:
        perform(task)
        return None
    (at, kind, opcodes) = strike
    i = interrupt.Interrupter(at, {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[kind], opcodes)
    try:
        i.call(lambda: tasks.raw(task))
    except Exception:
        pass
    return i.struck and '%s:%d' % i.struck[:2]


def clock(config):
    """a clock that stands still, jumps, or runs backwards"""
    import time
    kind = config.get('clock')
    if not kind:
        return
    now = [config.get('epoch', 0.0)]

    def read():
        now[0] += {'still': 0.0, 'back': -1.0, 'jump': 86400.0 * 365}[kind]
        return now[0]
    time.time = time.monotonic = time.perf_counter = read


def main():
    job = json.load(sys.stdin)
    config = job['process']
    from sim import env
    env.setup()
    random.seed(config.get('random', 0))
    if config.get('gc') == 'off':
        gc.disable()
    elif config.get('gc') == 'busy':
        gc.set_threshold(1, 1, 1)
    clock(config)
    junk = [object() for _ in range(config.get('junk', 0))]
    struck = [warm(t, s) for (t, s) in config['warm']]
    del junk[::2]
    out = {}
    order = config['order']
    for i in order:
        r = perform(job['tasks'][i])
        out.setdefault(str(i), []).append(r)
    json.dump({'struck': [x for x in struck if x], 'results': out}, sys.stdout)
    sys.stdout.flush()


if __name__ == '__main__':
    from sim import locks
    try:
        main()
    except locks.Deadlock as e:
        json.dump({'stuck': str(e)}, sys.stdout)
