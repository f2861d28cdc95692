"""C03 snapshots"""
from copy import copy
from .. import gen, history, model, observe
from ..core import Violation

RUNS = {'quick': 2600, 'thorough': 50000}
RULE = ("one run = one history of 12-60 operations (lines, offsets, coordinate systems, refused lines, modes and positions edited in place) with snapshots "
        "taken, rolled back to, or switched to at arbitrary points, nested; after every operation every machine and "
        "every snapshot is compared with its own model; non-trivial: a snapshot taken, changed past, and gone back "
        "to; distinct by scenario content")
REAL = ['pygcode parser, gcodes, blocks, machine (whole library)']
STUB = ['client sessions (simulated)', 'reference model (sim/model.py) as oracle']
MEASURE = 'distinct (modes, selected coordinate system, non-zero offsets) at snapshot time'


def generate(rng, tier, index):
    feats = gen.swarm(rng, always=['cs', 'inc'])
    n = rng.randint(10, 30 if tier == 'quick' else 60)
    axes = rng.choice(['XYZ', 'XYZ', 'XYZ', 'XYZABC', 'XYZA'])
    mode = history.own_mode(rng)
    return {'axes': axes, 'mode': mode, 'ops': history.generate(
        rng, feats, n, axes=axes, mode=mode, fine=rng.choice([0, 0, 0, 0.2]), wide=rng.choice([0, 0, 0.1]), bad=0.05, dup=0.03, snaps=0.3, offsets=rng.choice([0.1, 0.25]), setpos=0.03, use=True,
        direct=rng.choice([0, 0.1, 0.2]))}


class Runner(history.Runner):
    def op_snap(self, name):
        history.Runner.op_snap(self, name)
        real = observe.state(self.saved[name][0])
        a = observe.text_of_state(observe.state(self.real))
        if observe.text_of_state(real) != a:
            self.fail('inexact', 'copy differs from its original:\n  %s\n  %s' % (observe.text_of_state(real), a))
        self.ctx.state(tuple(sorted((g, v) for (g, v) in real['modes'].items() if v)), real['cs'],
                       tuple(sorted((i, a) for (i, d) in real['offsets'].items() for a in d if d[a])))

    def after(self, op):
        history.Runner.after(self, op)
        for name in sorted(self.saved):
            (r, m) = self.saved[name]
            d = observe.diff(observe.state(r), observe.model_state(m))
            if d:
                self.fail('not-independent', 'after %s: snapshot %s changed: %s' % (op, name, '; '.join(d)))


def execute(scenario, ctx):
    r = Runner(ctx, scenario.get('axes', 'XYZ'), scenario.get('mode'))
    r.run(scenario['ops'])
    ctx.nontrivial = ctx.probes['snapshot'] > 0 and (ctx.faults['rollback'] + ctx.faults['switch-to-copy']) > 0
