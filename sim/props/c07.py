"""C07 position, offsets, travelled range"""
from .. import gen, history, model, observe
from ..core import Violation

RUNS = {'quick': 3200, 'thorough': 60000}
RULE = ("one run = one history of 10-60 operations (moves, canned cycles, mode and coordinate system changes, offset "
        "changes, refused / lost / repeated lines, roll backs, set positions) on a 3, 4 or 6 axis machine; non-trivial: "
        "at least 4 moves and an offset change, incremental move, canned cycle or fault; distinct by scenario content")
REAL = ['pygcode parser, gcodes, blocks, machine (whole library)']
STUB = ['the link delivering lines (simulated, faulty)', 'reference model (sim/model.py) as oracle']
MEASURE = 'distinct (distance mode, plane, coordinate system, motion mode, moved axes) combinations executed'
KEYS = ['abs', 'pos', 'lo', 'hi', 'offsets', 'temp', 'cs']
ASSUMPTIONS = ['lengths are not converted when G20/G21 change (the machine does not claim to)',
               'positions compared with relative tolerance 1e-6']


def generate(rng, tier, index):
    feats = gen.swarm(rng, always=['inc', 'canned', 'retract'] if rng.random() < 0.6 else ['inc'])
    n = rng.randint(8, 30 if tier == 'quick' else 60)
    axes = rng.choice(['XYZ', 'XYZ', 'XYZ', 'XYZA', 'XYZABC', 'XYZUVW', 'XY', 'XZ', 'XYA'])
    p = rng.choice([0.0, 0.08])
    mode = history.own_mode(rng)
    wide = rng.choice([0, 0, 0.1])
    if not set('XYZ') <= set(axes):
        # (the arcs and cycles that the generator composes are for three axes)
        feats = [f for f in feats if f not in ('arc', 'canned')]
        wide = 0.5
    return {'axes': axes, 'mode': mode, 'ops': history.generate(
        rng, feats, n, axes=axes, mode=mode, fine=rng.choice([0, 0, 0, 0.2]), wide=wide, damage=p, bad=p, lost=0.03, dup=0.1, swap=0.05,
        snaps=rng.choice([0, 0.08]), offsets=rng.choice([0.02, 0.15]), setpos=0.03)}


class Runner(history.Runner):
    keys = KEYS

    def compare(self, what):
        real = history.Runner.compare(self, what)
        # invariants, independent of the model
        unit = 0 if 'G20' in (self.mode or '') else 1      # (as the default mode says)
        units = [p.unit for p in (self.real.abs_pos, self.real.pos, self.real.abs_range_min, self.real.abs_range_max)]
        if units != [unit] * 4:
            self.fail('unit', '%s: positions are in units %s instead of %s' % (what, units, unit))
        cs = real['cs']
        for a in real['abs']:
            off = real['offsets'][cs][a] + real['temp'][a]
            if not model.close(real['abs'][a], real['pos'][a] + off, 1e-9):
                self.fail('conversion', '%s: axis %s abs %r, work %r, offset %r' % (what, a, real['abs'][a], real['pos'][a], off))
            if not (real['lo'][a] <= real['abs'][a] <= real['hi'][a]) and what != 'temp':
                self.fail('range', '%s: axis %s at %r outside %r..%r' % (what, a, real['abs'][a], real['lo'][a], real['hi'][a]))
        return real

    def after(self, op):
        real = history.Runner.after(self, op)
        m = self.ref
        self.ctx.state(m.word('distance'), m.plane, m.cs, m.word('motion'), m.word('canned_cycles_return'),
                       tuple(a for a in real['abs'] if real['abs'][a]))


def execute(scenario, ctx):
    r = Runner(ctx, scenario.get('axes', 'XYZ'), scenario.get('mode'))
    r.compare('start')
    r.run(scenario['ops'])
    ctx.nontrivial = ctx.probes['line-ok'] >= 4 and len(ctx.states) >= 4
