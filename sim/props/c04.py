"""C04 a refused block leaves no trace"""
from .. import gen, history, model, observe
from ..core import Violation

RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ("one run = one history of 10-50 operations in which refused lines (conflicting, repeated, malformed, "
        "unsupported, misplaced parameters, damaged) arrive between valid ones, with a twin machine that never gets "
        "the refused ones; non-trivial: at least one refusal followed by an accepted line; distinct by scenario content")
REAL = ['pygcode parser, gcodes, blocks, machine (whole library)']
STUB = ['the link delivering lines (simulated, faulty)', 'twin machine (real code) and reference model as oracles']
MEASURE = 'distinct (kind of refusal, active modes) pairs'


def generate(rng, tier, index):
    feats = gen.swarm(rng, always=['othermotion'] if rng.random() < 0.3 else [])
    n = rng.randint(8, 26 if tier == 'quick' else 50)
    mode = history.own_mode(rng)
    return {'mode': mode, 'ops': history.generate(
        rng, feats, n, mode=mode, fine=rng.choice([0, 0, 0, 0.2]), wide=rng.choice([0, 0, 0.1]), damage=rng.choice([0.05, 0.3]), bad=rng.choice([0.2, 0.4]), dup=0.1,
        offsets=0.05, snaps=rng.choice([0, 0.05]))}


class Runner(history.Runner):
    def __init__(self, ctx, axes='XYZ', mode=None):
        history.Runner.__init__(self, ctx, axes, mode)
        self.twin = type(self.real)()
        self.refusals = 0
        self.after_refusal = False

    def op_exec(self, text, kinds=()):
        for k in kinds:
            self.ctx.fault(k)
        verdict = history.model_deliver(self.ref, text)
        if verdict == 'unsure':
            return
        before = observe.text_of_state(observe.state(self.real))
        e = history.deliver(self.real, text, self.howto[self.n % len(self.howto)])
        self.ctx.log('exec', repr(text), type(e).__name__)
        if e is not None:
            self.refusals += 1
            self.ctx.probe('refusal:' + type(e).__name__)
            self.ctx.state(type(e).__name__, before[:400])
            after = observe.text_of_state(observe.state(self.real))
            if before != after:
                self.fail('trace-left', '%r refused with %r, but the machine changed:\n  %s\n  %s' % (text, e, before, after))
            if verdict == 'ok':
                self.fail('verdict', '%r refused with %r, although it is valid' % (text, e))
        else:
            if self.refusals:
                self.after_refusal = True
            if verdict != 'ok':
                self.fail('verdict', '%r accepted, although it must be refused' % text)
            e = history.deliver(self.twin, text, self.howto[self.n % len(self.howto)])
            if e is not None:
                self.fail('twin', 'accepted line %r refused by the twin that saw no refused lines: %r' % (text, e))

    def op_offset(self, n, vals):
        history.Runner.op_offset(self, n, vals)
        observe.set_offset(self.twin, n, vals)

    def op_temp(self, vals):
        history.Runner.op_temp(self, vals)
        observe.set_offset(self.twin, None, vals)

    def op_snap(self, name):
        from copy import copy
        history.Runner.op_snap(self, name)
        self.saved[name] += (copy(self.twin),)

    def op_roll(self, name):
        from copy import copy
        if name in self.saved:
            (r, m, t) = self.saved[name]
            (self.real, self.ref, self.twin) = (copy(r), m.clone(), copy(t))
            self.ctx.fault('rollback')

    def after(self, op):
        real = self.compare(op[0])
        a = observe.text_of_state(real)
        b = observe.text_of_state(observe.state(self.twin))
        self.ctx.log(self.n, a)
        if a != b:
            self.fail('twin', 'differs from the twin that saw no refused lines:\n  %s\n  %s' % (a, b))


def execute(scenario, ctx):
    r = Runner(ctx, 'XYZ', scenario.get('mode'))
    r.run(scenario['ops'])
    ctx.nontrivial = r.after_refusal
