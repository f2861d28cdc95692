"""C06 active modes"""
from copy import copy

from .. import gen, history, model, observe

RUNS = {'quick': 3200, 'thorough': 60000}
RULE = ("one run = one history of 10-60 operations (valid lines over all supported codes, lines lost, repeated, "
        "reordered, damaged or refused, codes assigned to modal groups, rightly and wrongly, snapshots and roll backs); non-trivial: at least 5 accepted lines and one "
        "fault, roll back or canned-cycle/G80 mode change; distinct by scenario content")
REAL = ['pygcode parser, gcodes, blocks, machine (whole library)']
STUB = ['the link delivering lines (simulated, faulty)', 'reference model (sim/model.py) as oracle']
MEASURE = 'sets of active modes reached after an operation'
ASSUMPTIONS = ['the code table of sim/model.py (LinuxCNC tables as documented in gcodes.py) is right']
KEYS = ['modes', 'cs']


def generate(rng, tier, index):
    feats = gen.swarm(rng, always=['othermotion'] if rng.random() < 0.6 else [])
    n = rng.randint(8, 30 if tier == 'quick' else 60)
    p = rng.choice([0.0, 0.1, 0.2])
    mode = history.own_mode(rng)
    return {'mode': mode, 'ops': history.generate(
        rng, feats + (['extra'] if rng.random() < 0.2 else []), n, mode=mode, damage=p, bad=p, lost=0.03, dup=0.06, swap=0.05,
        snaps=rng.choice([0, 0.1]), offsets=0.02, direct=rng.choice([0, 0, 0.1]),
        crowd=rng.choice([0, 0.1, 0.3]), wide=rng.choice([0, 0.1, 0.3]))}


class Runner(history.Runner):
    keys = KEYS

    def __init__(self, ctx, axes='XYZ', mode=None):
        history.Runner.__init__(self, ctx, axes, mode)
        moves = self.moves = []

        class Watched(type(self.real)):
            """notes the modes that a move is made under"""
            def move_to(self, *args, **kwargs):
                moves.append(dict(observe.modes(self), motion=None))
                return super(Watched, self).move_to(*args, **kwargs)
        self.real = Watched()

    def op_exec(self, text, kinds=()):
        want = modes_of_move(self.ref, text)
        self.in_order(text)
        del self.moves[:]
        history.Runner.op_exec(self, text, kinds)
        if want is not None:
            for got in self.moves:
                if got != want:
                    self.fail('order', '%r: the move is made under %s' % (text, '; '.join(
                        '%s: %s instead of %s' % (k, got[k], want[k]) for k in sorted(want) if got[k] != want[k])))


    def in_order(self, text):
        """the machine lists, and executes, the codes of the block in their order"""
        from pygcode.line import Line
        try:
            codes = self.ref.resolve(model.parse(text))
            self.ref.clone().execute_text(text)
        except (model.Refused, model.Unsure):
            return
        if len(codes) < 2 or (len(codes) < 4 and self.n % 3):
            return
        order = dict((history.plain(*c.word), c.spec.order) for c in codes)
        m = copy(self.real)
        block = Line(text).block
        done = [history.word_of(g) for g in m.block_modal_gcodes(block)]
        if set(done) != set(order) or len(done) != len(codes):
            self.fail('listed', '%r: the machine lists %r instead of %r' % (text, done, list(order)))
        self.check_order(text, 'listed', done, order)
        del done[:]
        for g in block.gcodes:
            note(g, done)
        m.process_block(block)
        self.check_order(text, 'executed', done, order)
        self.ctx.probe('order-of-%d' % min(6, len(done)))

    def check_order(self, text, what, done, order):
        for (a, b) in zip(done, done[1:]):
            if order[a] > order[b]:
                self.fail('order', '%r: %s%s is %s before %s%s' % ((text,) + a + (what,) + b))


def note(g, done):
    """have it noted when a code is executed"""
    process = g.process

    def noted(machine):
        done.append(history.word_of(g))
        return process(machine)
    g.process = noted


def modes_of_move(m, text):
    """modes that the motion of a line is made under; None if there is none"""
    m = m.clone()
    try:
        for c in m.resolve(model.parse(text)):
            m.execute_code(c)
            if c.spec.group == 'motion':
                return dict(m.modes(), motion=None)
    except (model.Refused, model.Unsure):
        pass
    return None


def execute(scenario, ctx):
    r = Runner(ctx, 'XYZ', scenario.get('mode'))
    r.compare('start')
    r.run(scenario['ops'])
    ctx.nontrivial = ctx.probes['line-ok'] >= 5 and (sum(ctx.faults.values()) > 0 or len(ctx.states) > 3)
