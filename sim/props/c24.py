"""C24 repeating the same work neither costs nor keeps more each time"""
import gc
import sys
from array import array
from collections import OrderedDict, defaultdict, deque
from copy import copy

from .. import core, env, gen, history, interrupt, tasks
from ..core import Violation

RUNS = {'quick': 500, 'thorough': 12000}
RULE = ("one run = one round of 3-9 pieces of work (on objects made anew, and on machines, blocks, commands, positions and modes "
        "kept for all rounds; accepted, refused, given up midway and interrupted), repeated 9 times in one process; calls "
        "within the library, objects, and what containers hold are counted after each; non-trivial: at least 3 pieces and 50 calls "
        "a round; distinct by scenario content")
REAL = ['pygcode (all modules)', "Python's allocator and garbage collector (when it runs is decided by the simulator)"]
STUB = ['the callers, interrupts (simulated)', 'counting of calls (sys.setprofile)']
MEASURE = 'distinct (kinds of work, calls per round) combinations'
ASSUMPTIONS = ['collected garbage counts as given back', 'what grows is only reported if it grows in each of the last five rounds']
FIXED_LISTS = ('strike',)
ROUNDS = 9
WARM = 3
CONTAINERS = (list, dict, set, defaultdict, OrderedDict, deque)

BAD = tasks.BAD
KINDS = ('run', 'run', 'arc', 'fresh', 'drill', 'text', 'split', 'copy', 'clean', 'made')


def good_lines(rng, n):
    g = gen.Gen(rng, gen.swarm(rng, always=['modal', 'misc', 'othermotion'] if rng.random() < 0.4 else ['modal']), 'XYZ')
    return [g.line() for _ in range(n)]


def some_lines(rng):
    lines = good_lines(rng, rng.randint(1, 4))
    if rng.random() < 0.4:
        lines.insert(rng.randrange(len(lines) + 1), rng.choice(BAD))
    return lines


def piece(rng, tier):
    c = rng.random()
    if c < 0.3:
        return ['task', tasks.random_task(rng, gen.Gen(rng, gen.swarm(rng), 'XYZ'), tier, kinds=KINDS)]
    if c < 0.45:
        t = tasks.random_task(rng, gen.Gen(rng, gen.swarm(rng), 'XYZ'), tier, kinds=KINDS)
        return ['strike', t, [1 + int(3000 * rng.random() ** 3), rng.choice(['KeyboardInterrupt', 'MemoryError']), rng.random() < 0.5]]
    kind = rng.choice(['machine', 'machine', 'generations', 'block', 'place', 'mode', 'code', 'omit', 'half'])
    if kind in ('machine', 'generations'):
        return [kind, some_lines(rng)]
    if kind in ('block', 'code'):
        return [kind, rng.choice(good_lines(rng, 3) + ['G1 X1 Y2 F100', 'G81 X1 Z-1 R2', 'M3 S100 T2', 'G43 H2 G0 X1'])]
    if kind == 'mode':
        return [kind, [rng.choice(history.DIRECT) for _ in range(rng.randint(1, 4))]]
    if kind == 'omit':
        return [kind, good_lines(rng, rng.randint(2, 6))]
    if kind == 'half':
        return [kind, rng.choice(tasks.ARCS + tasks.DRILLS), rng.randint(0, 3)]
    return [kind, rng.randint(1, 50) / 8.0]


def generate(rng, tier, index):
    return {'work': [piece(rng, tier) for _ in range(rng.randint(3, 9 if tier == 'quick' else 16))], 'gc': rng.choice([None, None, 'off', 'busy'])}


def simpler(s):
    if s.get('gc'):
        yield dict(s, gc=None)


class Worker(object):
    """one piece of work and what is kept for it"""
    def __init__(self, piece):
        self.piece = piece
        self.kind = piece[0]
        self.kept = getattr(self, 'make_' + self.kind, lambda: None)()

    def round(self):
        getattr(self, 'do_' + self.kind)(*self.piece[1:])

    def new_machine(self):
        return history.machine_class('XYZ')()

    make_machine = make_generations = make_mode = new_machine

    def attempt(self, func, *args):
        try:
            func(*args)
        except Exception:
            pass

    def do_task(self, task):
        tasks.perform(task)

    def do_strike(self, task, strike):
        i = interrupt.Interrupter(strike[0], {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[strike[1]], strike[2])
        i.call(lambda: tasks.perform(task))

    def start(self, m):
        m.process_str('G90 G17 G54 G80 G98')
        m.pos = m.Position(X=0, Y=0, Z=0)

    def do_machine(self, lines):
        self.start(self.kept)
        for line in lines:
            self.attempt(self.kept.process_str, line)
        tasks.shown(self.kept)

    def do_generations(self, lines):
        self.kept = copy(self.kept)
        self.do_machine(lines)

    def make_block(self):
        from pygcode.line import Line
        return (Line(self.piece[1]), self.new_machine())

    def do_block(self, text):
        (line, m) = self.kept
        self.start(m)
        self.attempt(m.process_block, line.block)
        self.attempt(m.block_modal_gcodes, line.block)
        (str(line), str(line.block), len(line.block), line.gcodes, [str(w) for w in line.block.words])
        self.attempt(m.clean_block, line.block)

    def make_code(self):
        from pygcode.line import Line
        return Line(self.piece[1]).block.gcodes

    def do_code(self, text):
        for g in self.kept:
            (str(g), repr(g), g.get_param_dict(), g.modal_copy(), g == copy(g), hash(g) if type(g).__hash__ else 0)
            for letter in sorted(g.params):
                self.attempt(setattr, g, letter, 1)
        sorted(self.kept)

    def make_place(self):
        m = self.new_machine()
        return (m, m.Position(X=1, Y=2, Z=3))

    def do_place(self, v):
        from pygcode import machine
        (m, p) = self.kept
        p.X = 1
        p.unit = machine.UNIT_IMPERIAL
        p.unit = machine.UNIT_METRIC
        q = (p + m.Position(Y=v)) - m.Position(Z=v)
        (q.vector, q.values, str(q.words), repr(q), p == q, p.min(p, q), p.max(p, q), copy(q))
        m.pos = q
        m.abs2work(q)
        m.work2abs(q)

    def do_mode(self, texts):
        from pygcode.line import Line
        for text in texts:
            codes = Line(text).block.gcodes
            self.attempt(self.kept.set_mode, *codes)
            for g in codes:
                self.attempt(setattr, self.kept.mode, str(g.modal_group), g)
        str(self.kept.mode)
        copy(self.kept.mode)

    def do_omit(self, lines):
        from pygcode.line import Line
        from pygcode.utils import omit_redundant_modes
        codes = []
        for line in lines:
            codes += Line(line).block.gcodes
        [str(g) for g in omit_redundant_modes(iter(codes))]

    def do_half(self, text, n):
        from pygcode.line import Line
        m = self.new_machine()
        g = Line(text).block.gcodes[-1]
        try:
            items = iter(tasks.arc_codes(m, g, {}) if text in tasks.ARCS else tasks.drill_codes(m, g))
            for _ in range(n):
                next(items, None)
        except Exception:
            pass


def execute(scenario, ctx):
    work = [w for w in scenario['work'] if w]
    workers = [Worker(w) for w in work]
    (calls, objects, items) = (array('q', [0] * ROUNDS) for _ in range(3))     # nothing that is counted itself
    count = [0]
    src = core.SRC

    def profile(frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(src):
            count[0] += 1

    policy = scenario.get('gc')
    if policy == 'off':
        gc.disable()
    elif policy == 'busy':
        gc.set_threshold(7, 2, 2)
    try:
        for r in range(ROUNDS):
            count[0] = 0
            sys.setprofile(profile)
            try:
                for w in workers:
                    w.round()
            finally:
                sys.setprofile(None)
            calls[r] = count[0]
            w = None
            gc.collect()
            gc.collect()
            objects[r] = len(gc.get_objects())
            items[r] = sum(len(x) for x in gc.get_objects() if type(x) in CONTAINERS)
            x = None
    finally:
        gc.enable()
        gc.set_threshold(700, 10, 10)
    ctx.step(sum(calls))
    for w in work:
        ctx.probe(w[0])
        if w[0] == 'strike':
            ctx.fault('interrupt:' + w[2][1], ROUNDS)
        elif w[0] == 'half':
            ctx.fault('dropped-midway', ROUNDS)
    if policy:
        ctx.fault('gc-' + policy)

    def grows(values):
        v = values[WARM:]
        return all(a < b for (a, b) in zip(v, v[1:]))
    if grows(calls):
        raise Violation('more-steps', 'each round of the same work takes more calls than the one before')
    if grows(objects):
        raise Violation('more-memory', 'each round of the same work leaves more objects than the one before')
    if grows(items):
        raise Violation('more-memory', 'each round of the same work leaves more in lists, dictionaries or sets than the one before')
    ctx.state(tuple(sorted(set(w[0] for w in work))), calls[-1] // 50)
    ctx.nontrivial = len(work) >= 3 and calls[-1] >= 50
