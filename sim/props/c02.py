"""C02 machines are isolated from each other and from the caller's objects"""
from copy import copy

from .. import core, gen, history, model, observe, tasks
from ..core import Violation

RUNS = {'quick': 1000, 'thorough': 50000}
RULE = ("one run = 2-4 clients, whose operations are interleaved by the scheduler, feeding machines from shared and private "
        "parsed lines, which they edit between and after executions (parameter values, parameters, words, code lists), "
        "setting and querying positions and editing them, transforming codes, making machines (also of classes with their own axes and default mode); after every operation every "
        "machine is compared with its own model and every program object with what its owner made of it; non-trivial: an "
        "object edited after a machine executed it, and machines executing afterwards; distinct by scenario content")
REAL = ['pygcode (whole library)']
STUB = ['clients and their schedule (simulated)', 'reference model (sim/model.py) as oracle']
MEASURE = 'distinct (kind of operation, kind of object edited, active motion mode) combinations'
ASSUMPTIONS = ["the live objects machine.mode, machine.state and machine.abs_pos are the machine itself, not results handed out"]

AXES = ['XYZ', 'XYZ', 'XYZA', 'XYZABC', 'XYZUVW', 'XYZABCUVW']

EDITS = ['value', 'value', 'value', 'add', 'remove', 'word', 'drop', 'left', 'left', 'list', 'share', 'order', 'words', 'clear']


def strip_axes(p):
    if isinstance(p.axes, set):
        p.axes.discard('Z')
        p.axes.add('W')


def kind_of_machine(rng, name):
    """a machine of another class, perhaps derived from that of another machine"""
    mode = history.own_mode(rng)
    return ['new', name, rng.choice(AXES), mode, mode is None and rng.random() < 0.5]


def generate(rng, tier, index):
    nc = rng.randint(2, 4)
    feats = gen.swarm(rng, always=['modal', 'sticky'] if rng.random() < 0.6 else ['modal'])
    gens = [gen.Gen(rng, feats, 'XYZ') for _ in range(nc)]
    clients = [[] for _ in range(nc)]
    texts = []
    for (c, ops) in enumerate(clients):
        names = ['c%dm0' % c] if rng.random() < 0.7 else ['shared-m']
        lines = []
        if rng.random() < 0.4:
            ops.append(kind_of_machine(rng, names[0]))
        for _ in range(rng.randint(5, 12 if tier == 'quick' else 25)):
            r = rng.random()
            m = rng.choice(names)
            if r < 0.22 or not lines:
                o = rng.choice(['c%dl%d' % (c, len(lines)), 'l%d' % rng.randrange(3)])
                # (clients are given the same programs to run, at times)
                texts.append(gens[c].line() if not texts or rng.random() < 0.65 else rng.choice(texts[-3:]))
                ops.append(['parse', o, texts[-1]])
                lines.append(o)
                if rng.random() < 0.6:
                    ops.append(['exec', m, o, rng.randrange(4)])
            elif r < 0.46:
                ops.append(['exec', m, rng.choice(lines + ['l0', 'l1']), rng.randrange(4)])
            elif r < 0.72:
                ops.append(['edit', rng.choice(lines + lines + ['l0', 'l1']), rng.choice(EDITS), rng.randrange(100), rng.randrange(100),
                            rng.choice([0, 1, -2.5, 7, 99.25, 0.125])])
            elif r < 0.78:
                ops.append(['editpos', m, rng.randrange(10)])
            elif r < 0.84:
                ops.append(['setpos', m, dict((a, rng.randint(-3000, 3000) / 1000.0) for a in 'XYZ'), rng.randrange(2)])
            elif r < 0.89:
                ops.append(['transform', m, rng.choice(lines), rng.randrange(10), rng.randint(0, 8)])
            elif r < 0.93:
                ops.append(['lists', m, rng.choice(lines), rng.randrange(4)])
            elif rng.random() < 0.3:
                ops.append(['assign', m, rng.choice(lines)])
                ops.append(['edit', ops[-1][2], rng.choice(['value', 'word', 'remove', 'add']), rng.randrange(100), rng.randrange(100), 7])
            elif r < 0.95:
                ops.append(['offset', m, rng.randint(1, 3), {'X': rng.choice([1, -2, 0.5])}])
            elif r < 0.97:
                ops.append(['default', rng.randrange(6)])
            else:
                names.append('c%dm%d' % (c, len(names)))
                ops.append(kind_of_machine(rng, names[-1]) if rng.random() < 0.6 else ['new', names[-1]])
    ops = []
    todo = [list(x) for x in clients]
    while any(todo):
        c = rng.choice([i for (i, t) in enumerate(todo) if t])
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            if todo[c]:
                ops.append(todo[c].pop(0))
    return {'ops': ops}


class World(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.machines = {}
        self.modes = {}
        self.lines = {}
        self.prints = {}
        self.groups = {}        # lines that share codes
        self.executed = set()   # lines that a machine has executed
        self.edited = False
        self.n = 0

    def fail(self, kind, detail):
        raise Violation(kind, 'operation %d: %s' % (self.n, detail))

    def machine(self, name, axes='XYZ', mode=None, derived=False):
        if name not in self.machines:
            cls = history.machine_class(axes, mode)
            if derived and self.machines:
                (r, m) = self.machines[sorted(self.machines)[0]]
                cls = type('Derived', (type(r),), {'axes': set(axes)})
                mode = self.modes[sorted(self.machines)[0]]
            r = cls()
            self.machines[name] = [r, history.model_machine(axes, mode)]
            self.modes[name] = mode
            d = observe.diff(observe.state(r), observe.model_state(self.machines[name][1]))
            if d:
                self.fail('default-state', 'new machine: %s' % '; '.join(d))
            self.ctx.probe('machine-made')
        return self.machines[name]

    def compare(self, op):
        for name in sorted(self.machines):
            (r, m) = self.machines[name]
            d = observe.diff(observe.state(r), observe.model_state(m))
            if d:
                self.fail('machine', 'after %s: machine %s differs from its model: %s' % (op, name, '; '.join(d)))
        for o in sorted(self.lines):
            f = tasks.fingerprint(self.lines[o])
            if f != self.prints[o]:
                self.fail('object', "after %s: caller's line %s changed:\n  %s\n  %s" % (op, o, self.prints[o], f))

    # ---- what a real block says, for the model
    def content(self, line):
        codes = []
        for g in line.block.gcodes:
            codes.append(self.code(g))
        left = [word(w) for w in line.block.modal_params]
        return model.Block(codes, left)

    def code(self, g):
        w = word(g.word)
        return model.Code(w, dict(word(p) for p in g.params.values()), model.spec_of(w))

    # ---- operations
    def op_new(self, name, *kind):
        self.machine(name, *kind)

    def op_parse(self, o, text):
        from pygcode.line import Line
        try:
            model.parse(text)
        except (model.Refused, model.Unsure):
            return
        line = Line(text)
        self.groups.pop(o, None)
        self.lines[o] = line
        self.prints[o] = tasks.fingerprint(line)
        self.executed.discard(o)

    def op_exec(self, name, o, how):
        if o not in self.lines:
            return
        (real, ref) = self.machine(name)
        line = self.lines[o]
        block = self.content(line)
        if how == 3 and (len(block.codes) != 1 or block.left):
            how = 0
        after = ref.clone()
        try:
            if how == 2:
                for c in sorted(block.codes, key=lambda c: c.spec.order):
                    after._set_mode(c)
            else:
                after.execute(block)
            ok = True
        except model.Refused:
            ok = False
        except model.Unsure:
            return
        try:
            if how == 0:
                real.process_block(line.block)
            elif how == 1:
                real.process_gcodes(*line.block.gcodes, modal_params=line.block.modal_params)
            elif how == 2:
                real.set_mode(*line.block.gcodes)
            else:
                line.block.gcodes[0].process(real)
        except Exception as e:
            if not history.is_documented(e):
                raise
            if ok:
                self.fail('verdict', '%s refused by %s: %r' % (line, name, e))
            return
        if not ok:
            self.fail('verdict', '%s accepted by %s' % (line, name))
        self.machines[name][1] = after
        self.executed.add(o)
        self.ctx.probe('executed')
        if self.edited:
            self.ctx.probe('executed-after-edit')
        self.ctx.state('exec', how, after.word('motion'))

    def op_edit(self, o, kind, i, j, v):
        if o not in self.lines:
            return
        line = self.lines[o]
        b = line.block
        from pygcode.words import Word
        coded = [g for g in b.gcodes if g.params]
        if kind == 'value' and coded:
            g = coded[i % len(coded)]
            l = sorted(g.params)[j % len(g.params)]
            setattr(g, l, int(abs(v)) if l in 'LTN' else v)
        elif kind == 'add' and b.gcodes:
            g = b.gcodes[i % len(b.gcodes)]
            free = sorted(set(g.param_letters) & set('XYZ') - set(g.params))
            if not free:
                return
            if j % 2:
                setattr(g, free[j % len(free)], v)
            else:
                g.add_parameter(Word(free[j % len(free)], v))
        elif kind == 'remove' and coded:
            g = coded[i % len(coded)]
            del g.params[sorted(g.params)[j % len(g.params)]]
        elif kind == 'word':
            fs = [g for g in b.gcodes if g.word.letter in 'FS']
            if not fs:
                return
            fs[i % len(fs)].word.value = abs(v)
        elif kind == 'drop' and b.gcodes:
            del b.gcodes[i % len(b.gcodes)]
        elif kind == 'left' and b.modal_params:
            w = b.modal_params[i % len(b.modal_params)]
            if j % 4 == 0:
                b.modal_params.remove(w)
            elif w.letter not in 'LTN':
                w.value = v
        elif kind == 'list':
            if not b.modal_params:
                return
            b.modal_params.append(Word('XYZ'[i % 3], v))
        elif kind == 'share':
            others = [x for x in sorted(self.lines) if x != o and self.lines[x].block.gcodes]
            if not others:
                return
            x = others[i % len(others)]
            gs = self.lines[x].block.gcodes
            if len(b.gcodes) > 8:
                return
            b.gcodes.append(gs[j % len(gs)])
            g = self.groups.get(o, frozenset([o])) | self.groups.get(x, frozenset([x]))
            for y in g:
                self.groups[y] = g
        elif kind == 'order':
            b.gcodes.reverse()
        elif kind == 'words' and b.words:
            w = b.words[i % len(b.words)]
            if w.letter in 'XYZIJKRQFS':
                w.value = abs(v)
        elif kind == 'clear':
            b.words.clear()
        else:
            return
        if o in self.executed:
            self.edited = True
            self.ctx.fault('edit:' + kind)
        else:
            self.ctx.fault('edit-before-use:' + kind)
        self.ctx.state('edit', kind, o in self.executed)
        for x in self.groups.get(o, [o]):
            if x in self.lines:
                self.prints[x] = tasks.fingerprint(self.lines[x])

    def op_editpos(self, name, how):
        (real, ref) = self.machine(name)
        if how == 0:
            p = real.pos
            p.X = 99
        elif how == 1:
            p = real.pos
            p.update(X=5, Y=-5, Z=50)
        elif how == 2:
            p = real.abs2work(real.abs_pos)
            p.Z = -77
        elif how == 3:
            p = real.work2abs(real.pos)
            p.Y = 13
        elif how == 4:
            p = real.pos
            p.values['X'] = 1234
            p.values.clear()
        elif how == 5:
            for w in real.abs_pos.words:
                w.value = 55
        elif how == 6:
            p = real.pos
            p.unit = [u for u in (0, 1) if u != p.unit][0]
        elif how == 7:
            p = copy(real.abs_pos)
            p.update(X=8, Y=8, Z=8)
        elif how == 8:
            strip_axes(real.Position())
        else:
            strip_axes(real.pos)
        self.ctx.fault('edit-position')
        self.edited = True

    def op_setpos(self, name, vals, how=1):
        (real, ref) = self.machine(name)
        from pygcode.machine import Position
        p = real.Position(**vals) if how else Position(axes=real.axes, unit=real.Position.default_unit, **vals)
        vals = dict(dict((a, 0.0) for a in real.axes), **vals)
        real.pos = p
        ref.set_work(dict(vals))
        d = observe.pos(p)
        if d != vals:
            self.fail('object', 'position given to a machine changed: %s -> %s' % (vals, d))
        self.compare('setting a position')
        p.update(X=1000, Y=1001)
        p.Z = -1000
        self.ctx.fault('edit-position')

    def op_offset(self, name, n, vals):
        (real, ref) = self.machine(name)
        history.set_offset(real, ref, n, vals)

    def op_transform(self, name, o, how, stop):
        """any outcome will do, as long as nothing else changes"""
        if o not in self.lines:
            return
        (real, ref) = self.machine(name)
        from pygcode import gcodes
        from pygcode.utils import omit_redundant_modes
        start = real.pos
        was = observe.pos(start)
        for g in list(self.lines[o].block.gcodes):
            passed_on = False
            try:
                if isinstance(g, gcodes.GCodeArcMove):
                    items = tasks.arc_codes(real, g, {'method': 'iom'[how % 3]}, pos=start)
                elif isinstance(g, gcodes.GCodeCannedCycle):
                    items = tasks.drill_codes(real, g, pos=start)
                else:
                    passed_on = True  # the caller's own codes, not to be edited
                    items = omit_redundant_modes(iter([g, g, g]))
                for (k, s) in zip(range(stop), items):
                    if passed_on:
                        continue
                    for l in list(s.params):
                        s.params[l].value = 4
                    s.params.clear()
                    if how % 2:
                        s.word.value = 99
                    self.ctx.probe('transformed')
            except (NotImplementedError, AssertionError, TypeError, ArithmeticError, ValueError):
                pass
            except Exception as e:
                if not history.is_documented(e):
                    raise
        gcodes.split_gcodes(self.lines[o].block.gcodes, gcodes.GCodeMotion)
        if observe.pos(start) != was:
            self.fail('object', 'start position changed')

    def op_assign(self, name, o):
        """a mode can be assigned; the code assigned stays the caller's"""
        if o not in self.lines:
            return
        (real, ref) = self.machine(name)
        for g in self.lines[o].block.gcodes:
            c = self.code(g)
            # (assigning coordinate_system selects nothing until the next set_mode)
            if c.spec.group not in (None, 'coordinate_system'):
                setattr(real.mode, c.spec.group, g)
                history.model_assign(ref, c)
                self.ctx.probe('mode-assigned')
                self.executed.add(o)

    def op_lists(self, name, o, how):
        """lists that were handed out are the caller's"""
        (real, ref) = self.machine(name)
        if how == 0:
            real.mode.gcodes.clear()
        elif how == 1:
            real.mode.gcodes.reverse()
        elif o in self.lines:
            try:
                out = real.block_modal_gcodes(self.lines[o].block)
            except Exception as e:
                if not history.is_documented(e):
                    raise
                return
            if how == 2:
                out.clear()
            else:
                out.reverse()
        self.ctx.fault('edit-list')

    def op_default(self, how):
        """codes made with their default word are the caller's too"""
        from pygcode import gcodes
        cls = [gcodes.GCodeLinearMove, gcodes.GCodeRapidMove, gcodes.GCodeStraightProbe, gcodes.GCodeFeedRate,
               gcodes.GCodeStopSpindle, gcodes.GCodeAbsoluteDistanceMode][how]
        if how == 3:
            a = cls(100)
            a.word.value = 7
            b = cls(100)
            if b.word.value != 100:
                self.fail('default-word', 'a new %s has word %s' % (cls.__name__, b.word))
            return
        a = cls()
        was = str(a)
        a.word.value = 7
        if a.param_letters:
            a.X = 5
        b = cls()
        if str(b) != was:
            self.fail('default-word', 'a new %s is %s instead of %s' % (cls.__name__, b, was))
        self.ctx.fault('edit-default')

    def run(self, ops):
        for op in ops:
            self.n += 1
            self.ctx.step()
            getattr(self, 'op_' + op[0])(*op[1:])
            self.compare(op)
            self.ctx.log(self.n, op[0], [observe.text_of_state(observe.state(self.machines[k][0])) for k in sorted(self.machines)])
        # (what a machine becomes later shows what it had kept)
        self.machine('late')
        self.compare('the end')


def word(w):
    return (w.letter, str(w.value) if w.letter == 'O' else w.value)


def execute(scenario, ctx):
    World(ctx).run(scenario['ops'])
    ctx.nontrivial = ctx.probes['executed-after-edit'] > 0
