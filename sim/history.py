"""
A machine at the end of a faulty link, next to the reference model.

Operations (JSON lists):
  ['exec', text]            deliver a line
  ['lost', text]            the line never arrives
  ['offset', n, {axis: v}]  set offset of coordinate system n
  ['temp', {axis: v}]       set temporary offset
  ['pos', {axis: v}]        set work position
  ['at', {axis: v}]         change the coordinates of the absolute position in place
  ['range', in_place]       reset the travelled range to where the machine is
  ['cs', n]                 select a coordinate system directly
  ['mode', group, text]     set the code of a modal group directly (text ''): clear it
  ['badmode', group, what]  try and set something that is no code of that group
  ['param', group, l, v]    change a parameter that the code of a modal group retains
  ['snap', name]            take a copy of the machine
  ['roll', name]            go on with a copy of that copy
  ['use', name]             switch to the copy itself (and keep the other under 'main')
"""
from copy import copy

from . import env, model, observe, gen, faults
from .core import Violation

DOCUMENTED = ('GCodeBlockFormatError', 'GCodeParameterError', 'GCodeWordStrError',
              'MachineInvalidAxis', 'MachineInvalidState', 'AssertionError')


def is_documented(e):
    ex = env.pygcode.exceptions
    return isinstance(e, (ex.GCodeBlockFormatError, ex.GCodeParameterError, ex.GCodeWordStrError,
                          ex.MachineInvalidAxis, ex.MachineInvalidState, AssertionError))


def machine_class(axes, mode=None):
    """machines with those axes, starting in that mode (None: the library's default)"""
    from pygcode.machine import Machine, Mode, NullMachine
    if set(axes) == set(Machine.axes) and mode is None:
        return Machine
    d = {'axes': set(axes)}
    if mode == '':
        if set(axes) == set(NullMachine.axes):
            return NullMachine
        Machine = NullMachine
    elif mode is not None:
        d['MODE_CLASS'] = type('OwnMode', (Mode,), {'default_mode': mode})
    return type('OwnMachine', (Machine,), d)


OWN_MODES = ['G1 G55 G18 G20 G91 G95 M3 M8 T1 F100 S50', 'G20 G90 G54\nG0 F10 (inches)', '', 'G0', 'G17 G91 G59.3', 'G20 G56 G99 G90.1',
             'G0 G43 H2 G41 D3 G96 D500 S20 G64 P0.1', 'G81 R2 G98 G21 G91', 'G19 G57 M4 M7']


def own_mode(rng):
    return rng.choice(OWN_MODES) if rng.random() < 0.25 else None


def model_machine(axes, mode=None):
    return model.Machine(axes) if mode is None else model.Machine(axes, default_mode=mode.split('\n'))


def deliver(machine, text, how='str'):
    """give a line of text to a real machine; exception (documented ones) or None"""
    from pygcode.line import Line
    try:
        if how == 'str':
            machine.process_str(text)
        elif how == 'block':
            machine.process_block(Line(text).block)
        else:
            block = Line(text).block
            machine.process_gcodes(*block.gcodes, modal_params=block.modal_params)
    except Exception as e:
        if not is_documented(e):
            raise Violation('undocumented-exception', '%r -> %s: %s' % (text, type(e).__name__, e))
        return e
    return None


def word_of(g):
    return plain(g.word.letter, g.word.value)


def plain(letter, v):
    try:
        return (letter, float(v))
    except ValueError:  # eg: the name of a program
        return (letter, v)


def model_deliver(m, text):
    """'ok', 'refused', or 'unsure' (then m is unchanged)"""
    t = m.clone()
    try:
        t.execute_text(text)
    except model.Refused:
        return 'refused'
    except model.Unsure:
        return 'unsure'
    m.__dict__.update(t.__dict__)
    return 'ok'


def set_offset(real, ref, n, values):
    observe.set_offset(real, n, values)
    ref.offsets[n].update(values)


def generate(rng, feats, n, axes='XYZ', damage=0.0, bad=0.0, lost=0.0, dup=0.0, snaps=0.0,
             offsets=0.0, setpos=0.0, swap=0.0, use=False, odd=False, direct=0.0, mode=None, crowd=0.0, fine=0.0, wide=0.0):
    """operations, with the model following along so that valid lines stay valid"""
    m = model_machine(axes, mode)
    ops = []
    names = []
    saved = {}
    last = None
    word = None
    count = 0
    pending = None
    for _ in range(n):
        c = rng.random()
        if c < damage:
            g = gen.Gen(rng, feats, axes, machine=m.clone())
            text = g.line()
            (text, kinds) = faults.damage(rng, text, odd)
            model_deliver(m, text)
            ops.append(['exec', text, kinds])
            last = text
            continue
        c -= damage
        if c < bad:
            (text, kind) = faults.bad_line(rng, m)
            ops.append(['exec', text, [kind]])
            last = text
            continue
        c -= bad
        if c < lost:
            g = gen.Gen(rng, feats, axes, machine=m.clone())
            ops.append(['lost', g.line(), ['link:lost']])
            continue
        c -= lost
        if c < dup and last is not None:
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < 0.85:
                    ops.append(['exec', last, ['link:repeated']])
                    model_deliver(m, last)
            continue
        c -= dup
        if c < snaps:
            if names and rng.random() < 0.55:
                name = rng.choice(names)
                kind = 'use' if (use and rng.random() < 0.4) else 'roll'
                ops.append([kind, name])
                m = saved[name].clone()
            else:
                count += 1
                name = 's%d' % count
                ops.append(['snap', name])
                saved[name] = m.clone()
                names.append(name)
            continue
        c -= snaps
        if c < offsets:
            vals = dict((a, rng.choice([0, 1, -2.5, 10, 0.125, rng.randint(-5000, 5000) / 1000.0]))
                        for a in rng.sample(m.axes, rng.randint(1, len(m.axes))))
            if rng.random() < 0.65:
                k = rng.choice([m.cs, m.cs, rng.randint(1, 9)])
                ops.append(['offset', k, vals])
                m.offsets[k].update(vals)
            else:
                ops.append(['temp', vals])
                m.temp.update(vals)
            continue
        c -= offsets
        if c < setpos:
            vals = dict((a, rng.randint(-5000, 5000) / 1000.0) for a in m.axes)
            ops.append(['pos', vals])
            m.set_work(dict(vals))
            continue
        c -= setpos
        if c < direct:
            op = direct_op(rng, m)
            ops.append(op)
            globals()['model_' + op[0]](m, *op[1:])
            continue
        c -= direct
        if c < crowd:
            last = crowded(rng, m, 2 + int(rng.random() * 5))
            ops.append(['exec', last])
            model_deliver(m, last)
            continue
        c -= crowd
        if c < wide:
            (last, word) = any_code(rng, m, word)
            ops.append(['exec', last])
            model_deliver(m, last)
            continue
        c -= wide
        g = gen.Gen(rng, feats, axes, machine=m.clone())
        g.fine = fine
        text = g.line()
        if c < swap and pending is None:
            pending = text      # arrives late
            continue
        m = g.m
        ops.append(['exec', text])
        last = text
        if pending is not None and rng.random() < 0.6:
            ops.append(['exec', pending, ['link:reordered']])
            model_deliver(m, pending)
            pending = None
    return ops


CROWD = ['N%d', 'G93', 'G94', 'G95', 'F%d', 'S%d', 'T%d', 'M62 P%d', 'M63 P%d', 'M64 P%d', 'M65 P%d', 'M66 P1 L0', 'M67', 'M68',
         'M6', 'M61 Q%d', 'M3', 'M4', 'M5', 'M19', 'G96 D%d', 'G97', 'M7', 'M8', 'M9', 'M48', 'M49', 'M50 P%d', 'M51 P%d', 'M52 P%d',
         'M53 P%d', 'G4 P%d', 'G17', 'G18', 'G19', 'G17.1', 'G20', 'G21', 'G40', 'G41 D%d', 'G42 D%d', 'G41.1 D%d L1', 'G43 H%d', 'G43.1', 'G43.2 H%d',
         'G49', 'G54', 'G56', 'G59.2', 'G61', 'G61.1', 'G64 P%d', 'G90', 'G91', 'G90.1', 'G91.1', 'G7', 'G8', 'G98', 'G99', 'G28', 'G30', 'G28.1',
         'G30.1', 'G10 L2 P%d', 'G92', 'G92.1', 'G92.2', 'G92.3', 'G53', 'G80', 'G0 X%d', 'G1 Y%d', 'G2 X%d R500', 'G3 X%d R500', 'G38.2 X%d',
         'G33 X%d K1', 'G5.1 I1 J1 X%d', 'G73 X%d Z-1 R2 Q1', 'G81 X%d Z-1 R2', 'G83 X%d Z-1 R2 Q2', 'G89 X%d Z-1 R2 P1', 'M0', 'M1', 'M2', 'M30', 'M60']


def any_code(rng, m, before=None):
    """(text, word) of any code there is, with any of its parameters; often of the same group as the one before"""
    words = sorted(model.CODES)
    if before is not None and rng.random() < 0.5:
        group = model.spec_of(before).group
        words = [w for w in words if model.spec_of(w).group == group]
    for _ in range(20):
        word = rng.choice(words)
        p = rng.choice([0, 0.2, 0.5])
        letters = [l for l in sorted(model.spec_of(word).params) if rng.random() < p]
        text = ' '.join(['%s%g' % word] + ['%s%d' % (l, rng.randint(1, 9)) for l in letters])
        try:
            m.clone().execute_text(text)
            return (text, word)
        except (model.Refused, model.Unsure):
            continue
    return ('G80', ('G', 80.0))


def crowded(rng, m, n):
    """a line of many commands, in any order, which is accepted"""
    for _ in range(40):
        text = ' '.join(t % rng.randint(1, 9) if '%' in t else t for t in rng.sample(CROWD, n))
        try:
            m.clone().execute_text(text)
            return text
        except (model.Refused, model.Unsure):
            n = max(2, n - (rng.random() < 0.3))
    return 'G80'


DIRECT = ['G1', 'G0', 'G81 R0.5', 'G83 R1 Q0.25', 'G82 R2 P0.5', 'G17', 'G18', 'G19', 'G90', 'G91', 'G98', 'G99', 'G54', 'G55',
          'G59.3', 'F300', 'S1000', 'T3', 'M3', 'M5', 'G43 H2', 'G64 P0.01', 'G41 D1', 'G96 D100 S5', 'G20', 'G21']


def direct_op(rng, m):
    c = rng.random()
    if c < 0.2:
        return ['at', dict((a, rng.randint(-50, 50) / 8.0) for a in rng.sample(m.axes, rng.randint(1, len(m.axes))))]
    if c < 0.3:
        return ['cs', rng.randint(1, 9)]
    if c < 0.36:
        return ['range', rng.random() < 0.3]
    kept = [(g, l) for g in model.GROUPS if m.mode[g] for l in sorted(m.mode[g][1])]
    if kept and c < 0.7:
        (g, l) = rng.choice(kept)
        return ['param', g, l, rng.randint(1, 99) if l in 'LNTDH' else rng.randint(1, 80) / 8.0]
    text = rng.choice(DIRECT)
    if rng.random() < 0.15:
        group = rng.choice(model.GROUPS)
        if rng.random() < 0.5 or group != model.parse(text).codes[0].spec.group:
            return ['badmode', group, text if group != model.parse(text).codes[0].spec.group else rng.choice(['word', 'text', 'number', 'G4 P1'])]
    if rng.random() < 0.15:
        return ['mode', rng.choice(model.GROUPS), '']
    return ['mode', model.parse(text).codes[0].spec.group, text]


def model_at(m, vals):
    m.abs.update(vals)


def model_range(m, in_place):
    m.lo = dict(m.abs)
    m.hi = dict(m.abs)


def model_cs(m, n):
    m.cs = n


def model_mode(m, group, text):
    if not text:
        m.mode[group] = None
    else:
        model_assign(m, model.parse(text).codes[0])


def model_badmode(m, group, what):
    pass


def model_assign(m, code):
    cs = m.cs
    m._set_mode(code)
    m.cs = cs


def model_param(m, group, letter, value):
    if m.mode[group] and letter in m.mode[group][1]:
        m.mode[group] = (m.mode[group][0], dict(m.mode[group][1], **{letter: value}))


class Runner(object):
    """Executes operations on both sides; subclasses look at what they care about"""
    keys = None     # state keys compared
    howto = ('str', 'block', 'gcodes')

    def __init__(self, ctx, axes='XYZ', mode=None):
        self.ctx = ctx
        self.axes = axes
        self.mode = mode
        self.real = machine_class(axes, mode)()
        self.ref = model_machine(axes, mode)
        if mode is not None:
            ctx.probe('own-mode')
        self.saved = {}
        self.n = 0

    def fail(self, kind, detail):
        raise Violation(kind, 'operation %d: %s' % (self.n, detail))

    def compare(self, what):
        real = observe.state(self.real)
        d = observe.diff(real, observe.model_state(self.ref), keys=self.keys)
        if d:
            self.fail('state', '%s: machine differs from model: %s' % (what, '; '.join(d)))
        return real

    def op_exec(self, text, kinds=()):
        for k in kinds:
            self.ctx.fault(k)
        verdict = model_deliver(self.ref, text)
        if verdict == 'unsure':
            self.ctx.probe('unsure')
            return
        e = deliver(self.real, text, self.howto[self.n % len(self.howto)])
        self.ctx.log('exec', repr(text), verdict, type(e).__name__)
        self.ctx.probe('line-' + verdict)
        if (e is None) != (verdict == 'ok'):
            self.fail('verdict', '%r: model %s, machine %s' % (text, verdict, 'accepts it' if e is None else 'raises %r' % e))

    def op_lost(self, text, kinds=()):
        self.ctx.fault('link:lost')

    def op_offset(self, n, vals):
        set_offset(self.real, self.ref, n, vals)

    def op_temp(self, vals):
        observe.set_offset(self.real, None, vals)
        self.ref.temp.update(vals)

    def op_pos(self, vals):
        self.real.pos = self.real.Position(**vals)
        self.ref.set_work(dict(vals))

    def op_at(self, vals):
        self.real.abs_pos.update(**vals)
        model_at(self.ref, vals)

    def op_range(self, in_place):
        for name in ('abs_range_min', 'abs_range_max'):
            if in_place:
                for a in self.axes:
                    setattr(getattr(self.real, name), a, getattr(self.real.abs_pos, a))
            else:
                setattr(self.real, name, copy(self.real.abs_pos))
        model_range(self.ref, in_place)

    def op_cs(self, n):
        self.real.state.cur_coord_sys = n
        model_cs(self.ref, n)

    def op_mode(self, group, text):
        from pygcode.line import Line
        setattr(self.real.mode, group, Line(text).block.gcodes[0] if text else None)
        model_mode(self.ref, group, text)

    def op_badmode(self, group, what):
        """something that is no code of that group: refused, and nothing changes"""
        from pygcode.line import Line
        from pygcode.words import Word
        value = {'word': Word('G', 1), 'text': 'G1', 'number': 1}.get(what) or Line(what).block.gcodes[0]
        self.ctx.fault('bad-mode')
        try:
            setattr(self.real.mode, group, value)
        except env.pygcode.exceptions.MachineInvalidState:
            return
        self.fail('verdict', 'mode.%s = %r is accepted' % (group, value))

    def op_param(self, group, letter, value):
        g = getattr(self.real.mode, group)
        if g is not None and letter in g.params:
            setattr(g, letter, value)
            self.ctx.probe('retained-edited')
        model_param(self.ref, group, letter, value)

    def op_snap(self, name):
        self.saved[name] = (copy(self.real), self.ref.clone())
        self.ctx.probe('snapshot')

    def op_roll(self, name):
        if name in self.saved:
            (r, m) = self.saved[name]
            self.real = copy(r)
            self.ref = m.clone()
            self.ctx.fault('rollback')

    def op_use(self, name):
        if name in self.saved:
            (r, m) = self.saved[name]
            self.saved['main'] = (self.real, self.ref)
            del self.saved[name]
            (self.real, self.ref) = (r, m)
            self.ctx.fault('switch-to-copy')

    def step(self, op):
        getattr(self, 'op_' + op[0])(*op[1:])

    def after(self, op):
        real = self.compare(op[0])
        self.ctx.log(self.n, observe.text_of_state(real))
        self.ctx.state(tuple(sorted((g, v[:2]) for (g, v) in real['modes'].items() if v)))
        return real

    def run(self, ops):
        for op in ops:
            self.n += 1
            self.ctx.step()
            self.step(op)
            self.after(op)
