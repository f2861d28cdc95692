"""C19 a position is one place: operations on positions are exact, and touch only what they're asked to"""
from copy import copy

from .. import interrupt, observe, history
from ..core import Violation

RUNS = {'quick': 2600, 'thorough': 150000}
RULE = ("one run = several clients, interleaved by the scheduler, working on a shared pool of positions (made directly, by "
        "machines, by copying and by arithmetic) in different units and with different axes: they assign coordinates and units, "
        "copy, add, subtract, scale, take minima and maxima, compare, write out, hand positions to machines that move, edit what "
        "they were handed, ask for axes that do not exist, and abandon operations at arbitrary instructions; after every "
        "operation every position of the pool and every machine is compared with a reference kept in millimeters and degrees; "
        "non-trivial: a unit changed or mixed, and an operand edited after it was used; distinct by scenario content")
REAL = ['pygcode.machine (Position, Machine)', 'pygcode.words']
STUB = ['clients and their schedule (simulated)', 'a dict of coordinates per position as reference']
MEASURE = 'distinct (operation, units of its operands, same axes or not, outcome) combinations'
ASSUMPTIONS = ["sums and differences of positions in different units may be anything (their operands must not change)",
               "min and max are only asked of positions whose first has no axes that the second lacks",
               "whether positions in different units are equal is only asked where they are clearly apart",
               "an interruption while a unit is being assigned may leave that one position anywhere; it is then discarded"]

AXES = ['XYZ', 'XYZ', 'XYZ', 'XYZABC', 'XYZUVW', 'XY', 'XYZA', 'XYZABCUVW']
ANGLES = 'ABC'
INCH = 25.4


def value(rng):
    return rng.choice([0, 0, 1, -1, 2.5, 25.4, -12.7, 1e-3, 1e-4, 99999.5, rng.randint(-50000, 50000) / 1000.0, rng.randint(-9, 9)])


def values(rng, axes, p=0.7):
    return dict((a, value(rng)) for a in axes if rng.random() < p)


def strike(rng):
    if rng.random() < 0.8:
        return None
    return [round(rng.random(), 4), rng.choice(['KeyboardInterrupt', 'MemoryError']), rng.random() < 0.5]


def generate(rng, tier, index):
    axes = rng.sample(AXES, rng.randint(1, 3))
    if rng.random() < 0.6:
        axes = axes[:1]
    names = ['p%d' % i for i in range(rng.randint(3, 6))]
    metric = rng.choice([0.5, 0.8, 1.0])
    unit = lambda: 'mm' if rng.random() < metric else 'in'
    ops = []
    for n in names[:rng.randint(2, len(names))]:
        a = rng.choice(axes)
        ops.append(['make', n, a, unit(), values(rng, a)])
    n = rng.randint(10, 30 if tier == 'quick' else 60)
    while len(ops) < n:
        (p, q, r) = (rng.choice(names), rng.choice(names), rng.choice(names))
        a = rng.choice(axes)
        c = rng.random()
        if c < 0.08:
            ops.append(['make', p, a, unit(), values(rng, a)])
        elif c < 0.16:
            ops.append(['copy', p, q])
        elif c < 0.26:
            ops.append(['set', p, rng.choice(a if rng.random() < 0.8 else 'XYZABCUVW'), value(rng), rng.random() < 0.3])
        elif c < 0.31:
            ops.append(['update', p, values(rng, a)])
        elif c < 0.43:
            ops.append(['unit', p, rng.choice(['mm', 'in'])])
        elif c < 0.53:
            ops.append(['add', p, q, r])
        elif c < 0.63:
            ops.append(['sub', p, q, r])
        elif c < 0.68:
            ops.append([rng.choice(['mul', 'div']), p, q, rng.choice([2, 0.5, -1, 10, 3, 0.1])])
        elif c < 0.77:
            ops.append([rng.choice(['min', 'max']), p, q, r])
        elif c < 0.80:
            ops.append(['equal', p, q])
        elif c < 0.84:
            # the same numbers in the other unit
            ops.append(['twin', p, q])
            ops[-1].append(strike(rng))
            ops.append(['equal', p, q])
        elif c < 0.90:
            ops.append(['read', p, rng.randrange(7)])
        elif c < 0.93:
            ops.append(['invalid', p, rng.randrange(4)])
        elif c < 0.96:
            ops.append(['give', 'm%d' % rng.randrange(2), p])
        elif c < 0.98:
            ops.append(['take', p, 'm%d' % rng.randrange(2), rng.randrange(2)])
        else:
            ops.append(['move', 'm%d' % rng.randrange(2), values(rng, 'XYZ')])
        ops[-1].append(strike(rng))
    for op in ops:
        if op[0] == 'make' and len(op) == 5:
            op.append(None)
    return {'ops': ops, 'axes': axes}


class Ref(object):
    """the place, in millimeters and degrees; shown in a unit"""
    def __init__(self, axes, unit, mm):
        self.axes = ''.join(sorted(axes))
        self.unit = unit
        self.mm = dict((a, float(mm.get(a, 0.0))) for a in self.axes)

    @classmethod
    def shown(cls, axes, unit, vals):
        return cls(axes, unit, dict((a, v * scale(a, unit)) for (a, v) in vals.items()))

    def show(self):
        return dict((a, v / scale(a, self.unit)) for (a, v) in self.mm.items())

    def clone(self):
        return Ref(self.axes, self.unit, self.mm)


def scale(a, unit):
    return 1.0 if unit == 'mm' or a in ANGLES else INCH


def near(a, b, size=1.0):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b), size)


class World(object):
    def __init__(self, ctx):
        from pygcode import machine
        self.lib = machine
        self.units = {'mm': machine.UNIT_METRIC, 'in': machine.UNIT_IMPERIAL}
        self.ctx = ctx
        self.real = {}
        self.ref = {}
        self.machines = {}
        self.used = set()       # positions that were operands
        self.size = 1.0         # of the largest coordinate yet, for rounding
        self.n = 0

    def fail(self, kind, detail):
        raise Violation(kind, 'operation %d: %s' % (self.n, detail))

    # ---- comparing
    @observe.observing
    def look(self, p):
        unit = [u for (u, v) in self.units.items() if v == p.unit]
        return (''.join(sorted(p.axes)), unit[0] if unit else p.unit, dict((a, getattr(p, a)) for a in sorted(p.axes)), p.values)

    def differs(self, p, ref):
        (axes, unit, coords, vals) = self.look(p)
        if axes != ref.axes:
            return 'axes are %s instead of %s' % (axes, ref.axes)
        if unit != ref.unit:
            return 'unit is %s instead of %s' % (unit, ref.unit)
        want = ref.show()
        for a in axes:
            if not near(coords[a], want[a], self.size):
                return '%s is %r instead of %r %s' % (a, coords[a], want[a], unit)
        if vals != coords:
            return 'values are %r, but coordinates %r' % (vals, coords)
        return None

    def compare(self, what):
        for k in sorted(self.real):
            d = self.differs(self.real[k], self.ref[k])
            if d:
                self.fail('position', 'after %s: position %s: %s' % (what, k, d))
        for k in sorted(self.machines):
            (m, ref) = self.machines[k]
            d = self.differs(m.pos, ref)
            if d:
                self.fail('machine', 'after %s: machine %s: %s' % (what, k, d))

    # ---- doing
    def attempt(self, func, struck):
        """(result, abandoned?)"""
        if struck is None:
            return (func(), False)
        (fraction, kind, opcodes) = struck
        (abandoned, hit, result) = interrupt.strike(func, fraction, kind, opcodes, self.ctx)
        return (result, abandoned)

    def attempt_mixed(self, func):
        try:
            func()
        except (self.lib.MachineInvalidAxis, AttributeError):
            pass

    def note(self, op, *names):
        refs = [self.ref[n] for n in names]
        if len(set(r.unit for r in refs)) > 1:
            self.ctx.probe('units-mixed')
            self.ctx.fault('units-mixed')
        self.ctx.state(op, [r.unit for r in refs], len(set(r.axes for r in refs)))
        self.used.update(names)

    def keep(self, name, p, ref):
        for (k, q) in self.real.items():
            if q is p:
                self.fail('shared', 'the result is the same object as position %s' % k)
        self.real[name] = p
        self.ref[name] = ref
        self.used.discard(name)

    def edited(self, p):
        if p in self.used:
            self.ctx.probe('operand-edited')
            self.ctx.fault('operand-edited')

    def has(self, *names):
        return all(n in self.real for n in names)

    def refused(self, func, errors, what):
        try:
            func()
        except errors:
            self.ctx.fault('refused')
            return
        self.fail('accepted', '%s was not refused' % what)

    def op_make(self, p, axes, unit, vals, struck):
        # (by name of the unit, or left out where it's the default)
        kw = dict(vals) if unit == 'mm' and len(vals) % 2 else dict(vals, unit=self.units[unit])
        (r, abandoned) = self.attempt(lambda: self.lib.Position(axes=axes, **kw), struck)
        if not abandoned:
            self.keep(p, r, Ref.shown(axes, unit, vals))

    def op_copy(self, p, q, struck):
        if self.has(q):
            self.note('copy', q)
            (r, abandoned) = self.attempt(lambda: copy(self.real[q]), struck)
            if not abandoned:
                if r != self.real[q] or not r == self.real[q]:
                    self.fail('equality', 'a copy of %s does not equal it' % q)
                self.keep(p, r, self.ref[q].clone())

    def op_set(self, p, a, v, read, struck):
        if not self.has(p):
            return
        (r, ref) = (self.real[p], self.ref[p])
        if a not in ref.axes:
            errors = self.lib.MachineInvalidAxis
            if read:
                self.refused(lambda: getattr(r, a), AttributeError, 'reading %s of %s' % (a, p))
            else:
                self.refused(lambda: setattr(r, a, v), errors, 'setting %s of %s' % (a, p))
            return
        (_, abandoned) = self.attempt(lambda: setattr(r, a, v), struck)
        self.edited(p)
        new = v * scale(a, ref.unit)
        if not abandoned or self.closer(r, a, v, ref):
            ref.mm[a] = new

    def closer(self, r, a, v, ref):
        """abandoned: is it to be taken for v, or for what it was?"""
        return abs(getattr(r, a) - v) < abs(getattr(r, a) - ref.show()[a])

    def op_update(self, p, vals, struck):
        if not self.has(p):
            return
        (r, ref) = (self.real[p], self.ref[p])
        vals = dict((a, v) for (a, v) in vals.items() if a in ref.axes)
        (_, abandoned) = self.attempt(lambda: r.update(**vals), struck)
        self.edited(p)
        for (a, v) in vals.items():
            if not abandoned or self.closer(r, a, v, ref):
                ref.mm[a] = v * scale(a, ref.unit)

    def op_unit(self, p, unit, struck):
        if not self.has(p):
            return
        r = self.real[p]
        self.note('unit', p)

        def assign():
            r.unit = self.units[unit]
        (_, abandoned) = self.attempt(assign, struck)
        self.edited(p)
        if abandoned:
            del self.real[p], self.ref[p]
            return
        if self.ref[p].unit != unit:
            self.ctx.probe('unit-changed')
            self.ctx.fault('unit-changed')
        self.ref[p].unit = unit

    def op_add(self, p, q, r, struck):
        if not self.has(q, r):
            return
        (a, b) = (self.ref[q], self.ref[r])
        self.note('add', q, r)
        if a.unit != b.unit:
            # (what a sum then is, is not specified: machines keep offsets without a unit of their own)
            self.attempt(lambda: self.attempt_mixed(lambda: self.real[q] + self.real[r]), struck)
            return
        if set(a.axes) != set(b.axes):
            self.refused(lambda: self.real[q] + self.real[r], self.lib.MachineInvalidAxis, 'adding %s to %s' % (b.axes, a.axes))
            return
        (x, abandoned) = self.attempt(lambda: self.real[q] + self.real[r], struck)
        if not abandoned:
            self.keep(p, x, Ref(a.axes, a.unit, dict((k, a.mm[k] + b.mm[k]) for k in a.axes)))

    def op_sub(self, p, q, r, struck):
        if not self.has(q, r):
            return
        (a, b) = (self.ref[q], self.ref[r])
        self.note('sub', q, r)
        if a.unit != b.unit:
            self.attempt(lambda: self.attempt_mixed(lambda: self.real[q] - self.real[r]), struck)
            return
        if set(b.axes) - set(a.axes):
            self.refused(lambda: self.real[q] - self.real[r], self.lib.MachineInvalidAxis, '%s minus %s' % (a.axes, b.axes))
            return
        (x, abandoned) = self.attempt(lambda: self.real[q] - self.real[r], struck)
        if not abandoned:
            self.keep(p, x, Ref(a.axes, a.unit, dict((k, a.mm[k] - b.mm.get(k, 0.0)) for k in a.axes)))

    def op_mul(self, p, q, v, struck):
        if not self.has(q):
            return
        a = self.ref[q]
        self.note('mul', q)
        (x, abandoned) = self.attempt(lambda: self.real[q] * v, struck)
        if not abandoned:
            self.keep(p, x, Ref(a.axes, a.unit, dict((k, u * v) for (k, u) in a.mm.items())))

    def op_div(self, p, q, v, struck):
        if not self.has(q):
            return
        a = self.ref[q]
        self.note('div', q)
        (x, abandoned) = self.attempt(lambda: self.real[q] / v, struck)
        if not abandoned:
            self.keep(p, x, Ref(a.axes, a.unit, dict((k, u / v) for (k, u) in a.mm.items())))

    def extreme(self, name, func, p, q, r, struck):
        if not self.has(q, r):
            return
        (a, b) = (self.ref[q], self.ref[r])
        if set(a.axes) - set(b.axes):
            return
        self.note(name, q, r)
        cls = type(self.real[q])
        (x, abandoned) = self.attempt(lambda: getattr(cls, name)(self.real[q], self.real[r]), struck)
        if not abandoned:
            self.keep(p, x, Ref(a.axes, a.unit, dict((k, func(a.mm[k], b.mm[k])) for k in a.axes)))

    def op_min(self, p, q, r, struck):
        self.extreme('min', min, p, q, r, struck)

    def op_max(self, p, q, r, struck):
        self.extreme('max', max, p, q, r, struck)

    def op_twin(self, p, q, struck):
        if not self.has(q) or p == q:
            return
        unit = 'in' if self.ref[q].unit == 'mm' else 'mm'
        vals = self.look(self.real[q])[2]
        if max([abs(v) for v in vals.values()] or [0]) < 1e6:
            self.op_make(p, self.ref[q].axes, unit, vals, struck)

    def op_equal(self, p, q, struck):
        if not self.has(p, q):
            return
        (a, b) = (self.ref[p], self.ref[q])
        self.note('equal', p, q)
        (got, abandoned) = self.attempt(lambda: self.real[p] == self.real[q], struck)
        if abandoned:
            return
        if bool(got) == bool(self.real[p] != self.real[q]):
            self.fail('equality', '%s and %s are both equal and not, or neither' % (p, q))
        back = self.real[q] == self.real[p]
        if a.axes != b.axes or any(not near(a.mm[k], b.mm[k], 1e3 * self.size) for k in a.axes):
            if got or back:
                self.fail('equality', '%s equals %s: %r, %r' % (p, q, self.look(self.real[p]), self.look(self.real[q])))
        elif self.look(self.real[p])[2] == self.look(self.real[q])[2] and (
                a.unit == b.unit or not any(v for (k, v) in a.mm.items() if k not in ANGLES)):
            # (the origin is one place in any unit)
            if not (got and back):
                self.fail('equality', '%s does not equal %s: %r, %r' % (p, q, self.look(self.real[p]), self.look(self.real[q])))

    def op_read(self, p, how, struck):
        """what it hands out is right, and the caller's"""
        if not self.has(p):
            return
        r = self.real[p]
        want = self.ref[p].show()
        self.note('read%d' % how, p)
        if how in (0, 1):
            ws = r.words
            got = [(w.letter, w.value) for w in ws]
            if [l for (l, v) in got] != sorted(want) or any(not near(v, want[l], self.size) for (l, v) in got):
                self.fail('words', 'words of %s: %s instead of %s' % (p, got, want))
            for w in ws:
                w.value = 77
            del ws[:]
        elif how == 2:
            v = r.values
            for k in list(v):
                v[k] = 88
            v.clear()
        elif how == 3 and set('XYZ') <= set(want):
            v = r.vector
            if any(not near(c, want[k], self.size) for (c, k) in zip((v.x, v.y, v.z), 'XYZ')):
                self.fail('vector', 'vector of %s: %s instead of %s' % (p, v, want))
            v.x = 99
        elif how == 4:
            text = repr(r)
            for (k, v) in want.items():
                at = [w for w in text.strip('<>').split() if w[0] == k and w != 'Position:']
                if len(at) != 1 or abs(float(at[0][1:]) - v) > 0.00051 + 1e-9 * abs(v):
                    self.fail('repr', '%s is %s, written %s' % (p, want, text))
        elif how == 5:
            ax = r.axes
            if set(ax) != set(want):
                self.fail('axes', 'axes of %s: %s' % (p, ax))
        elif how == 6:
            q = copy(r) if len(want) % 2 else r * 2
            if isinstance(q.axes, set):
                q.axes.clear()
        self.ctx.fault('edit-result')

    def op_invalid(self, p, how, struck):
        errors = (self.lib.MachineInvalidAxis, AttributeError)
        if how == 0:
            self.refused(lambda: self.lib.Position(axes='XYQ'), errors, "axis Q")
        elif self.has(p):
            r = self.real[p]
            if how == 1:
                self.refused(lambda: r.nonsense, errors, "attribute 'nonsense'")
            elif how == 2:
                self.refused(lambda: r.Q, errors, 'axis Q')
            else:
                absent = sorted(set('XYZABCUVW') - set(self.ref[p].axes))
                if absent:
                    self.refused(lambda: r.update(**{absent[0]: 1}), errors, 'updating %s' % absent[0])

    # ---- machines
    def machine(self, name):
        if name not in self.machines:
            m = history.machine_class(self.axes)()
            self.machines[name] = [m, Ref(self.axes, 'mm', {})]
        return self.machines[name]

    def op_give(self, name, p, struck):
        if not self.has(p):
            return
        entry = self.machine(name)
        ref = self.ref[p]
        if ref.axes != ''.join(sorted(self.axes)) or ref.unit != 'mm':
            return
        self.note('give', p)
        entry[0].pos = self.real[p]
        entry[1] = ref.clone()

    def op_take(self, p, name, how, struck):
        (m, ref) = self.machine(name)
        self.keep(p, m.pos if how == 0 else m.abs2work(m.abs_pos), ref.clone())
        self.used.add(p)

    def op_move(self, name, vals, struck):
        (m, ref) = self.machine(name)
        vals = dict((a, round(v, 3)) for (a, v) in vals.items() if a in self.axes)
        if not vals:
            return
        m.process_str('G1 ' + ' '.join('%s%.3f' % x for x in sorted(vals.items())))
        ref.mm.update(vals)

    def run(self, scenario):
        self.axes = scenario['axes'][0]
        for op in scenario['ops']:
            self.n += 1
            self.ctx.step()
            getattr(self, 'op_' + op[0])(*op[1:])
            for ref in list(self.ref.values()) + [m[1] for m in self.machines.values()]:
                self.size = max([self.size] + [abs(v) for v in ref.mm.values()])
            # (what grew without bounds says nothing)
            for k in [k for (k, ref) in self.ref.items() if any(abs(v) > 1e6 for v in ref.mm.values())]:
                del self.real[k], self.ref[k]
            self.compare(op)
            self.ctx.log(self.n, op[0], [(k, sorted((a, round(v, 6)) for (a, v) in self.look(self.real[k])[2].items())) for k in sorted(self.real)])


def execute(scenario, ctx):
    World(ctx).run(scenario)
    ctx.nontrivial = bool(ctx.probes['unit-changed'] or ctx.probes['units-mixed']) and bool(ctx.probes['operand-edited'])
