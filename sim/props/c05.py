"""C05 an interrupted call harms nothing but the machine it was working on"""
from copy import copy

from .. import core, gen, history, interrupt, model, observe, tasks
from ..core import Violation

RUNS = {'quick': 420, 'thorough': 20000}
RULE = ("one run = 1-3 machines executing programs in turn in a process that may never have used the library, with calls "
        "(execute, parse, copy, make a machine, linearise, expand, split) abandoned by an exception raised before any "
        "line or bytecode of library code, up to 3 times in a row, then retried, or at 4-8 places each in a copy of the process; after every operation every machine, "
        "snapshot and parsed line is compared with its own model; non-trivial: at least one call abandoned midway and "
        "retried; distinct by scenario content")
REAL = ['pygcode (whole library)']
STUB = ['asynchronous exceptions (injected by the simulator)', 'reference model (sim/model.py) as oracle']
MEASURE = 'distinct (function, line, bytecode) at which a call was abandoned'
STEP = 'library lines or bytecodes executed under injection'
ASSUMPTIONS = ['exceptions strike in library code only, not inside the standard library or C code',
               'blocks whose parameters are given without a command do not carry a motion command or G80 as well']


def generate(rng, tier, index):
    cold = rng.random() < 0.3
    nm = rng.choice([1, 2, 2, 3])
    feats = gen.swarm(rng, always=['modal'] if rng.random() < 0.5 else [], never=[] if rng.random() < 0.4 else ['inc'])
    gens = [gen.Gen(rng, feats, 'XYZ') for _ in range(nm)]
    ops = []
    pool = []
    for _ in range(rng.randint(0, 3)):
        pool.append(gen.Gen(rng, feats, 'XYZ').line())
    for _ in range(rng.randint(5, 12 if tier == 'quick' else 30)):
        i = rng.randrange(nm)
        c = rng.random()
        if c < 0.5:
            if rng.random() < 0.5:
                ops.append(['exec', i, gens[i].line(), strikes(rng)])
            else:
                ops.append(['exec', i, gens[i].line(), []])
        elif c < 0.58:
            ops.append(['parse', gen.Gen(rng, feats, 'XYZ').line() if rng.random() < 0.8 else rng.choice(tasks.BAD), strikes(rng)])
        elif c < 0.66:
            ops.append(['copy', i, strikes(rng)])
        elif c < 0.72:
            ops.append(kind_of_machine(rng) + [strikes(rng)])
        elif c < 0.78 and pool:
            ops.append(['shared', i, rng.randrange(len(pool)), strikes(rng)])
        elif c < 0.84:
            a = rng.choice([1, 2, 5])
            vals = dict((x, rng.randint(-3000, 3000) / 1000.0) for x in 'XYZ')
            ops.append(['offset', i, a, vals])
            gens[i].m.offsets[a].update(vals)
        else:
            ops.append(['task', tasks.random_task(rng, gen.Gen(rng, feats, 'XYZ'), tier), strikes(rng)])
    if rng.random() < 0.4:
        sweeps(rng, tier, feats, gens, ops)
    if cold:
        # the very first use of the library
        text = rng.choice(BUSY + CYCLES) if rng.random() < 0.5 else gen.Gen(rng, feats, 'XYZ').line()
        first = rng.choice([['parse', text], ['parse', text], ['exec', rng.randrange(nm), text], ['new'],
                            ['task', tasks.random_task(rng, gen.Gen(rng, feats, 'XYZ'), tier)]])
        if first[0] == 'task' or rng.random() < 0.3:
            ops.insert(0, first + [strikes(rng, True)])
        else:
            ops.insert(0, ['sweep', first, places(rng, tier)])
    return {'machines': nm, 'cold': cold, 'pool': pool, 'ops': ops}


CYCLES = ['G81 X1 Y1 Z-1 R2', 'G82 X1 Z-2 R0.5 P1 L2', 'G83 X-1 Y2 Z-1.5 R1 Q0.5', 'G73 Y3 Z-1 R-0.5 Q1 L3', 'X2 Y-1', 'X1 L2', 'Y2']
BUSY = ['G1 X1 Y1 F100', 'G2 X1 Y1 I1 J0', 'G91 G0 X1', 'G90 G1 X2', 'M3 S100 G0 Z1', 'G20 G17 G54 G1 X1', 'X3 Y2', 'G54', 'G55 G0 X1', 'G80',
        'G99', 'G98', 'G18 G1 Z1', 'G0 Z5', 'M5 M9', 'F50', 'G28', 'G92 X1', 'M2', 'G53 G0 X1']


def kind_of_machine(rng):
    return ['new'] + ([rng.choice(['XYZ', 'XYZA', 'XYZUVW']), history.own_mode(rng)] if rng.random() < 0.6 else [])


def places(rng, tier):
    opcodes = rng.random() < 0.2
    return [['sweep', round(rng.random(), 4), rng.choice(['KeyboardInterrupt', 'MemoryError']), opcodes,
             rng.choice(['function', 'function', 'first', 'last'])] for _ in range(rng.randint(4, 8 if tier == 'quick' else 24))]


def sweeps(rng, tier, feats, gens, ops):
    """some operations are abandoned everywhere, each time in a copy of the process"""
    for _ in range(rng.choice([1, 1, 2])):
        where = places(rng, tier)
        i = rng.randrange(len(gens))
        j = rng.randrange(len(ops) + 1)
        c = rng.random()
        if c < 0.4:
            # drilling
            more = [['exec', i, rng.choice(['G91', 'G90', 'G91 G99', 'G90 G98', 'G91 G98', 'G0 Z1']), []],
                    ['exec', i, rng.choice(CYCLES[:4]), []]]
            more.insert(rng.choice([1, 2]), ['sweep', ['ready', i, rng.choice(CYCLES)], where])
        elif c < 0.7:
            more = [['exec', i, rng.choice(BUSY), []], ['sweep', ['ready', i, rng.choice(BUSY)], where]]
        elif c < 0.8:
            more = [['sweep', ['exec', i, rng.choice(BUSY + CYCLES)], where]]
        elif c < 0.9:
            more = [['sweep', ['parse', rng.choice(BUSY + CYCLES)], where]]
        else:
            more = [['sweep', ['copy', i] if rng.random() < 0.5 else kind_of_machine(rng), where]]
        ops[j:j] = more


def strikes(rng, first=False):
    """[where, what, at a bytecode?, how the place is chosen]"""
    n = rng.choice([1, 1, 1, 2, 3])
    out = []
    for _ in range(n):
        by = rng.choice(['first', 'first', 'event'] if first else ['first', 'last', 'event'])
        out.append([round(rng.random() ** (rng.choice([1, 1, 3]) if by == 'event' else 1), 4),
                    rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError']), rng.random() < 0.4, by])
    return out


class World(object):
    def __init__(self, scenario, ctx):
        self.ctx = ctx
        self.scenario = scenario
        self.n = 0
        self.machines = None
        self.snaps = []
        self.struck = 0
        self.pristine = core.Pristine(tasks.perform) if any(x[0] == 'task' for x in scenario['ops']) else None

    def ensure(self):
        """machines and parsed lines are only made when they are first needed"""
        if self.machines is None:
            from pygcode.line import Line
            self.machines = [(history.machine_class('XYZ')(), model.Machine('XYZ')) for _ in range(self.scenario['machines'])]
            self.pool = [Line(x) for x in self.scenario['pool']]
            self.texts = [tasks.fingerprint(x) for x in self.pool]

    def fail(self, kind, detail):
        raise Violation(kind, 'operation %d: %s' % (self.n, detail))

    def strike(self, func, strikes, check=None):
        """call func, abandoned as often as told, then in full: its result"""
        for (f, kind, opcodes, by) in strikes:
            (raised, struck, result) = interrupt.strike(func, f, kind, opcodes, self.ctx, by)
            self.struck += struck
            if not raised:
                return result       # (the exception had no effect)
            if check:
                check()
        return func()

    def compare(self, what):
        if observe.fresh() != observe.FRESH:
            self.fail('position', 'after %s: a position made without axes or unit is %s' % (what, observe.fresh()))
        if self.machines is None:
            return
        for (i, (r, m)) in enumerate(self.machines):
            d = observe.diff(observe.state(r), observe.model_state(m))
            if d:
                self.fail('machine', 'after %s: machine %d differs from its model: %s' % (what, i, '; '.join(d)))
        for (r, m) in self.snaps:
            d = observe.diff(observe.state(r), observe.model_state(m))
            if d:
                self.fail('snapshot', 'after %s: a snapshot changed: %s' % (what, '; '.join(d)))
        for (x, t) in zip(self.pool, self.texts):
            if tasks.fingerprint(x) != t:
                self.fail('parsed-line', 'after %s: parsed line changed: %s -> %s' % (what, t, tasks.fingerprint(x)))

    def op_exec(self, i, text, strikes, block=None):
        self.ensure()
        i %= len(self.machines)
        (real, ref) = self.machines[i]
        after = ref.clone()
        trace = []
        try:
            parsed = model.parse(text)
            after.execute(parsed, trace)
            ok = True
        except model.Unsure:
            return
        except model.Refused:
            ok = False
        if ok and strikes:
            if ref.incremental and after.incremental or after.incremental:
                strikes = strikes[:1]
            own = any(c.spec.group == 'motion' or c.word == ('G', 80.0) for c in parsed.codes)
            if parsed.left and own:
                strikes = []
        old = observe.state(real)
        allowed = allow(ref, after, trace) if ok else None
        interrupted = [False]

        def check():
            interrupted[0] = True
            self.check_interrupted(real, ref, after, allowed, text)
            saved = self.machines
            self.machines = [x for (k, x) in enumerate(saved) if k != i]
            self.compare('interrupted %r' % text)
            self.machines = saved

        def deliver():
            if block is not None:
                return real.process_block(block)
            return real.process_str(text)

        try:
            if ok and strikes and after.incremental and strikes[0][3] != 'rehearse':
                # no retry in incremental mode: the machine is given up
                (raised, struck, _) = interrupt.strike(deliver, *strikes[0][:3], self.ctx, strikes[0][3])
                self.struck += struck
                if raised:
                    check()
                    self.machines[i] = (history.machine_class('XYZ')(), model.Machine('XYZ'))
                    self.ctx.probe('machine-given-up')
                    return
            elif ok:
                self.strike(deliver, strikes, check)
            else:
                for (f, kind, opcodes, by) in strikes:
                    (raised, struck, _) = interrupt.strike(deliver, f, kind, opcodes, self.ctx, by)
                    if observe.text_of_state(observe.state(real)) != observe.text_of_state(old):
                        self.fail('refused-interrupted', '%r (invalid), interrupted, changed the machine' % text)
                deliver()
        except Violation:
            raise
        except Exception as e:
            if not history.is_documented(e):
                self.fail('undocumented-exception', '%r -> %s: %s' % (text, type(e).__name__, e))
            if ok:
                self.fail('verdict', '%r refused%s: %r' % (text, ' after an interruption' if interrupted[0] else '', e))
            return
        if not ok:
            self.fail('verdict', '%r accepted' % text)
        if interrupted[0]:
            self.ctx.probe('retried')
        self.machines[i] = (real, after)

    def check_interrupted(self, real, ref, after, allowed, text):
        got = observe.state(real)
        (modes, coords, cs) = allowed
        for (g, v) in got['modes'].items():
            if v not in modes[g]:
                self.fail('mode', '%r interrupted: %s is %s, neither one of %s' % (text, g, v, modes[g]))
        for a in ref.axes:
            for (key, vals) in (('abs', coords[a]), ('lo', coords[a] + [ref.lo[a]]), ('hi', coords[a] + [ref.hi[a]])):
                if not any(model.close(got[key][a], v) for v in vals):
                    self.fail('coordinate', '%r interrupted: %s %s%.9g, none of %s' % (text, key, a, got[key][a], vals))
        if got['cs'] not in cs:
            self.fail('mode', '%r interrupted: coordinate system %s' % (text, got['cs']))
        d = observe.diff(got, observe.model_state(ref), keys=['offsets', 'temp'])
        if d:
            self.fail('offset', '%r interrupted: %s' % (text, d))

    def op_ready(self, i, text, strikes):
        """execute a line parsed beforehand: only its execution is abandoned"""
        from pygcode.line import Line
        try:
            line = Line(text)
            model.parse(text)
        except (model.Refused, model.Unsure):
            return
        self.op_exec(i, text, strikes, line.block)

    def op_sweep(self, op, where):
        """abandon an operation at several places, each time in a copy of this process; then perform it"""
        n = self.n

        def rehearse():
            try:
                getattr(self, 'op_' + op[0])(*(op[1:] + [[[0, 'KeyboardInterrupt', where[0][3], 'rehearse']]]))
            except interrupt.Rehearsed as e:
                return e.rehearsed
            return None
        rehearsed = core.finished(core.forked(rehearse, core.RUN_WALL)) if where else None
        if isinstance(rehearsed, list):
            for (_, fraction, kind, opcodes, by) in where:
                at = interrupt.choose(rehearsed, fraction, by)

                def abandoned():
                    quiet = self.ctx = core.Ctx()
                    try:
                        getattr(self, 'op_' + op[0])(*(op[1:] + [[[at, kind, where[0][3], 'at']]]))
                        self.compare('%s interrupted' % op[0])
                        if quiet.faults:
                            for x in self.scenario['ops'][n:n + 3]:
                                if x[0] in ('exec', 'parse', 'copy', 'new', 'shared'):
                                    self.n += 1
                                    getattr(self, 'op_' + x[0])(*(x[1:-1] + [[]]))
                                    self.compare(x[0])
                            self.op_new([])
                    except Violation as e:
                        return {'kind': e.kind, 'detail': e.detail + ' (struck: %s)' % (quiet.extra.get('struck'),)}
                    except observe.Odd as e:
                        return {'kind': 'odd-object', 'detail': str(e)}
                    except (Exception, KeyboardInterrupt, core.HarnessError, core.Deadlock) as e:
                        return core.verdict(e)
                    return {'faults': sorted(quiet.faults.items()), 'states': sorted(quiet.states), 'steps': quiet.steps}
                got = core.finished(core.forked(abandoned, core.RUN_WALL))
                if not isinstance(got, dict) or got.get('status') == 'harness':
                    raise core.HarnessError('interrupted copy failed: %r' % (got,))
                if 'kind' in got:
                    raise Violation(got['kind'], got['detail'])
                self.ctx.states.update(got['states'])
                self.ctx.step(got['steps'])
                self.ctx.log(at, got)
                for (k, v) in got['faults']:
                    self.ctx.fault(k, v)
                    self.struck += v
            self.ctx.probe('swept-' + op[0])
        getattr(self, 'op_' + op[0])(*(op[1:] + [[]]))

    def op_shared(self, i, k, strikes):
        self.ensure()
        if not self.pool:
            return
        k %= len(self.pool)
        self.op_exec(i, self.scenario['pool'][k], strikes, self.pool[k].block)

    def op_parse(self, text, strikes):
        from pygcode.line import Line
        try:
            (codes, ok) = (model.parse(text), True)
        except model.Unsure:
            return
        except model.Refused:
            ok = False
        try:
            line = self.strike(lambda: Line(text), strikes)
        except Violation:
            raise
        except Exception as e:
            if not history.is_documented(e):
                self.fail('undocumented-exception', 'parsing %r -> %s: %s' % (text, type(e).__name__, e))
            if ok:
                self.fail('verdict', 'parsing %r refused: %r' % (text, e))
            return
        if not ok:
            self.fail('verdict', 'parsing %r accepted' % text)
        got = sorted(observe.code_key(g) for g in line.block.gcodes)
        want = sorted(code_key(c) for c in codes.codes)
        left = [observe.word_key(w) for w in line.block.modal_params]
        if got != want or left != [(l, v if l == 'O' else model.num(v)) for (l, v) in codes.left]:
            self.fail('parsed', '%r read as %s %s instead of %s %s' % (text, got, left, want, codes.left))

    def op_copy(self, i, strikes):
        self.ensure()
        i %= len(self.machines)
        (real, ref) = self.machines[i]

        def check():
            self.compare('interrupted copy')
        c = self.strike(lambda: copy(real), strikes, check)
        self.snaps.append((c, ref.clone()))
        self.snaps = self.snaps[-3:]

    def op_new(self, *args):
        (axes, mode) = args[:-1] or ('XYZ', None)
        strikes = args[-1]
        cls = history.machine_class(axes, mode)
        m = self.strike(cls, strikes, lambda: self.compare('interrupted construction'))
        d = observe.diff(observe.state(m), observe.model_state(history.model_machine(axes, mode)))
        if d:
            self.fail('new-machine', 'a new machine is not in its default state: %s' % '; '.join(d))
        if self.machines is None:
            self.ensure()

    def op_offset(self, i, n, vals):
        self.ensure()
        (real, ref) = self.machines[i % len(self.machines)]
        history.set_offset(real, ref, n, vals)

    def op_task(self, task, strikes):
        want = self.pristine.ask(task)
        for (f, kind, opcodes, by) in strikes:
            try:
                (raised, struck, _) = interrupt.strike(lambda: tasks.raw(task), f, kind, opcodes, self.ctx, by)
                self.struck += struck
            except Exception:
                pass    # its own failure (compared below)
            self.compare('interrupted task %s' % task[0])
        got = tasks.perform(task)
        if got != want:
            self.fail('task', '%s: after interruptions\n  %s\ninstead of\n  %s' % (task, str(got)[:600], str(want)[:600]))

    def run(self):
        if not self.scenario['cold']:
            self.ensure()
        for op in self.scenario['ops']:
            self.n += 1
            before = self.struck
            getattr(self, 'op_' + op[0])(*op[1:])
            self.compare(op[0])
            if self.struck != before:
                self.ctx.nontrivial = True
            if self.machines:
                self.ctx.log(self.n, [observe.text_of_state(observe.state(r)) for (r, m) in self.machines])


def allow(ref, after, trace):
    """what an interrupted machine's modes and coordinates may be"""
    modes = dict((g, [v]) for (g, v) in ref.modes().items())
    coords = dict((a, [ref.abs[a]]) for a in ref.axes)
    cs = [ref.cs]
    walk = ref.clone()
    for x in trace:
        if x[0] == 'step':
            for a in ref.axes:
                coords[a].append(x[1][a])
        else:
            walk.execute_code(x[1])
            for (g, v) in walk.modes().items():
                if v not in modes[g]:
                    modes[g].append(v)
            for a in ref.axes:
                coords[a].append(walk.abs[a])
            cs.append(walk.cs)
    for (g, v) in after.modes().items():
        if v not in modes[g]:
            modes[g].append(v)
    return (modes, coords, cs)


def code_key(c):
    (letter, value) = c.word
    return (letter, value if letter == 'O' else model.num(value), tuple(sorted((k, model.num(v)) for (k, v) in c.params.items())))


def execute(scenario, ctx):
    if scenario['machines'] < 1:
        return
    World(scenario, ctx).run()
