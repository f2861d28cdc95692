"""
Pieces of library use, as one caller would make them; the result of each is a list
of texts.  Used where results are compared between schedules, processes, histories.

  ['run', [line, ...], axes]    execute lines on an own machine (axes: XYZ), state after each
  ['shared', [i, ...]]          execute lines that are already parsed (given objects)
  ['arc', line, args]           linearise an arc
  ['fresh', [[line, modes, start, args], ...]]
                                linearise arcs one after the other, from modes made for each of them
  ['drill', line, args]         expand a canned cycle
  ['text', line]                words, codes, text of a line
  ['split', line]               split a line's codes around its motions
  ['clean', [line, ...], bool]  remove unassignable parameters, execute
  ['copy', [line, ...]]         execute on a copy, compare with the original
  ['own', number, [line, ...]]  define an own code (M<number>, by inheritance), execute lines with it
"""
from copy import copy

from . import observe, history


def failure(e):
    return '%s: %s' % (type(e).__name__, e)


def perform(task, shared=()):
    out = []
    try:
        for text in globals()['do_' + task[0]](task, shared):
            out.append(text)
    except observe.Odd as e:
        out.append('odd object: %s' % e)
    except Exception as e:
        out.append(failure(e))
    return out


@observe.observing
def fingerprint(line):
    b = line.block
    return repr((str(line), [str(w) for w in b.words], [str(g) for g in b.gcodes], [str(w) for w in b.modal_params],
                 [observe.code_key(g) for g in b.gcodes]))


def raw(task, shared=()):
    """perform, without catching anything"""
    return list(globals()['do_' + task[0]](task, shared))


@observe.observing
def shown(m):
    """a machine's parts as text"""
    p = m.Position()
    return ' | %r %r %r %s %s %r %r %r %s %s %s' % (
        m.pos, m.state, m.mode, m.mode, ' '.join(str(w) for w in m.abs_pos.words), m.abs_range_min, m.abs_range_max,
        p, p.unit, m.abs_range_max.unit, observe.fresh())


def do_run(task, shared):
    m = history.machine_class(task[2] if len(task) > 2 else 'XYZ', task[3] if len(task) > 3 else None)()
    for line in task[1]:
        try:
            m.process_str(line)
        except Exception as e:
            yield failure(e)
        yield observe.text_of_state(observe.state(m)) + shown(m)


def do_made(task, shared):
    """machines of several kinds"""
    for (axes, mode, line) in task[1]:
        m = history.machine_class(axes, mode)()
        yield observe.text_of_state(observe.state(m)) + shown(m)
        try:
            m.process_str(line)
        except Exception as e:
            yield failure(e)
        yield observe.text_of_state(observe.state(m)) + shown(copy(m))


def do_shared(task, shared):
    m = history.machine_class('XYZ')()
    for i in task[1]:
        line = shared[i % len(shared)]
        try:
            m.process_block(line.block)
        except Exception as e:
            yield failure(e)
        yield str(line) + ' ' + observe.text_of_state(observe.state(m))


def start_machine(args):
    m = history.machine_class('XYZ')()
    m.process_str(args['start'])
    return m


def method_of(name):
    from pygcode import transform
    return {'i': transform.ArcLinearizeInside, 'o': transform.ArcLinearizeOutside, 'm': transform.ArcLinearizeMid}[name]


def describe(m):
    """modes and position of a machine: enough to make another like it"""
    return {'modes': [[type(g).__name__, g.word.letter, g.word.value, sorted((k, w.value) for (k, w) in g.params.items())] for g in m.mode.gcodes],
            'abs': observe.pos(m.abs_pos)}


def another(description):
    from pygcode.words import Word
    from pygcode import gcodes
    m = history.machine_class('XYZ')()
    m.mode = m.MODE_CLASS(set_default=False)
    for (cls, letter, value, params) in description['modes']:
        m.set_mode(getattr(gcodes, cls)(Word(letter, value), *[Word(k, v) for (k, v) in params]))
    m.abs_pos.update(**description['abs'])
    return m


def arc_codes(m, g, args, pos=None):
    from pygcode import transform
    return transform.linearize_arc(
        g, pos or m.pos, plane=m.mode.plane_selection, method_class=method_of(args.get('method', 'm')),
        dist_mode=m.mode.distance, arc_dist_mode=m.mode.arc_ijk_distance, max_error=args.get('error', 0.1),
        decimal_places=3)


def drill_codes(m, g, pos=None):
    from pygcode import transform
    return transform.simplify_canned_cycle(
        g, pos or m.pos, plane=m.mode.plane_selection, dist_mode=m.mode.distance,
        retract_mode=m.mode.canned_cycles_return, axes=m.axes)


def do_arc(task, shared):
    from pygcode.line import Line
    m = start_machine(task[2])
    for g in m.block_modal_gcodes(Line(task[1]).block):
        for s in arc_codes(m, g, task[2]):
            m.process_gcodes(s)
            yield '%s %s' % (s, sorted(observe.pos(m.pos).items()))


def do_fresh(task, shared):
    """arcs one after the other, each from modes made for it alone, and gone before the next"""
    from pygcode.line import Line
    from pygcode.machine import Position
    from pygcode import transform
    for (line, (plane, dist, arc_dist), start, args) in task[1]:
        given = {}
        for (name, text) in (('plane', plane), ('dist_mode', dist), ('arc_dist_mode', arc_dist)):
            if text:
                (given[name],) = Line(text).block.gcodes
        if args.get('method'):
            given['method_class'] = method_of(args['method'])
        try:
            for g in transform.linearize_arc(Line(line).block.gcodes[0], Position(**start), max_error=args['error'], **given):
                yield str(g)
        except Exception as e:
            yield failure(e)


def do_drill(task, shared):
    from pygcode.line import Line
    m = start_machine(task[2])
    for g in m.block_modal_gcodes(Line(task[1]).block):
        for s in drill_codes(m, g):
            m.process_gcodes(s)
            yield '%s %s' % (s, sorted(observe.pos(m.pos).items()))


def do_text(task, shared):
    from pygcode.line import Line
    from pygcode.words import text2words
    line = Line(task[1])
    yield ' '.join(str(w) for w in text2words(line.block.text)) if line.block else ''
    yield '|'.join([str(line), str(line.block), str(line.comment), str(line.macro)])
    for g in line.block.gcodes:
        yield '%s %r %s %s' % (g, g.get_param_dict() and sorted(g.get_param_dict().items()), type(g).__name__, g.modal_group)
    yield ' '.join(map(str, line.block.modal_params))


def do_split(task, shared):
    from pygcode.line import Line
    from pygcode import gcodes
    line = Line(task[1])
    for cls in (gcodes.GCodeMotion, gcodes.GCodeCannedCycle, gcodes.GCodeArcMove):
        yield ' / '.join(' '.join(map(str, part)) for part in gcodes.split_gcodes(line.block.gcodes, cls))


def do_clean(task, shared):
    """remove parameters that cannot be assigned, then execute"""
    from pygcode.line import Line
    m = history.machine_class('XYZ')()
    m.ignore_invalid_modal = task[2]
    for text in task[1]:
        line = Line(text)
        if task[2]:
            m.clean_block(line.block)
        try:
            m.process_block(line.block)
        except Exception as e:
            yield failure(e)
        yield fingerprint(line) + ' ' + observe.text_of_state(observe.state(m))


def do_copy(task, shared):
    m = history.machine_class('XYZ')()
    for line in task[1]:
        c = copy(m)
        try:
            c.process_str(line)
        except Exception as e:
            yield failure(e)
            continue
        yield observe.text_of_state(observe.state(m))
        m = c
    yield observe.text_of_state(observe.state(m))


ARCS = ['G2 X2 Y0 I1 J0', 'G3 X0 Y4 I0 J2', 'G3 X1 Y1 R1', 'G2 X-3 Y1 R-4', 'G2 X0.5 Y0.5 Z-1 R2', 'G3 X2 Y2 I1 J1', 'G2 X0 Y0 I3 J4']
# words of arcs written for the XY plane, in other planes
PLANES = [('G17', {}), ('G18', dict(zip('XYZIJK', 'ZXYKIJ'))), ('G19', dict(zip('XYZIJK', 'YZXJKI')))]
DRILLS = ['G81 X1 Y2 Z-1 R0.5', 'G83 X0 Y1 Z-2 R1 Q0.5', 'G82 X3 Z-1 R0.25 P0.5', 'G73 X1 Y1 Z-3 R0.5 Q1 L2', 'G89 Y2 Z-1 R2 P1',
          'G85 X-1 Y-1 Z-0.5 R0.5 L3']
STARTS = ['G90', 'G91', 'G90 G99', 'G91 G99', 'G0 Z1', 'G1 X0.5 Y-0.25', 'G91 G1 X1']
BAD = ['G1 G0 X1', 'X1 Y2 E3', 'G1 X', 'G123', 'M3 M5', 'G1 X1 X2', '?', 'X1 ?', 'I5', 'G80 G1 G80']


OWN = {}    # classes of own codes, as many as this process has defined so far


def own_code(number):
    from pygcode.gcodes import GCodeUserDefined, GCodeNonModal
    from pygcode.words import Word
    word = Word('M', number)    # (callers may be preempted in there)
    if number not in OWN:
        def _process(self, machine):
            machine.move_to(X=1 + (self.P or 0))
        tenth = int(round(number * 10))
        attrs = {'_process': _process, 'exec_order': 130 + tenth % 2 * 115}
        if tenth % 3:
            attrs['word_key'] = word
        else:
            attrs['word_matches'] = classmethod(lambda cls, w: w.letter == 'M' and w.value == number)
            attrs['default_word'] = word
        if tenth % 4 == 0:
            attrs['param_letters'] = set('PXE')
        OWN[number] = type('GCodeOwn%d' % tenth, (GCodeUserDefined if tenth % 5 else GCodeNonModal,), attrs)
    return OWN[number]


def do_own(task, shared):
    cls = own_code(task[1])
    for text in do_run(['run', task[2]], shared):
        yield text
    for text in do_text(['text', task[2][-1]], shared):
        yield text
    yield str(cls())


def random_task(rng, g, tier, nshared=0, kinds=('run', 'run', 'arc', 'fresh', 'drill', 'text', 'split', 'copy', 'clean', 'own', 'made')):
    """g: a sim.gen.Gen to draw lines from"""
    kind = rng.choice(kinds)
    if kind == 'shared' and not nshared:
        kind = 'run'
    if kind in ('run', 'copy'):
        lines = [g.line() for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.25:
            lines.insert(rng.randrange(len(lines) + 1), rng.choice(BAD))
        if kind == 'run' and rng.random() < 0.3:
            return [kind, lines, rng.choice(['XYZ', 'XYZABC', 'XYZA', 'XYZUVW', 'XZ']), history.own_mode(rng)]
        return [kind, lines]
    if kind == 'made':
        return [kind, [[rng.choice(['XYZ', 'XYZ', 'XYZABC', 'XYZUVW', 'XZ']), rng.choice(history.OWN_MODES + [None]), g.line()]
                       for _ in range(rng.randint(1, 3))]]
    if kind == 'own':
        number = rng.randint(1711, 1799) / 10.0
        lines = [g.line() for _ in range(rng.randint(0, 2))]
        lines += [rng.choice(['M%s', 'M%s P2', 'F100 M%s', 'M3 M%s P0.5 S200', 'M%s E1', 'G0 Y1 M%s P1']) % number for _ in range(rng.randint(1, 2))]
        return [kind, number, lines]
    if kind == 'clean':
        lines = [g.line() for _ in range(rng.randint(1, 5))]
        for i in range(len(lines)):
            if rng.random() < 0.5 and not any(x in lines[i] for x in '(;%'):
                lines[i] += rng.choice([' E5', ' K3', ' J1 I2', ' Q7', ' H2 E1', ' U1 V2 W3', ' X1 X2', ' E5 X1 H3'])
        return [kind, lines, rng.random() < 0.8]
    if kind == 'shared':
        return [kind, [rng.randrange(nshared) for _ in range(rng.randint(1, 4))]]
    if kind == 'arc':
        (line, start) = (rng.choice(ARCS), rng.choice(STARTS[:2]))
        if rng.random() < 0.5:
            (plane, swap) = rng.choice(PLANES)
            start += ' ' + plane
            line = ''.join(swap.get(c, c) for c in line)
        return [kind, line, {'start': start, 'method': rng.choice('iom'), 'error': rng.choice([0.1, 0.5, 0.2])}]
    if kind == 'fresh':
        items = []
        for _ in range(rng.randint(2, 8)):
            (plane, swap) = rng.choice(PLANES)
            modes = [plane, rng.choice(['G90', 'G91']), rng.choice(['G90.1', 'G91.1'])]
            if rng.random() < 0.3:
                modes[rng.randrange(3)] = None
            items.append([''.join(swap.get(c, c) for c in rng.choice(ARCS)), modes,
                          {k: float(rng.choice([0, 0, 1, -2])) for k in 'XYZ'} if rng.random() < 0.3 else {},
                          {'error': rng.choice([0.1, 0.5, 0.2]), 'method': rng.choice(['i', 'o', 'm', None])}])
        return [kind, items]
    if kind == 'drill':
        return [kind, rng.choice(DRILLS), {'start': rng.choice(STARTS)}]
    return [kind, g.line() if rng.random() < 0.85 else rng.choice(BAD)]
