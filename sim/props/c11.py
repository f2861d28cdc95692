"""C11 pygcode-norm preserves the program, however its output is cut"""
import re

from .. import gen, model, programs, scriptsim
from ..core import Violation
from . import c12

RUNS = {'quick': 4000, 'thorough': 100000}
RULE = ("one run = one program of 3-25 lines through pygcode-norm with a random set of presentation and end-of-program "
        "options and a random delivery (file or stdin, partial and interrupted transfers); source and output are "
        "executed on a simulated controller, the output being cut after every line; non-trivial: at least 4 executed "
        "commands and one option; distinct by scenario content.  12 % of the runs put the program's codes one by one through "
        "the library's filter of redundant motion words instead (non-trivial: 4 codes, one word left out)")
REAL = ['scripts/pygcode-norm (whole script)', 'pygcode parser, gcodes, blocks, machine, omit_redundant_modes']
STUB = ['file system, standard streams (simulated)', 'the controller executing source and output (reference model)']
MEASURE = 'distinct (options, kinds of commands in the program) combinations'
ASSUMPTIONS = ['programs use conventional word order (each parameter after its command)']

RM = ['M3', 'M5', 'M7', 'M8', 'M9', 'M6', 'M48', 'G40', 'G49', 'G61', 'G94', 'G97', 'M0', 'M1', 'G43', 'G64', 'G4',
      'G20', 'G21', 'G98', 'G99', 'G90', 'G91', 'G55', 'G92.1', 'G28', 'T3', 'M60']
RM_MOTION = ['G0', 'G1', 'G2', 'G81', 'G83', 'G80', 'G38.2']


def generate(rng, tier, index):
    r = rng.random()
    if r < 0.12:
        return generate_filtered(rng, tier)
    if r < 0.38:
        return generate_expanded(rng, tier)
    mode = rng.choice(programs.NORM_MODES)
    feats = gen.swarm(rng, always=['modal', 'misc'] + (['othermotion'] if rng.random() < 0.3 else [])
                      + (['extra'] if rng.random() < 0.2 else []))
    g = gen.Gen(rng, feats, 'XYZ', machine=programs.controller(mode))
    n = rng.randint(3, 12 if tier == 'quick' else 25)
    lines = g.program(n)
    args = []
    if rng.random() < 0.5:
        args.append(rng.choice(['-s', '--singles']))
    full = rng.random() < 0.4
    if full:
        args.append(rng.choice(['-f', '--full']))
    for (o, p) in (('-rc', 0.3), ('-rb', 0.3), ('-rws', 0.3)):
        if rng.random() < p:
            args.append(o)
    if mode != programs.NORM_MODE or rng.random() < 0.1:
        args += ['-mm', mode]
    if rng.random() < 0.3:
        pool = RM + (RM_MOTION if full else [])
        args += ['-rmg', ','.join(rng.sample(pool, rng.randint(1, 5)))]
    final = rng.random() < 0.35
    if final:
        for (o, p) in (('-so', 0.6), ('-zxy', 0.6), ('-zz', 0.5)):
            if rng.random() < p:
                args.append(o)
        if '-zxy' in args and rng.random() < 0.4:
            args += ['-rsh', str(rng.choice([5, 10, 0.5, 123.25]))]
        lines = ended(rng, lines)
    if rng.random() < 0.12:
        args.append(rng.choice(['-rmim', '--rm_invalid_modal']))
        lines = soiled(rng, lines, mode)
    elif rng.random() < 0.03:
        lines = gen.wide(rng, lines)
    text = '\n'.join(lines) + ('\n' if rng.random() < 0.8 else '')
    return {'lines': lines, 'args': args, 'newline': text.endswith('\n'), 'mode': mode,
            'plan': scriptsim.random_plan(rng, len(text))}


FINAL = ('-so', '-zxy', '-zz')


def is_end(word):
    return word[0] == 'M' and model.num(word[1]) in (2.0, 30.0)


def ends(line):
    try:
        return any(is_end(c.word) for c in model.parse(line).codes)
    except (model.Refused, model.Unsure):
        return False


def ended(rng, lines):
    """the program less what is beyond its end, an end being put where it has none"""
    for (i, line) in enumerate(lines):
        if ends(line):
            lines = lines[:i + 1]
            break
    else:
        if rng.random() < 0.6:
            word = rng.choice(['M2', 'M30', 'M30', 'm02'])
            if rng.random() < 0.3 and not re.search(r'[(;%]|[Mm]0?[016]', lines[-1]):
                lines = lines[:-1] + [lines[-1] + ' ' + word]
            else:
                lines = lines + [word]
            lines[-1] += rng.choice(['', '', ' (end)', ' ; end', ' %'])
            if rng.random() < 0.3:
                lines = lines + rng.choice([['%'], ['', '%'], ['(done)'], ['']])
    return lines


NONSENSE = ['E5', 'E-1.5', 'G200', 'G123.4', 'M500', 'M1000', 'K3', 'J1', 'I2', 'Q7', 'H2', 'U1', 'V2', 'W3', 'D2', 'P3', 'L1', 'R4', 'B1', 'C9']


def soiled(rng, lines, mode):
    """with words that nothing can take, marked ~ (for -rmim to leave out)"""
    out = []
    m = programs.controller(mode)
    for line in lines:
        was = m.clone()
        m.execute_text(line)
        if rng.random() < 0.06 and any(c.spec.group == 'motion' for c in model.parse(line).codes):
            # nothing is active before that line: nothing takes parameters
            out.append('G80')
            out.append(' '.join(rng.choice([[], ['M8'], ['F200', 'S50'], ['G94']]) + ['~X%d' % rng.randint(1, 9), '~Y2', '~Z-1'][:rng.randint(1, 3)]))
            for t in out[-2:]:
                was.execute_text(cleaned(t))
        if rng.random() < 0.5 and not any(c in line for c in '(;%'):
            words = line.split()
            if not ''.join(words) and was.word('motion') is None and rng.random() < 0.5:
                words = ['~X%d' % rng.randint(1, 9), '~Y2', '~Z-1'][:rng.randint(1, 3)]
            else:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    words.insert(rng.randint(0, len(words)), '~' + rng.choice(NONSENSE))
            try:
                if nonsense(words, was):
                    line = ' '.join(words)
            except (model.Refused, model.Unsure):
                pass
        out.append(line)
    return out


def nonsense(words, machine):
    """does nothing take the marked words, in that state?"""
    clean = model.parse(' '.join(w for w in words if w[0] != '~'))
    whole = model.parse(' '.join(w.lstrip('~') for w in words))
    marked = [(w[1], float(w[2:])) for w in words if w[0] == '~']
    if [(c.word, c.params) for c in clean.codes] != [(c.word, c.params) for c in whole.codes]:
        return False
    if sorted(whole.left) != sorted(list(clean.left) + marked):
        return False
    motion = machine.mode['motion']
    if motion is None or any(c.spec.group == 'motion' for c in whole.codes):
        return not clean.left
    takes = model.spec_of(motion[0]).params
    letters = [l for (l, v) in clean.left]
    return not any(l in takes for (l, v) in marked) and all(l in takes for l in letters) and len(letters) == len(set(letters))


def cleaned(line):
    return re.sub(r'(^| )~\S+', '', line)


def generate_expanded(rng, tier):
    """arcs linearised and canned cycles expanded: everything else stays, in its place"""
    mode = rng.choice(programs.NORM_MODES[:6])
    feats = gen.swarm(rng, always=['modal', 'misc', 'canned', 'arc', 'multi', 'macro'])
    g = gen.Gen(rng, feats, 'XYZ', machine=programs.controller(mode), small=True, fullcanned=True)
    lines = g.program(rng.randint(3, 10 if tier == 'quick' else 20))
    for (i, line) in enumerate(lines):
        # something of every execution order around an arc or a cycle
        if any(x in line for x in ('G2 ', 'G3 ', 'G8')) and not any(c in line for c in '(;%') and rng.random() < 0.4:
            extra = rng.choice(['M0', 'M1', 'M7', 'F%d' % rng.randint(1, 900), 'S%d' % rng.randint(1, 900), 'M8', 'M3', 'T2', 'M48'])
            if extra[0] not in line.replace('M', 'M' if extra[0] == 'M' else ''):
                lines[i] = (extra + ' ' + line) if rng.random() < 0.5 else (line + ' ' + extra)
    args = rng.choice([['-al'], ['-ce'], ['-al', '-ce'], ['-al', '-ce']])
    if '-al' in args:
        args = args + ['-alp', rng.choice(['0.5', '0.1'])]
        if rng.random() < 0.5:
            args += ['-alm', rng.choice(['i', 'o', 'm', 'i,o', 'm,i'])]
    if '-ce' in args and rng.random() < 0.3:
        args += ['-cc', ','.join(rng.sample(['G81', 'G82', 'G83', 'G73', 'G85', 'G89'], rng.randint(1, 4)))]
    for (o, p) in (('-s', 0.3), ('-f', 0.3), ('-rc', 0.3), ('-rb', 0.3), ('-rws', 0.3)):
        if rng.random() < p:
            args.append(o)
    if mode != programs.NORM_MODE:
        args += ['-mm', mode]
    return {'lines': lines, 'args': args, 'newline': True, 'mode': mode,
            'plan': scriptsim.random_plan(rng, 100) if rng.random() < 0.3 else {}}


def generate_filtered(rng, tier):
    """the library's filter that leaves out redundant motion words"""
    feats = gen.swarm(rng, always=['modal', 'misc', 'canned', 'othermotion', 'multi'])
    g = gen.Gen(rng, feats, 'XYZ', machine=programs.controller(programs.NORM_MODE), small=True, fullcanned=True)
    lines = g.program(rng.randint(2, 10 if tier == 'quick' else 20))
    for _ in range(rng.randint(0, 4)):
        # modes set again
        lines.insert(rng.randint(0, len(lines)), rng.choice(['G90', 'G17', 'G94', 'G54', 'M3', 'F100', 'G98', 'G80', 'M5', 'G64', 'G21']))
    return {'kind': 'filter', 'lines': lines, 'mode': programs.NORM_MODE, 'args': []}


FIXED_LISTS = ('args',)


def simpler(s):
    if any(x.startswith('   ') for x in s['lines']):
        yield dict(s, lines=[x.strip() for x in s['lines']])
    if s.get('plan'):
        yield dict(s, plan={})
    args = s['args']
    i = 0
    while i < len(args):
        k = 2 if args[i] in ('-rmg', '-rsh', '-alp', '-alm', '-cc') else 1
        if args[i] == '-mm':
            i += 2
            continue
        yield dict(s, args=args[:i] + args[i + k:])
        i += k


def option(args, name):
    return args[args.index(name) + 1] if name in args else None


def fit(args, c):
    """can the command be linearised or expanded, if it has to be?"""
    if c.word in (('G', 2.0), ('G', 3.0)):
        return '-al' not in args or c12.well_formed(c)
    if c.word[0] == 'G' and c.word[1] in model.CANNED:
        return '-ce' not in args or ('Z' in c.params and 'R' in c.params and ('Q' in c.params or c.word[1] not in (73.0, 83.0)))
    return True


def filtered(scenario, ctx):
    """each code of a program by itself, through the filter, to the controller"""
    from pygcode.block import Block
    from pygcode.utils import omit_redundant_modes
    src = programs.controller(scenario['mode'])
    ref = programs.controller(scenario['mode'])
    (texts, expected) = ([], [])
    for line in scenario['lines']:
        try:
            codes = src.clone().resolve(model.parse(line))
            src.execute_text(line)
            for c in codes:
                if c.word[0] == 'O':
                    continue
                text = ' '.join('%s%.10g' % (k, model.num(v)) for (k, v) in [c.word] + sorted(c.params.items()))
                ref_events = programs.run_line(ref, text)
                if len(ref_events) != 1:
                    raise model.Unsure(text)
                texts.append(text)
                expected.append(ref_events[0])
        except (model.Refused, model.Unsure):
            ctx.probe('skipped')
            return
    given = []
    for text in texts:
        block = Block(text)
        if len(block.gcodes) != 1 or block.modal_params:
            raise Violation('different', '%r is read as %s' % (text, block))
        given.append(block.gcodes[0])
    before = [str(g) for g in given]
    out = programs.controller(scenario['mode'])
    n = 0
    omitted = 0
    for g in omit_redundant_modes(iter(given)):
        text = str(g)
        ctx.log(text)
        try:
            events = programs.run_line(out, text)
        except model.Refused as e:
            raise Violation('output-refused', '%r, for %r: %s' % (text, texts[n] if n < len(texts) else None, e))
        except model.Unsure:
            return
        if n >= len(expected):
            raise Violation('extra', 'also yields %r' % text)
        if not events and not expected[n][1] and expected[n][0][0] == 'G':
            events = [expected[n]] if expected[n][2] == expected[n][3] else []    # a word alone that changes nothing
        if len(events) != 1 or not programs.same(events[0], expected[n]):
            raise Violation('different', '%r does %s, instead of %s' % (
                text, [programs.show(e) for e in events], programs.show(expected[n])))
        omitted += text[:1] == ' '
        n += 1
    if n < len(expected):
        raise Violation('missing', 'ends before %s' % programs.show(expected[n]))
    diff = programs.modes_diff(out, ref)
    if diff:
        raise Violation('different', 'modes at the end: %s' % diff[:3])
    if [str(g) for g in given] != before:
        raise Violation('touched', 'the codes given are altered: %s, were %s' % ([str(g) for g in given], before))
    ctx.step(len(expected))
    ctx.probe('filtered')
    ctx.probe('motion words left out', omitted)
    ctx.state('filter', tuple(sorted(set(e[0] for e in expected if e[0][0] in 'GM'))))
    ctx.nontrivial = len(expected) >= 4 and omitted > 0


def execute(scenario, ctx):
    if scenario.get('kind') == 'filter':
        return filtered(scenario, ctx)
    lines = scenario['lines']
    args = scenario['args']
    mode = scenario['mode']
    text = '\n'.join(lines).replace('~', '') + ('\n' if scenario.get('newline', True) and lines else '')
    if '~' in ''.join(lines):
        was = programs.controller(mode)
        for line in lines:
            try:
                if '~' in line and not nonsense(line.split(), was):
                    raise model.Unsure(line)
                was.execute_text(cleaned(line))
            except (model.Refused, model.Unsure):
                ctx.probe('skipped')
                return      # only while minimising
        ctx.probe('nonsense words', sum(line.count('~') for line in lines))
        lines = [cleaned(line) for line in lines]
    removed = set()
    for w in (option(args, '-rmg') or '').split(','):
        if w:
            removed.add((w[0], float(w[1:])))

    # what the source does, less the removed codes
    src = programs.controller(mode)
    ref = programs.controller(mode)
    expected = []
    end = None      # number of the command that ends the program
    final = any(a in args for a in FINAL)
    for line in lines:
        try:
            codes = src.clone().resolve(model.parse(line))
            src.execute_text(line)
        except (model.Refused, model.Unsure):
            ctx.probe('skipped')
            return      # only while minimising
        for c in codes:
            if not fit(args, c):
                ctx.probe('unfit')
                return      # parameters that another command of the line left over
            if final and end is not None:
                ctx.probe('skipped')
                return      # only while minimising: nothing is executed beyond the end
            if final and is_end(c.word):
                end = len(expected)
            if (c.word[0], model.num(c.word[1])) in removed:
                continue
            start = dict(ref.abs)
            ref.execute_code(c)
            expected.append(programs.event(c, start, dict(ref.abs)))
        expected += programs.macro(line)

    res = scriptsim.run('pygcode-norm', ['@'] + args, text, scenario.get('plan'))
    scriptsim.count(ctx, res)
    ctx.log('out', repr(res.out), res.status)
    if res.status != 0:
        raise Violation('failed', 'norm %s ends with status %s: %s' % (args, res.status, res.err[-400:]))
    if res.touched:
        raise Violation('touched', str(res.touched))

    if '-al' in args or '-ce' in args:
        check_expanded(args, mode, expected, res.lines, ctx)
    else:
        check_same(args, mode, expected, res.lines, src, ref, removed, end)
        if end is not None:
            ctx.probe('final actions before the end')
    ctx.step(len(expected))
    ctx.state(tuple(sorted(a for a in args if a.startswith('-'))), tuple(sorted(set(e[0] for e in expected if e[0][0] in 'GM'))))
    for a in args:
        if a.startswith('-'):
            ctx.probe('option ' + a)
    ctx.nontrivial = len(expected) >= 4 and len(args) > 0


def bare(ev):
    return (ev[0], ev[1], {}, {})


def check_same(args, mode, expected, lines, src, ref, removed, end=None):
    """end: number of the command which final actions are to be done before, None: all are"""
    if end is None:
        end = len(expected)
    out = programs.controller(mode)
    n = 0
    tail = []
    for (i, line) in enumerate(lines):
        try:
            events = programs.run_line(out, line) + programs.macro(line)
        except model.Refused as e:
            raise Violation('output-refused', 'output line %d %r: %s' % (i + 1, line, e))
        except model.Unsure:
            return
        for ev in events:
            if n == end and (n == len(expected) or not programs.same(bare(ev), bare(expected[n]))):
                tail.append(ev)
            elif n < len(expected):
                if not programs.same(bare(ev) if n >= end else ev, bare(expected[n]) if n >= end else expected[n]):
                    raise Violation('different', 'output line %d %r does %s, the source does %s' % (
                        i + 1, line, programs.show(ev), programs.show(expected[n])))
                n += 1
            else:
                raise Violation('extra', 'output line %d %r does %s, the program being at its end' % (i + 1, line, programs.show(ev)))
    if n < len(expected):
        raise Violation('missing', 'output ends before %s' % programs.show(expected[n]))
    final_actions(args, src, ref, out, tail, removed)


INSIDE = (('G', 0.0), ('G', 1.0), ('G', 4.0))


def check_expanded(args, mode, expected, lines, ctx):
    """
    The output does the same, except that linear moves and dwells stand in for the commands
    to be replaced, ending where those end.  As a move may be part of what stands in, or the
    next command, all possible readings are followed.
    """
    codes = option(args, '-cc')
    cycles = set((w[0], float(w[1:])) for w in codes.split(',')) if codes else set(('G', v) for v in model.CANNED)

    def replaced(ev):
        return '-al' in args and ev[0] in (('G', 2.0), ('G', 3.0)) or '-ce' in args and ev[0] in cycles

    def closed(states, at):
        """all that may have been completed, the machine being there"""
        todo = list(states)
        while todo:
            (n, begun) = todo.pop()
            if begun and model.pos_close(expected[n][3], at, 1e-6) and (n + 1, False) not in states:
                states.add((n + 1, False))
                todo.append((n + 1, False))
        return states

    out = programs.controller(mode)
    states = set([(0, False)])      # (number of the next command, has what replaces it begun?)
    for (i, line) in enumerate(lines):
        try:
            events = programs.run_line(out, line) + programs.macro(line)
        except model.Refused as e:
            raise Violation('output-refused', 'output line %d %r: %s' % (i + 1, line, e))
        except model.Unsure:
            return
        for ev in events:
            after = set()
            for (n, begun) in states:
                if n >= len(expected):
                    continue
                if replaced(expected[n]):
                    if ev[0] in INSIDE:
                        after.add((n, True))
                elif programs.same(ev, expected[n]):
                    after.add((n + 1, False))
            if not after:
                n = max(x for (x, _) in states)
                raise Violation('different', 'output line %d %r does %s, where the source does %s' % (
                    i + 1, line, programs.show(ev), programs.show(expected[n]) if n < len(expected) else 'nothing'))
            states = closed(after, ev[3] or out.abs)
    if (len(expected), False) not in states:
        raise Violation('missing', 'output ends before %s' % programs.show(expected[max(x for (x, _) in states)]))
    ctx.probe('expanded', sum(1 for x in expected if replaced(x)))


def final_actions(args, src, ref, out, tail, removed):
    """tail: what is done after the program (src: as written, ref: less removed codes)"""
    (so, zxy, zz) = ('-so' in args, '-zxy' in args, '-zz' in args)
    allowed = []
    if so:
        allowed.append(('M', 5.0))
    if zxy or zz:
        allowed += [('G', 90.0), ('G', 0.0)]
    for ev in tail:
        if ev[0] not in allowed:
            raise Violation('extra', 'output also does %s' % programs.show(ev))
    if removed & set(allowed):
        return      # asked to remove the very codes that were asked for
    if so and out.word('spindle') != 5.0:
        raise Violation('final', 'spindle not off: %s' % (out.mode['spindle'],))
    pos = out.work
    if zxy:
        safe = option(args, '-rsh')
        level = float(safe) if safe is not None else src.hi['Z'] - src.offset('Z')
        moves = [e for e in tail if e[0] == ('G', 0.0)]
        at = dict(ref.abs)
        for e in moves:
            across = any(not model.close(e[2][a], e[3][a]) for a in 'XY')
            if across and not (model.close(e[2]['Z'], level) and model.close(e[3]['Z'], level)):
                raise Violation('final', 'moves across at Z%g / Z%g instead of at the safe height %g' % (e[2]['Z'], e[3]['Z'], level))
            at = e[3]
        if not (model.close(pos['X'], 0) and model.close(pos['Y'], 0)):
            raise Violation('final', 'not at X0 Y0: %s' % pos)
        if not zz and not model.close(pos['Z'], level):
            raise Violation('final', 'not at the safe height %g: %s' % (level, pos))
    if zz and not model.close(pos['Z'], 0):
        raise Violation('final', 'not at Z0: %s' % pos)
    if zz and not zxy:
        for a in 'XY':
            if not model.close(out.abs[a], ref.abs[a]):
                raise Violation('final', 'Z0 was asked for, but %s moved too' % a)
