"""C10 cropping keeps exactly the lines asked for"""
from .. import gen, model, programs, scriptsim
from ..core import Violation

RUNS = {'quick': 2600, 'thorough': 60000}
RULE = ("one run = one program of 3-30 lines (most of them marked by a comment of their own) cropped with a random "
        "range: none to three start and end conditions on line number or position; non-trivial: some lines kept and "
        "some not; distinct by scenario content")
REAL = ['scripts/pygcode-crop (whole script)', 'pygcode parser, gcodes, blocks, machine']
STUB = ['file system, standard streams (simulated)', 'reference model computing positions and conditions']
MEASURE = 'distinct (form of range, kept / cut proportions) combinations'
ASSUMPTIONS = ['conditions on positions are not generated within 1e-6 of a boundary, except exact decimal values that '
               'the program states itself in absolute mode']
AXES = 'XYZABC'
OPS = {'=': lambda a, b: a == b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b,
       '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


def condition(rng, hist, n):
    """condition [letter or '', operator or '', value text]"""
    c = rng.random()
    if c < 0.25:
        return ['', '', str(rng.randint(1, n + 1))]
    op = rng.choice(sorted(OPS))
    if c < 0.5:
        return [rng.choice('nN'), op, str(rng.randint(1, n + 1))]
    a = rng.choice('XYZXYZXYZABC')
    values = sorted(set(p[a] for p in hist))
    v = rng.choice(values)
    if op in ('=', '==', '!='):
        v = round(v, 3)
    elif rng.random() < 0.6:
        v = round(v, 3)
    else:
        v = round(v + rng.choice([0.5, -0.5, 0.001, -0.001, 3]), 4)
    t = gen.fmt(v) if v == round(v, 3) else ('%.4f' % v)
    return [rng.choice([a, a.lower()]), op, t]


def aimed(rng, hist, n, i):
    """mostly one that holds at line i, but not at the line before"""
    for k in range(rng.choice([1, 12, 12])):
        c = condition(rng, hist, n)
        if not (c[2].startswith('-') and not c[1]) and holds([c], i + 1, hist[i], True) and not (
                k < 8 and i and holds([c], i, hist[i - 1], True)):
            break
    return c


def generate(rng, tier, index):
    feats = gen.swarm(rng, never=['comment', 'blank', 'macro'])
    axes = rng.choice(['XYZ', 'XYZ', 'XYZA', 'XYZABC'])
    g = gen.Gen(rng, feats + (['uv'] if rng.random() < 0.1 else []), axes, machine=model.Machine(AXES, default_mode=[]))
    n = rng.randint(3, 14 if tier == 'quick' else 30)
    lines = []
    hist = []
    m = model.Machine(AXES, default_mode=[])
    for i in range(n):
        line = g.line()
        m.execute_text(line)
        hist.append(dict(m.abs))
        c = rng.random()
        if c < 0.5:
            line += ' (L%d)' % (i + 1)
        elif c < 0.6:
            line += ' ; L%d' % (i + 1)
        elif c < 0.7:
            line += ' (L%d) (again)' % (i + 1)
        elif c < 0.73:
            line = commented(rng, line, i + 1)
        elif c < 0.77:
            line += ' (L%d) %%M%d' % (i + 1, i + 1)
        elif c < 0.8:
            line += ' %%M%d%%' % (i + 1)
        elif c < 0.85:
            line = rng.choice(['', '(only L%d)' % (i + 1), '; L%d' % (i + 1), '  '])
            m = g.m = replay(lines + [line])
            hist[-1] = dict(m.abs)
        lines.append(line)
    if rng.random() < 0.05:
        lines = gen.wide(rng, lines)
    i = rng.randrange(n)
    first = [aimed(rng, hist, n, i) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
    i = min(n - 1, i + rng.choice([1, 1, 2, 3, rng.randint(1, n)]))
    last = [aimed(rng, hist, n, i) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
    return {'lines': lines, 'first': first, 'last': last, 'space': rng.random() < 0.2,
            'plan': scriptsim.random_plan(rng, 400)}


def commented(rng, line, n):
    """several comments in one line, before and between words, the same ones again"""
    words = line.split()
    texts = ['L%d' % n, rng.choice(['a', 'G1 X1', 'L%d' % n]), rng.choice(['a', 'b, c', 'L%d L%d' % (n, n), '', ' '])]
    for _ in range(rng.choice([2, 2, 3, 4])):
        words.insert(rng.randint(0, len(words)), '(%s)' % rng.choice(texts))
    out = [words[0]]
    for w in words[1:]:
        out.append(rng.choice(['', ' ', '  ']) if w.startswith('(') else ' ')
        out.append(w)
    return ''.join(out)


def replay(lines):
    m = model.Machine(AXES, default_mode=[])
    for t in lines:
        m.execute_text(t)
    return m


FIXED_LISTS = ()


def simpler(s):
    if s.get('plan'):
        yield dict(s, plan={})
    for k in ('first', 'last'):
        for i in range(len(s[k])):
            yield dict(s, **{k: s[k][:i] + s[k][i + 1:]})


def text_of(conds, space):
    out = []
    for (a, op, v) in conds:
        out.append((' %s %s %s ' if space else '%s%s%s') % (a, op, v))
    return ','.join(out)


def holds(conds, n, pos, default):
    """True, False, or None when too close to call"""
    if not conds:
        return default
    out = True
    for (a, op, v) in conds:
        a = (a or 'N').upper()
        value = float(v)
        x = n if a == 'N' else pos[a]
        if a != 'N' and x != value and abs(x - value) < 1e-6:
            return None
        if not OPS[op or '='](x, value):
            out = False
    return out


def execute(scenario, ctx):
    lines = scenario['lines']
    (first, last) = (scenario['first'], scenario['last'])
    if any(len(c) != 3 for c in first + last):
        return
    m = model.Machine(AXES, default_mode=[])
    hist = []
    for line in lines:
        try:
            before = m.clone()
            m.execute_text(line)
        except (model.Refused, model.Unsure):
            ctx.probe('skipped')
            return
        hist.append((before, dict(m.work)))
    # which lines are asked for
    start = end = None
    for (i, (_, pos)) in enumerate(hist):
        if start is None:
            h = holds(first, i + 1, pos, True)
            if h is None:
                ctx.probe('too-close')
                return
            if h:
                start = i
        if start is not None:
            h = holds(last, i + 1, pos, False)
            if h is None:
                ctx.probe('too-close')
                return
            if h:
                end = i
                break
    kept = [] if start is None else list(range(start, len(lines) if end is None else end))

    text = ''.join(line + '\n' for line in lines)
    rng_text = text_of(first, scenario.get('space')) + ':' + text_of(last, scenario.get('space'))
    if rng_text.startswith('-'):
        return
    res = scriptsim.run('pygcode-crop', ['@', rng_text], text, scenario.get('plan'))
    scriptsim.count(ctx, res)
    ctx.log('crop', rng_text, repr(res.out), res.status)
    if res.status != 0:
        raise Violation('failed', 'crop %r ends with status %s: %s' % (rng_text, res.status, res.err[-400:]))
    if res.touched:
        raise Violation('touched', str(res.touched))
    out = res.lines
    if start is None and out:
        raise Violation('too-much', 'crop %r: no line satisfies the start, but output is %r' % (rng_text, out[:6]))
    if len(out) < len(kept):
        raise Violation('too-few', 'crop %r: lines %s asked for, only %d lines come out: %r' % (rng_text, kept, len(out), out[-4:]))
    (preamble, rest) = (out[:len(out) - len(kept)], out[len(out) - len(kept):])
    for line in preamble:
        (_, comment, _, macro) = model.split_line(line)
        if macro or (comment and ('L' in comment)):
            raise Violation('too-much', 'crop %r: lines %s asked for; source line before them: %r' % (
                rng_text, [k + 1 for k in kept], line))
    m = programs.controller(' '.join(model.DEFAULT_MODE), AXES)
    try:
        for line in preamble:
            m.execute_text(line)
    except (model.Refused, model.Unsure) as e:
        raise Violation('preamble', 'preamble refused: %r' % (preamble,))
    for (k, line) in zip(kept, rest):
        (btext, comment, kind, macro) = model.split_line(lines[k])
        (otext, ocomment, okind, omacro) = model.split_line(line)
        where = 'crop %r: source line %d %r came out as %r' % (rng_text, k + 1, lines[k], line)
        if (ocomment or '').strip() != (comment or '').strip() or (comment and kind != okind):
            raise Violation('comment', where)
        if (omacro or '').strip() != (macro or '').strip():
            raise Violation('macro', where)
        try:
            want = hist[k][0].resolve(model.parse(lines[k]))
            got = m.clone().resolve(model.parse(line))
            m.execute_text(line)
        except (model.Refused, model.Unsure) as e:
            raise Violation('command', '%s, which is refused: %s' % (where, e))
        a = [programs.event(c, {}, {})[:2] for c in want]
        b = [programs.event(c, {}, {})[:2] for c in got]
        if a != b:
            raise Violation('command', '%s: %s instead of %s' % (where, b, a))
    ctx.step(len(rest))
    ctx.probe('kept' if kept else 'nothing-kept')
    ctx.state(tuple((a.upper(), op) for (a, op, v) in first), tuple((a.upper(), op) for (a, op, v) in last),
              10 * len(kept) // max(1, len(lines)))
    ctx.nontrivial = 0 < len(kept) < len(lines)
