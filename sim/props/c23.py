"""C23 normalised output looks as asked for, and loses no comment"""
import re

from .. import gen, model, programs, scriptsim
from ..core import Violation
from . import c10, c11

RUNS = {'quick': 2200, 'thorough': 60000}
RULE = ("one run = one program of 3-25 lines with comments (marked, several in a line, of both kinds), blank lines and macros "
        "through pygcode-norm with random options and a random delivery; every line of the output is looked at by itself, "
        "the comments in their order, and the output is normalised again; non-trivial: at least one presentation option or "
        "comment, and 3 lines; distinct by scenario content")
REAL = ['scripts/pygcode-norm (whole script)', 'pygcode parser, gcodes, blocks, comments, machine']
STUB = ['file system, standard streams (simulated)', 'reading of the output (reference model)']
MEASURE = 'distinct (options, kinds of lines in the program) combinations'
ASSUMPTIONS = ['with --singles a comment may be repeated with each command of its line']

OWN = ('linearized arc: ', 'expanded: ', 'pygcode-norm: finalizing', 'spindle off', 'move to ')


def generate(rng, tier, index):
    while True:
        s = c11.generate(rng, tier, index)
        if s.get('kind') != 'filter' and '-rmim' not in s['args'] and '--rm_invalid_modal' not in s['args']:
            break
    lines = []
    for (i, line) in enumerate(s['lines']):
        if rng.random() < 0.12:
            lines.append(rng.choice(['', '   ', '(only %d)' % i, '; only %d' % i, '%%only %d' % i, '(a %d) %%b' % i, '() ', ';']))
        c = rng.random()
        if not any(x in line for x in '(;%') and line.strip():
            if c < 0.25:
                line += rng.choice([' ', '']) + '(L%d)' % i
            elif c < 0.35:
                line += rng.choice([' ', '']) + '; L%d' % i
            elif c < 0.42:
                line = c10.commented(rng, line, i)
            elif c < 0.47:
                line += ' (L%d) %%M%d' % (i, i)
            elif c < 0.5:
                line += ' ; (L%d) [x]  y' % i
        lines.append(line)
    args = s['args']
    if rng.random() < 0.5:
        args = [a for a in args if a != '-rc']
    return {'lines': lines, 'args': args, 'mode': s['mode'], 'newline': s['newline'], 'plan': s['plan']}


FIXED_LISTS = ('args', 'reads', 'writes')
simpler = c11.simpler


def squeezed(line):
    return ' '.join(line.split())


def execute(scenario, ctx):
    lines = scenario['lines']
    args = scenario['args']
    mode = scenario['mode']
    src = programs.controller(mode)
    comments = []       # (text, kind) of each line that has one
    at = []             # line of each
    for (i, line) in enumerate(lines):
        try:
            if not all(c11.fit(args, c) for c in src.clone().resolve(model.parse(line))):
                ctx.probe('unfit')
                return      # cannot be expanded
            src.execute_text(line)
        except (model.Refused, model.Unsure):
            ctx.probe('skipped')
            return      # only while minimising
        (_, comment, kind, _) = model.split_line(line)
        if comment is not None and comment.strip():
            comments.append((comment.strip(), kind))
            at.append(i)
    text = '\n'.join(lines) + ('\n' if scenario.get('newline', True) and lines else '')
    res = scriptsim.run('pygcode-norm', ['@'] + args, text, scenario.get('plan'))
    scriptsim.count(ctx, res)
    ctx.log('out', repr(res.out), res.status)
    if res.status != 0:
        raise Violation('failed', 'norm %s ends with status %s: %s' % (args, res.status, res.err[-400:]))

    def has(*names):
        return any(n in args for n in names)
    (singles, full, rc, rb, rws) = (has('-s', '--singles'), has('-f', '--full'), has('-rc'), has('-rb'), has('-rws'))
    out = programs.controller(mode)
    got = []
    got_at = []
    for (i, line) in enumerate(res.lines):
        where = 'norm %s: output line %d %r' % (' '.join(args), i + 1, line)
        (block, comment, kind, macro) = model.split_line(line)
        try:
            p = model.parse(line)
            motion = out.mode['motion']
            out.execute_text(line)
        except model.Refused as e:
            raise Violation('refused', '%s: %s' % (where, e))
        except model.Unsure:
            ctx.probe('skipped')
            return
        n = len(p.codes) + bool(p.left)
        if singles and n > 1:
            raise Violation('singles', '%s: %d commands in a line' % (where, n))
        if full and p.left and motion is not None:
            raise Violation('full', '%s: a command is left out' % where)
        if rc and comment is not None:
            raise Violation('comment-kept', '%s: all comments were to be removed' % where)
        if rb and not line.strip():
            raise Violation('blank-kept', '%s: all empty lines were to be removed' % where)
        if rws and re.search(r'\s', block.strip()):
            raise Violation('whitespace-kept', '%s: all whitespace was to be removed from blocks' % where)
        if comment is not None and comment.strip() and not comment.strip().startswith(OWN):
            c = (comment.strip(), kind)
            if not (singles and got and got[-1] == c):
                got.append(c)
                got_at.append(i)
        if not rws and len(block.split()) < sum(len(c.params) + 1 for c in p.codes) + len(p.left):
            raise Violation('whitespace', '%s: words are not separated' % where)
        ctx.step()

    final = has('-so', '-zxy', '-zz')
    if not rc:
        want = comments
        if singles:
            want = [c for (i, c) in enumerate(comments) if not i or c != comments[i - 1]]
        if got != want:
            i = 0
            while i < min(len(got), len(want)) and got[i] == want[i]:
                i += 1
            raise Violation('comments', 'norm %s: comment number %d is %s, it is %s in the source' % (
                ' '.join(args), i + 1, got[i:i + 1], want[i:i + 1]))
    if not (singles or rb or has('-al', '-ce') or final and any(c11.ends(x) for x in lines)):
        # line by line
        if len(res.lines) != len(lines) and not (final and len(res.lines) > len(lines)):
            raise Violation('lines', 'norm %s: %d lines come out of %d' % (' '.join(args), len(res.lines), len(lines)))
        if not rc and got_at != at:
            raise Violation('comments', 'norm %s: comments of lines %s come out in lines %s' % (' '.join(args), at, got_at))
        removing = has('-rmg')
        for (i, line) in enumerate(lines):
            a = model.parse(line)
            b = model.parse(res.lines[i])
            if bool(a.codes or a.left) != bool(b.codes or b.left) and not removing:
                raise Violation('lines', 'norm %s: line %d %r comes out as %r' % (' '.join(args), i + 1, line, res.lines[i]))
        ctx.probe('line by line')
    # once more
    if not final:
        again = scriptsim.run('pygcode-norm', ['@'] + args, ''.join(x + '\n' for x in res.lines), {})
        if again.status != 0:
            raise Violation('again', 'norm %s of its own output ends with status %s: %s' % (' '.join(args), again.status, again.err[-300:]))
        (a, b) = ([squeezed(x) for x in res.lines], [squeezed(x) for x in again.lines])
        if a != b:
            i = 0
            while i < min(len(a), len(b)) and a[i] == b[i]:
                i += 1
            raise Violation('again', 'norm %s of its own output: line %d %r becomes %r' % (' '.join(args), i + 1, a[i:i + 1], b[i:i + 1]))
        ctx.probe('normalised again')
    ctx.probe('comments', len(comments))
    ctx.state(tuple(sorted(a for a in args if a.startswith('-'))), bool(comments), len(got))
    ctx.nontrivial = len(lines) >= 3 and bool(comments or singles or full or rc or rb or rws)
