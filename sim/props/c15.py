"""C15 the tools fail loudly and never emit wrong output"""
import errno

from .. import cases, env, faults, interrupt, model, programs, scriptsim
from ..core import Violation
from . import c11

RUNS = {'quick': 2600, 'thorough': 60000}
RULE = ("one run = one invocation of a tool with one fault: reading or writing fails after a random byte (once or for "
        "good, with short and interrupted transfers around it), the file cannot be opened, a byte is not text, an "
        "argument is malformed, the tool is struck by an interrupt or a failing allocation, or a line cannot be processed; non-trivial: the fault took place; distinct by scenario content")
REAL = ['scripts/pygcode-norm, scripts/pygcode-crop (whole scripts)', 'pygcode library', "Python's buffered and text I/O layers"]
STUB = ['raw files and standard streams (simulated, faulty)', "interpreter exit (simulated: final flush, exit status)"]
MEASURE = 'distinct (tool, kind of fault, position of the fault in tenths) combinations'
ASSUMPTIONS = ['exit status as CPython derives it: SystemExit code, 1 for an uncaught exception, 120 for a failed final flush']

READ_ERRORS = ['EIO', 'ESTALE', 'ENOMEM', 'EISDIR']
WRITE_ERRORS = ['ENOSPC', 'EIO', 'EPIPE', 'EDQUOT', 'EFBIG']
OPEN_ERRORS = ['ENOENT', 'EACCES', 'EMFILE']

BAD_OPTIONS = ['-alm q', '-alm i,', '-alm i,o,m', '-alp x', '-alp ', '-rsh high', '-mm G0 G1', '-mm G0 Q', '-mm hello', '-mm G21 G20',
               '-cc 5', '-cc G81;G82', '-rmg G', '-rmg G1 G2', '-rmg M3,,M5', '--wat', '-alp', 'extra']
BAD_RANGES = ['', '5', '1:2:3', 'x:', 'n=1.5:', '1.5:', 'q>1:', 'x>:', ':x', '1,,2:', ',:', 'x=>1:', 'x>1e3:', 'x>a:', '>5', 'x>1;y>2:',
              '5;', 'x 5:', ':n<2.25', 'x==:', 'xy>1:', 'x>>1:', 'x<>1:', '1:2,', 'x>1 y>2:', ':5 6', 'n>2.5,x>1:', ':z<1,n!=0.5']


def generate(rng, tier, index):
    c = cases.case(rng, rng.randint(2, 10 if tier == 'quick' else 24), valid=True)
    size = sum(len(x.encode('utf-8', 'replace')) + 1 for x in c['lines'])
    c['plan'] = scriptsim.random_plan(rng, size)
    kind = rng.choice(['read', 'read', 'write', 'write', 'write', 'flush', 'open', 'byte', 'line', 'line', 'line', 'expand', 'expand', 'args',
                       'strike', 'strike', 'strike', 'strike', 'none'])
    c['fault'] = {'kind': kind}
    f = c['fault']
    if kind == 'read':
        f['at'] = round(rng.random(), 4) if rng.random() < 0.8 else 1.0
        f['errno'] = rng.choice(READ_ERRORS)
    elif kind in ('write', 'flush'):
        f['at'] = rng.choice([0.0, 0.9999, round(rng.random(), 4), round(rng.random(), 4)])
        f['errno'] = rng.choice(WRITE_ERRORS)
        f['times'] = rng.choice([1, 1, 1000000])
        if kind == 'flush':
            c['plan']['wbuf'] = 1 << 16
            c['plan']['line_buffering'] = False
    elif kind == 'open':
        f['errno'] = rng.choice(OPEN_ERRORS)
        c['plan']['via'] = 'file'
    elif kind == 'byte':
        f['at'] = round(rng.random(), 4)
        f['byte'] = rng.choice([0xff, 0x80, 0xc3, 0xfe])
    elif kind == 'line':
        m = (programs.controller(c['args'][c['args'].index('-mm') + 1] if '-mm' in c['args'] else programs.NORM_MODE)
             if c['script'] == 'pygcode-norm' else model.Machine('XYZABC', default_mode=[]))
        j = rng.randrange(len(c['lines']) + 1)
        for line in c['lines'][:j]:
            m.execute_text(line)
        (text, why) = faults.bad_line(rng, m)
        f.update(at=j, text=text, why=why)
    elif kind == 'strike':
        f['at'] = round(rng.random(), 4)
        f['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
        f['opcodes'] = rng.random() < 0.4
        f['by'] = rng.choice(['event', 'first', 'last', 'function', 'function'])
        if rng.random() < 0.5 and c['script'] == 'pygcode-norm' and '-al' not in c['args']:
            c['args'] += ['-al', '-alp', rng.choice(['0.5', '0.1']), '-ce']
    elif kind == 'args':
        f['args'] = [rng.choice(BAD_RANGES)] if c['script'] == 'pygcode-crop' else rng.choice(BAD_OPTIONS).split(' ', 1)
    elif kind == 'expand':
        # valid commands which cannot be linearised or expanded
        j = rng.randrange(len(c['lines']) + 1)
        f.update(at=j, text=rng.choice(['G17 G90 G2 X1000 Y1000 R1', 'G90 G81 X1 Y1 Z5 R1', 'G83 X1 Y1 Z-1 R1', 'G18 G81 X1 Y1 Z-1 R1',
                                        'G3 I1 R4', 'G2', 'G81 X1 Y1 R1', 'G82 X3 Z-1', 'G73 X1 Z-1 R1 Q0', 'G17.1 G2 X1 I1',
                                                        'G76 X1 Z-2 P1 I1 J1 R1 K1 Q29', 'G91 G91.1 G2 X0 Y0 I0', 'G89 R1 X0', 'G19.1 G3 Y1 J5']))
        c['script'] = 'pygcode-norm'
        c['args'] = ['@', '-al', '-ce'] + [a for a in c['args'][1:] if a in ('-s', '-f', '-so', '-zxy', '-zz')]
    return c


FIXED_LISTS = ('args', 'reads', 'writes')


def simpler(s):
    for key in ('reads', 'writes', 'eintr_r', 'eintr_w', 'rbuf', 'wbuf'):
        if s['plan'].get(key):
            p = dict(s['plan'])
            del p[key]
            yield dict(s, plan=p)
    f = s['fault']
    for a in (0.0, 0.5):
        if isinstance(f.get('at'), float) and f['at'] > a:
            yield dict(s, fault=dict(f, at=a))


class Interrupter(interrupt.Interrupter):
    """strikes in the script, too"""
    def trace(self, frame, event, arg):
        if self.struck is None and frame.f_code.co_filename in [c.co_filename for c in env.SCRIPT_CODE.values()]:
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        return interrupt.Interrupter.trace(self, frame, event, arg)


def without_final(args):
    return [a for a in args if a not in ('-so', '-zxy', '-zz')]


def execute(scenario, ctx):
    lines = list(scenario['lines'])
    (script, args, f) = (scenario['script'], scenario['args'], scenario['fault'])
    plan = dict(scenario['plan'])
    kind = f['kind']
    text = ''.join(x + '\n' for x in lines)
    data = text.encode('utf-8', 'replace')
    what = '%s %s, fault %s, delivered by %s' % (script, args, f, plan)
    if kind in ('line', 'expand'):
        j = min(int(f['at']), len(lines))
        if any(c11.ends(x) for x in lines[:j]):
            args = without_final(args)      # final actions are done before the program's end
        before = scriptsim.run(script, without_final(args), ''.join(x + '\n' for x in lines[:j]))
        if before.status != 0:
            ctx.probe('skipped')
            return
        # the line's content decides, not what follows it
        bad = lines[:j] + [f['text']] + lines[j:]
        res = scriptsim.run(script, args, ''.join(x + '\n' for x in bad), plan)
        scriptsim.count(ctx, res)
        ctx.fault('unprocessable-' + kind)
        ctx.log(what, res.status, repr(res.out))
        if kind == 'line' and script == 'pygcode-crop' and not refused_by_crop(lines[:j], f['text'], args):
            ctx.probe('skipped')
            return
        if res.status == 0 and kind == 'expand' and not reaches(script, args, lines[:j], f['text']):
            ctx.probe('skipped')
            return
        if res.status == 0:
            raise Violation('silent', '%s: line %d %r cannot be processed, but the exit status is 0' % (what, j + 1, f['text']))
        extra = None
        if res.out.startswith(before.out):
            extra = res.out[len(before.out):]
        elif before.out.startswith(res.out):
            extra = b''
        if extra is None or (kind == 'line' and extra):
            raise Violation('not-a-prefix', '%s: line %d %r cannot be processed; output %r, of the lines before it %r' % (
                what, j + 1, f['text'], res.out[-200:], before.out[-200:]))
        if b'finalizing' in extra:
            raise Violation('not-a-prefix', '%s: final actions written although line %d failed: %r' % (what, j + 1, extra))
        ctx.state(script, kind, f.get('why'), 10 * j // (len(lines) + 1))
        ctx.nontrivial = True
        return

    if kind == 'args':
        bad = ['@'] + f['args'] if script == 'pygcode-crop' else args + f['args']
        res = scriptsim.run(script, bad, text, plan)
        scriptsim.count(ctx, res)
        ctx.fault('malformed-argument')
        ctx.log(what, res.status, repr(res.out))
        if res.status == 0:
            raise Violation('silent', '%s %s: malformed, but the exit status is 0' % (script, bad))
        if res.out:
            raise Violation('not-a-prefix', '%s %s: malformed, but writes %r' % (script, bad, res.out[:80]))
        ctx.state(script, kind, f['args'])
        ctx.nontrivial = True
        return

    good = scriptsim.run(script, args, text)
    if good.status != 0:
        ctx.probe('skipped')
        return
    if kind == 'strike':
        rehearsed = interrupt.rehearse(lambda: scriptsim.run(script, args, text, plan), f['opcodes'], Interrupter)
        i = Interrupter(interrupt.choose(rehearsed, f['at'], f['by']), {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[f['exc']],
                        f['opcodes'])
        (res, _) = i.call(lambda: scriptsim.run(script, args, text, plan))
        scriptsim.count(ctx, res)
        ctx.log(what, i.struck and i.struck[:2], res.status, repr(res.out))
        if i.struck is None:
            ctx.probe('skipped')
            return
        ctx.fault('interrupt:' + f['exc'])
        if res.status == 0:
            raise Violation('silent', '%s: exit status 0, although struck in %s, line %s' % (what, i.struck[0], i.struck[1]))
        if not good.out.startswith(res.out):
            raise Violation('not-a-prefix', '%s: struck in %s, line %s, wrote %r, which is no prefix of the right output: %r' % (
                what, i.struck[0], i.struck[1], res.out[-200:], good.out[max(0, len(res.out) - 200):len(res.out) + 40]))
        ctx.state(script, kind, i.struck[0], i.struck[1])
        ctx.step(i.events)
        ctx.nontrivial = True
        return
    if kind == 'read':
        plan['rfail'] = [int(f['at'] * len(data)), getattr(errno, f['errno'])]
    elif kind in ('write', 'flush'):
        plan['wfail'] = [int(f['at'] * len(good.out)), getattr(errno, f['errno']), f['times']]
    elif kind == 'open':
        plan['open_fail'] = getattr(errno, f['errno'])
    elif kind == 'byte':
        at = int(f['at'] * len(data))
        data = data[:at] + bytes([f['byte']]) + b'\xff' + data[at:]
    res = scriptsim.run(script, args, data, plan)
    scriptsim.count(ctx, res)
    ctx.log(what, res.status, repr(res.out))
    failed = res.reader.failed or res.writer.failed
    if kind == 'byte':
        failed = True
        ctx.fault('not-utf8')
        if script == 'pygcode-crop' and res.status == 0 and res.out == good.out:
            failed = False      # may have been beyond what had to be read
    if failed:
        if res.status == 0:
            raise Violation('silent', '%s: exit status 0 although %s' % (what, 'the input is not text' if kind == 'byte' else 'the device failed'))
        if not good.out.startswith(res.out):
            i = 0
            while i < min(len(good.out), len(res.out)) and good.out[i] == res.out[i]:
                i += 1
            raise Violation('not-a-prefix', '%s: wrote %r..., which is no prefix of the right output: %r' % (
                what, res.out[max(0, i - 30):i + 40], good.out[max(0, i - 30):i + 40]))
    else:
        if res.status != 0:
            raise Violation('failed', '%s: exit status %s without a failure: %s' % (what, res.status, res.err[-300:]))
        if res.out != good.out:
            raise Violation('incomplete', '%s: %d of %d bytes written' % (what, len(res.out), len(good.out)))
    if res.touched:
        raise Violation('touched', '%s: %s' % (what, res.touched))
    ctx.state(script, kind, f.get('errno'), int(10 * f.get('at', 0)), f.get('times'))
    ctx.nontrivial = bool(failed)


def refused_by_crop(before, text, args):
    """is the bad line refused by the machine of pygcode-crop, and reached at all?"""
    m = model.Machine('XYZABC', default_mode=[])
    try:
        for line in before:
            m.execute_text(line)
    except (model.Refused, model.Unsure):
        return False
    try:
        m.execute_text(text)
    except model.Refused:
        pass
    except model.Unsure:
        return False
    else:
        return False
    # lines after the end of the range need not be looked at
    end = args[1].split(':')[1]
    return end == ''


def reaches(script, args, before, text):
    """does norm have to expand or linearise the line?"""
    mode = args[args.index('-mm') + 1] if '-mm' in args else programs.NORM_MODE
    m = programs.controller(mode)
    try:
        for line in before:
            m.execute_text(line)
        codes = m.resolve(model.parse(text))
    except (model.Refused, model.Unsure):
        return False
    for c in codes:
        if c.word[0] == 'G' and c.word[1] in model.CANNED:
            return '-ce' in args
        if c.word in (('G', 2.0), ('G', 3.0)):
            return '-al' in args
    return False
