"""C14 the text form of code is a faithful durable record"""
import re

from .. import gen, history, model, observe, faults
from ..core import Violation

RUNS = {'quick': 2600, 'thorough': 60000}
RULE = ("one run = a controller executing a program of 6-40 records (lines, blocks or single codes, read from text in any "
        "spelling or made through the API), journalling the text form of each to a simulated disk, with 1-4 crashes that "
        "leave a prefix of the journal cut at any byte; after each crash a new machine executes the journal and carries on; "
        "every record is also re-read, rewritten, and executed in another spelling; non-trivial: a crash with at least one "
        "complete record in the journal; distinct by scenario content")
REAL = ['pygcode (whole library)']
STUB = ['disk holding the journal (simulated: only a prefix survives a crash)', 'reference model as oracle of what is valid']
MEASURE = 'distinct (journal granularity, torn or whole last record, recovered modes)'
STEP = 'records written and re-executed'
ASSUMPTIONS = ['the journal reader drops a last record without its line end', 'offsets set through the API are not part of the journal']

ODD = ['(caf\u00e9)', '; naive', '(a) (b) (c)', '()', '( padded )', ';;x', '; (y)', '(x;y)', '%', '%m1', '%m1 ', '(n) %m', '; s %m', '(a)(b)',
       '(unclosed', '((nested)']
API = [('GCodeLinearMove', 'XYZ'), ('GCodeRapidMove', 'XYZ'), ('GCodeFeedRate', None), ('GCodeSpindleSpeed', None), ('GCodeDwell', 'P'),
       ('GCodeArcMoveCW', 'XYI'), ('GCodeDrillingCycle', 'XYZR'), ('GCodeDrillingCyclePeck', 'XYZRQ'), ('GCodeIncrementalDistanceMode', ''),
       ('GCodeAbsoluteDistanceMode', ''), ('GCodePathBlendingMode', 'PQ'), ('GCodeSelectZXPlane', ''),
       ('GCodeSelectCoordinateSystem1', ''), ('GCodeStartSpindleCW', ''), ('GCodeToolLengthOffset', 'H'), ('GCodeCancelCannedCycle', '')]
VALUES = [0, 0.0, -0.0, 1, 0.1, 0.3, -0.001, 0.001, 0.999, 0.125, 9.999, -12.5, 100, 1000, 99999.999, 0.1 + 0.2, 2.675, 1.005, 1 / 8.0,
          123456, 1234567.125, 10 - 9.9, 0.07 * 100, 33.333, -0.5, 20000, 100000]


def generate(rng, tier, index):
    feats = gen.swarm(rng, always=['modal', 'multi'], never=[] if rng.random() < 0.5 else ['canned'])
    g = gen.Gen(rng, feats + (['extra'] if rng.random() < 0.2 else []), 'XYZ')
    ops = []
    for _ in range(rng.randint(6, 16 if tier == 'quick' else 40)):
        r = rng.random()
        if r < 0.05:
            ops.append(['line', ' '.join('%s%g' % rng.choice(sorted(model.CODES)) for _ in range(rng.choice([1, 1, 2]))), rng.getrandbits(30)])
        elif r < 0.72:
            line = g.line()
            if rng.random() < 0.15 and '(' not in line and ';' not in line and '%' not in line:
                line = line + rng.choice([' ', '']) + rng.choice(ODD)
            ops.append(['line', line, rng.getrandbits(30)])
        elif r < 0.76:
            ops.append(['line', faults.bad_line(rng, g.m)[0], 1])
        elif r < 0.78:
            ops.append(['line', rng.choice(['O100', 'Oprog1', 'N5 O7', 'o<sub>']), 0])
        elif r < 0.92:
            (cls, letters) = rng.choice(API)
            v = dict((l, rng.choice(VALUES)) for l in (letters or '') if rng.random() < 0.8)
            for l in 'QPH':
                if l in v:
                    v[l] = abs(v[l])
            ops.append(['api', cls, v, rng.choice(VALUES)])
        else:
            ops.append(['crash', round(rng.random(), 4), rng.random() < 0.5])
    ops.append(['crash', round(rng.random(), 4), rng.random() < 0.5])
    return {'granularity': rng.choice(['line', 'block', 'code']), 'ahead': rng.random() < 0.3, 'ops': ops}


WORD = re.compile(r'\s*([A-Za-z])\s*([-+]?[0-9.]+)')


def respell(seed, text):
    """same words in another case and spacing; None if the line is not made of plain words"""
    import random
    rng = random.Random(seed)
    words = []
    i = 0
    text = text.strip()
    while i < len(text):
        m = WORD.match(text, i)
        if not m or m.group(1) in 'oO':
            return None
        words.append((m.group(1), m.group(2)))
        i = m.end()
    style = rng.randrange(4)
    out = ''
    for (l, v) in words:
        l = l.lower() if (style == 1 or (style != 0 and rng.random() < 0.5)) else l.upper()
        gap = rng.choice(['', '', ' ', '\t', '  ']) if style != 2 else ''
        out += l + gap + v + (rng.choice(['', ' ', '   ', '\t', ' \t ']) if style != 3 else '')
    return rng.choice(['', ' ', '\t']) + out + rng.choice(['', ' ', '  '])


def words_of(*texts):
    (codes, left) = ([], [])
    for t in texts:
        b = model.parse(t, verify=False)
        codes += [(c.word, sorted(c.params.items())) for c in b.codes]
        left += b.left
    return (sorted(codes), sorted(left, key=str))


def extras(text):
    return [x and x.strip() for x in model.split_line(text)[1:]]


def same_words(a, b):
    flat = [[w for (word, params) in codes for w in [word] + params] + left for (codes, left) in (a, b)]
    shape = [[len(params) for (_, params) in codes] for (codes, _) in (a, b)]
    return shape[0] == shape[1] and len(flat[0]) == len(flat[1]) and all(
        x[0] == y[0] and (x[1] == y[1] or (x[0] != 'O' and model.close(x[1], y[1]))) for (x, y) in zip(*flat))


class World(object):
    def __init__(self, scenario, ctx):
        self.s = scenario
        self.ctx = ctx
        self.journal = b''
        self.states = [None]        # state after so many records
        self.machine = history.machine_class('XYZ')()
        self.states[0] = self.state()
        self.n = 0

    def fail(self, kind, detail):
        raise Violation(kind, 'operation %d: %s' % (self.n, detail))

    def state(self, m=None):
        return observe.state(m or self.machine)

    def append(self, record):
        if '\n' in record or '\r' in record:
            self.fail('record', 'text form has a line end: %r' % record)
        self.journal += record.encode('utf-8') + b'\n'
        self.ctx.step()
        self.ctx.log('record', repr(record))

    def reread(self, record, make):
        """writing what was re-read gives the same text"""
        try:
            again = make(record)
        except Exception as e:
            if not history.is_documented(e):
                raise
            self.fail('unreadable', '%r, as written, is refused: %s: %s' % (record, type(e).__name__, e))
        if again != record:
            self.fail('rewritten', '%r is re-read and written as %r' % (record, again))

    def op_line(self, text, seed):
        from pygcode.line import Line
        from pygcode.block import Block
        try:
            line = Line(text)
        except Exception as e:
            if not history.is_documented(e):
                raise
            return
        gran = self.s['granularity']
        probe = history.machine_class('XYZ')
        self.faithful(text, [str(x) for x in line.block.gcodes] + [str(x) for x in line.block.modal_params], str(line.block), str(line))
        # another spelling of the same words
        other = respell(seed, text)
        twin = None
        if other is not None:
            from copy import copy
            twin = copy(self.machine)
            try:
                twin.process_str(other)
                self.ctx.probe('respelled')
            except Exception as e:
                if not history.is_documented(e):
                    raise
                twin = e
        if gran == 'code':
            try:
                codes = self.machine.block_modal_gcodes(line.block)
            except Exception as e:
                if not history.is_documented(e):
                    raise
                self.spelling(text, other, twin, True)
                return
            for g in codes:
                self.machine.process_gcodes(g)
                rec = str(g)
                self.append(rec)
                self.states.append(self.state())
                self.reread(rec, lambda t: ' '.join(str(x) for x in Block(t).gcodes))
        else:
            rec = str(line) if gran == 'line' else str(line.block)
            if self.s['ahead']:
                self.append(rec)
            try:
                self.machine.process_block(line.block)
            except Exception as e:
                if not history.is_documented(e):
                    raise
                if self.s['ahead']:
                    self.states.append(self.state())
                self.spelling(text, other, twin, True)
                return
            if not self.s['ahead']:
                self.append(rec)
            self.states.append(self.state())
            if gran == 'line':
                self.reread(rec, lambda t: str(Line(t)))
            else:
                self.reread(rec, lambda t: str(Block(t)))
        self.spelling(text, other, twin, False)

    def faithful(self, text, codes, block, line):
        """the text forms have the words of the source, as an independent reader sees them"""
        try:
            want = words_of(text)
        except (model.Refused, model.Unsure):
            return
        for (what, got) in (('line', [line]), ('block', [block]), ('codes', codes)):
            try:
                found = words_of(*got)
            except (model.Refused, model.Unsure) as e:
                self.fail('words', '%s of %r is written as %r, which has no meaning: %s' % (what, text, got, e))
            if not same_words(found, want):
                self.fail('words', '%s of %r is written as %r' % (what, text, got))
        if extras(line) != extras(text):
            self.fail('words', 'comment or macro of %r: written as %r' % (text, line))
        self.ctx.probe('words-compared')

    def spelling(self, text, other, twin, refused):
        if other is None:
            return
        if isinstance(twin, Exception):
            if not refused:
                self.fail('spelling', '%r is accepted, %r refused: %r' % (text, other, twin))
        elif refused:
            self.fail('spelling', '%r is refused, %r accepted' % (text, other))
        else:
            d = observe.diff(self.state(twin), self.state())
            if d:
                self.fail('spelling', '%r and %r differ: %s' % (text, other, '; '.join(d)))

    def op_api(self, cls, params, value):
        from pygcode import gcodes
        from pygcode.block import Block
        c = getattr(gcodes, cls, None)
        if c is None:
            return
        params = dict((k, int(v) if k in 'HTLN' else v) for (k, v) in params.items() if k in c.param_letters)
        g = c(value, **params) if c.word_value_configurable else c(**params)
        try:
            self.machine.process_gcodes(g)
        except Exception as e:
            if not history.is_documented(e):
                raise
            return
        rec = str(g)
        self.append(rec)
        self.states.append(self.state())
        self.reread(rec, lambda t: str(Block(t)))
        self.ctx.probe('api-code')

    def op_crash(self, fraction, at_end):
        """a prefix of the journal survives; a new machine executes it, and carries on"""
        from pygcode.line import Line
        from pygcode.block import Block
        size = len(self.journal)
        if at_end:
            # near the end: the last record torn, or the last few lost
            keep = size - int(fraction * min(size, 60))
        else:
            keep = int(fraction * size)
        disk = self.journal[:keep]
        records = disk.split(b'\n')
        torn = records.pop()
        self.ctx.fault('crash-torn-record' if torn else 'crash-at-record-end')
        if keep < size:
            self.ctx.fault('lost-journal-bytes', size - keep)
        m = history.machine_class('XYZ')()
        for (i, rec) in enumerate(records):
            text = rec.decode('utf-8')
            try:
                if self.s['granularity'] == 'line':
                    m.process_str(text)
                else:
                    m.process_block(Block(text))
            except Exception as e:
                if not history.is_documented(e):
                    raise
                if not self.s['ahead']:
                    self.fail('unreadable', 'record %d %r refused on recovery: %s: %s' % (i, text, type(e).__name__, e))
            self.ctx.step()
        d = observe.diff(self.state(m), self.states[len(records)])
        if d:
            self.fail('recovery', 'after %d records (last: %r) the recovered machine differs: %s' % (
                len(records), records[-1:], '; '.join(d)))
        got = self.state(m)
        self.ctx.state(self.s['granularity'], bool(torn), tuple(sorted((g, v[:2]) for (g, v) in got['modes'].items() if v)))
        self.machine = m
        self.journal = b''.join(r + b'\n' for r in records)
        self.states = self.states[:len(records) + 1]
        self.ctx.log('recovered', len(records), observe.text_of_state(got))
        if records:
            self.ctx.nontrivial = True

    def run(self, ops):
        for op in ops:
            self.n += 1
            getattr(self, 'op_' + op[0])(*op[1:])


def execute(scenario, ctx):
    World(scenario, ctx).run(scenario['ops'])
